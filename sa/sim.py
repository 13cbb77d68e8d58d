""" Effect of one message on the containers of the log, for one assignment of the guards """
import copy
from .terms import *
from .logic import *


def thaw(t):
    """ a frozen list / dict term as a python structure over terms """
    if t.op == 'list':
        out = []
        for p in t.args:
            if p.op != 'p_item':
                raise Und('list of unknown shape: %s' % show(t, 4))
            out.append(thaw(p.args[0]))
        return out
    if t.op == 'dict':
        out = {}
        for p in t.args:
            if p.op != 'p_kv':
                raise Und('dict of unknown shape: %s' % show(t, 4))
            out[p.args[0]] = thaw(p.args[1])
        return out
    return t


def differs(a, b):
    """ never the same key """
    d = sub(a, b)
    return is_num(d) and cval(d) != 0


class Store:
    def __init__(self, init):
        self.d = copy.deepcopy(init)
        self.objs = {}

    def resolve(self, t, kind=None):
        if t.op == 'sym' and t.args[0].startswith('self.'):
            n = t.args[0][5:]
            if n not in self.d:
                self.d[n] = {} if kind in ('setitem', 'delitem', 'dupdate') else []
            return self.d[n]
        if t.op == 'sub':
            c = self.resolve(t.args[0])
            k = t.args[1]
            if isinstance(c, dict):
                if k in c:
                    return c[k]
                if c and all(differs(k, x) for x in c):
                    # an entry of another message, which happens to be there
                    c[k] = [mk('sym', 'an entry of another message')]
                    return c[k]
                raise Und('no entry %s' % show(k, 3))
            if isinstance(c, list) and is_num(k):
                try:
                    return c[cval(k)]
                except IndexError:
                    raise Und('index out of range')
        raise Und('container %s' % show(t, 4))


def simulate(v, s, env, init, names=None):
    """ run the container effects of a section under `env`; returns {container: content} """
    st = Store(init)
    fresh = {}
    for e in s.effects:
        if e.kind not in ('setitem', 'append', 'extend', 'insert', 'delitem', 'pop', 'popitem', 'clear', 'dupdate',
                          'remove', 'lsort', 'sort', 'setattr', 'discard'):
            continue
        c = e.args[0]
        if e.kind == 'setattr':
            if not (c.op == 'sym' and c.args[0] == 'self' and e.args[1].args[0] in v.inv):
                continue
        elif c.op == 'ref':
            continue         # an object of this message: its final content is used
        if names is not None:
            p = v.inv.get(cval(e.args[1])) if e.kind == 'setattr' else v.public(c)
            if p is not None and p not in names:
                continue
        g = settle(quiet(e.cond), env)
        if any(x in env for x in walk(g)):
            g = settle(g, env)
        if not is_const(g):
            g2 = late(g, st)
            if g2 is None:
                raise Und('guard %s' % show(g, 5))
            g = g2
        if not cval(g):
            continue
        if len(e.e.loops) > len(s.loops):
            raise Und('%s inside an inner loop' % e.kind)

        def val(x):
            if x.op == 'ref':
                if x not in fresh:
                    fresh[x] = thaw(settle(calm_value(v.value(s, x)), env))
                return fresh[x]
            return thaw(settle(calm_value(v.value(s, x)), env))
        if e.kind == 'setattr':
            st.d[v.inv[cval(e.args[1])]] = val(e.args[2])
            continue
        o = st.resolve(c, e.kind)
        if e.kind == 'setitem':
            if isinstance(o, list):
                if is_num(e.args[1]) and -len(o) <= cval(e.args[1]) < len(o):
                    o[cval(e.args[1])] = val(e.args[2])
                else:
                    raise Und('assignment to a list element')
            else:
                o[settle(e.args[1], env)] = val(e.args[2])
        elif e.kind == 'append':
            o.append(val(e.args[1]))
        elif e.kind == 'extend':
            x = val(e.args[1])
            if not isinstance(x, list):
                raise Und('extend by an unknown sequence')
            o.extend(x)
        elif e.kind == 'insert' and is_num(e.args[1]):
            o.insert(cval(e.args[1]), val(e.args[2]))
        elif e.kind == 'delitem':
            o.pop(e.args[1], None)
        elif e.kind == 'clear':
            o.clear()
        else:
            raise Und('%s on %s' % (e.kind, show(c, 3)))
    return st.d


def late(g, st):
    """ decide conditions about the current content of the containers """
    env = {}
    for a in cond_atoms(g):
        if a.op == 'truthy':
            try:
                env[a] = C(bool(st.resolve(a.args[0])))
            except Und:
                pass
        elif a.op == 'in':
            try:
                env[a] = C(a.args[0] in st.resolve(a.args[1], 'setitem'))
            except Und:
                pass
    r = settle(g, env)
    return r if is_const(r) else None
