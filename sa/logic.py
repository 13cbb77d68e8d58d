""" Reasoning on guard terms: truth tables over their atoms, evaluation over finite orderings """
import itertools
import struct
from .terms import *
from . import terms as TM

OPAQUE = {'top', 'havoc', 'lv', 'last', 'mu', 'undef', 'p_other', 'mcall', 'call', 'nondet'}

POS = mk('tell', 'POS')          # file position at the start of a message


def conj(pc):
    return land(*[c if b else lnot(c) for c, b in pc])


def cond_atoms(c, out=None):
    """ boolean atoms of a condition """
    out = set() if out is None else out
    if c.op in ('and', 'or', 'not'):
        for x in c.args:
            cond_atoms(x, out)
    elif c.op == 'ite':
        for x in c.args:
            cond_atoms(truthy(x) if x.op not in TM.BOOL_OPS else x, out)
    elif c.op != 'const':
        out.add(c)
    return out


def all_conds(t):
    """ atoms of every condition inside a value term """
    out = set()
    for x in walk(t):
        if x.op == 'ite':
            cond_atoms(x.args[0], out)
        elif x.op == 'p_cond':
            cond_atoms(x.args[0], out)
        elif x.op in ('and', 'or', 'not'):
            cond_atoms(x, out)
    return out


def assign(t, env):
    return subst(t, env)


def same_guard(a, b, limit=12):
    """ True / False (with witness) / None (too many atoms) : are the two conditions propositionally equal """
    if a is b:
        return True, None
    at = sorted(cond_atoms(a) | cond_atoms(b), key=lambda x: x.nid)
    if len(at) > limit:
        return None, None
    for vals in itertools.product((True, False), repeat=len(at)):
        env = {x: C(v) for x, v in zip(at, vals)}
        if not consistent(env):
            continue
        x, y = assign(a, env), assign(b, env)
        if x is not y:
            return False, env
    return True, None


def consistent(env):
    """ drop assignments that contradict simple arithmetic / equality facts """
    eqs = {}
    for c, v in env.items():
        v = cval(v)
        if c.op == 'eq' and v:
            a, b = c.args
            x, k = (a, b) if is_const(b) else (b, a)
            if is_const(k):
                if x in eqs and eqs[x] is not k:
                    return False
                eqs[x] = k
        if c.op == 'is_type' and v:
            if eqs.setdefault(('T', c.args[1]), c.args[0]) != c.args[0]:
                return False
    # single-variable comparisons with constants
    bounds = {}
    for c, v in env.items():
        v = cval(v)
        if c.op == 'lt':
            a, b = c.args
            if is_num(a) and not is_const(b):
                lo, hi = bounds.get(b, (None, None))
                if v:
                    lo = cval(a) + 1 if lo is None else max(lo, cval(a) + 1)
                else:
                    hi = cval(a) if hi is None else min(hi, cval(a))
                bounds[b] = (lo, hi)
            elif is_num(b) and not is_const(a):
                lo, hi = bounds.get(a, (None, None))
                if v:
                    hi = cval(b) - 1 if hi is None else min(hi, cval(b) - 1)
                else:
                    lo = cval(b) if lo is None else max(lo, cval(b))
                bounds[a] = (lo, hi)
    for x, (lo, hi) in bounds.items():
        if lo is not None and hi is not None and lo > hi:
            return False
        l, h = lo_of(x), hi_of(x)
        if l is not None and hi is not None and hi < l or h is not None and lo is not None and lo > h:
            return False
        if x in eqs and is_num(eqs[x]):
            k = cval(eqs[x])
            if lo is not None and k < lo or hi is not None and k > hi:
                return False
    for x, k in eqs.items():
        if isinstance(x, T) and is_num(k):
            l, h = lo_of(x), hi_of(x)
            if l is not None and cval(k) < l or h is not None and cval(k) > h:
                return False
    # negated equalities pinning nothing: fine
    return True


def same_value(a, b, limit=12):
    """ compare two value terms under every assignment of the conditions they contain """
    if a is b:
        return True, None
    at = sorted(all_conds(a) | all_conds(b), key=lambda x: x.nid)
    if len(at) > limit:
        return None, None
    for vals in itertools.product((True, False), repeat=len(at)):
        env = {x: C(v) for x, v in zip(at, vals)}
        if not consistent(env):
            continue
        x, y = assign(a, env), assign(b, env)
        if x is not y:
            return False, (env, x, y)
    return True, None


def opaque(t, allow=()):
    """ the analysis does not know this value exactly """
    for x in walk(t):
        if x in allow:
            continue
        if x.op in OPAQUE:
            if x.op == 'call' and known_call(x):
                continue
            if x.op == 'mcall' and x.args[1] in KNOWN_METHODS:
                continue
            return True
    return False


KNOWN_METHODS = {'bit_length', 'newbyteorder'}


def known_call(x):
    return isinstance(x.args[0], str) and (x.args[0].startswith('numpy.') or x.args[0].startswith('builtins.') or
                                           x.args[0].startswith('json.'))


def numeval(t, env):
    """ evaluate a numeric/boolean term over numbers; raises KeyError for unknown leaves """
    if t in env:
        return env[t]
    op = t.op
    if op == 'const':
        return cval(t)
    if op == 'poly':
        s = 0
        for m, c in t.args[0]:
            p = c
            for x in m:
                p = p * numeval(x, env)
            s = s + p
        return s
    if op == 'lt':
        return numeval(t.args[0], env) < numeval(t.args[1], env)
    if op == 'eq':
        return numeval(t.args[0], env) == numeval(t.args[1], env)
    if op == 'not':
        return not numeval(t.args[0], env)
    if op == 'and':
        r, unk = True, None
        for x in t.args:
            try:
                if not numeval(x, env):
                    return False
            except KeyError as e:
                unk = e
        if unk is not None:
            raise unk
        return r
    if op == 'or':
        unk = None
        for x in t.args:
            try:
                if numeval(x, env):
                    return True
            except KeyError as e:
                unk = e
        if unk is not None:
            raise unk
        return False
    if op == 'ite':
        return numeval(t.args[1] if numeval(t.args[0], env) else t.args[2], env)
    if op == 'truthy':
        return bool(numeval(t.args[0], env))
    if op == 'bitand':
        return int(numeval(t.args[0], env)) & int(numeval(t.args[1], env))
    if op == 'bitor':
        return int(numeval(t.args[0], env)) | int(numeval(t.args[1], env))
    if op == 'rshift':
        return int(numeval(t.args[0], env)) >> int(numeval(t.args[1], env))
    if op == 'lshift':
        return int(numeval(t.args[0], env)) << int(numeval(t.args[1], env))
    if op == 'invert':
        return ~int(numeval(t.args[0], env))
    if op == 'mod':
        return numeval(t.args[0], env) % numeval(t.args[1], env)
    if op in ('floordiv', 'div'):
        a, b = numeval(t.args[0], env), numeval(t.args[1], env)
        return a // b if op == 'floordiv' else a / b
    if op in ('min', 'max'):
        f = min if op == 'min' else max
        return f(*[numeval(x, env) for x in t.args])
    if op == 'call' and t.args[0] in ('builtins.min', 'builtins.max'):
        f = min if t.args[0] == 'builtins.min' else max
        return f(*[numeval(x, env) for x in t.args[1]])
    if op == 'int':
        return int(numeval(t.args[0], env))
    if op in ('slice', 'sub', 'unpack', 'any', 'len', 'startswith', 'endswith', 'in', 'find', 'count'):
        r = byteseval(t, env)
        if r is not None:
            return r
    raise KeyError(t)


def byteseval(t, env):
    """ operations on known bytes """
    op = t.op

    def val(x):
        if isinstance(x, T) and x.op == 'const':
            return cval(x)
        return numeval(x, env)

    def some(ps):
        for p in ps:
            if p.op == 'p_item':
                if val(p.args[0]):
                    return True
            elif p.op == 'p_spread':
                b = val(p.args[0])
                if not isinstance(b, (bytes, list)):
                    raise KeyError(t)
                if any(b):
                    return True
            elif p.op == 'p_cond':
                if some(p.args[1] if val(p.args[0]) else p.args[2]):
                    return True
            else:
                raise KeyError(t)
        return False
    if op == 'any':
        return some(t.args[0].args) if t.args[0].op == 'list' else None
    if op == 'in':
        b = val(t.args[1])
        return val(t.args[0]) in b if isinstance(b, bytes) else None
    if op == 'unpack':
        b = val(t.args[1])
        if not isinstance(b, bytes):
            return None
        try:
            return struct.unpack_from('<' + t.args[0], b, val(t.args[2]))[0]
        except struct.error:
            raise KeyError(t)
    b = val(t.args[0])
    if not isinstance(b, bytes):
        return None
    a = [val(x) for x in t.args[1:] if isinstance(x, T)]
    if op == 'slice':
        return b[slice(*a)] if all(x is None or isinstance(x, int) for x in a) else None
    if op == 'len':
        return len(b)
    if op == 'sub':
        return b[a[0]] if isinstance(a[0], int) and -len(b) <= a[0] < len(b) else None
    if op in ('startswith', 'endswith', 'find', 'count') and a and all(isinstance(x, (bytes, int)) for x in a):
        return getattr(b, op)(*a)
    return None


# ------------------------------------------------------------------ containers of known shape

def settle(t, env):
    """ substitute conditions and flatten the conditional parts of list / dict terms """
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x in memo:
            return memo[x]
        if x in env:
            r = env[x]
        elif x.op in ('list', 'dict', 'setlit'):
            r = mk(x.op, *parts(x.args))
        elif x.op == 'p_each':
            r = mk('p_each', x.args[0], go(x.args[1]), parts(x.args[2]))
        else:
            r = rebuild(x, go)
            if r in env:
                r = env[r]
        memo[x] = r
        return r

    def parts(ps):
        out = []
        for p in ps:
            if p.op == 'p_cond':
                c = go(truthy(p.args[0]))
                if is_const(c):
                    out.extend(parts(p.args[1] if cval(c) else p.args[2]))
                else:
                    a, b = parts(p.args[1]), parts(p.args[2])
                    if a == b:
                        out.extend(a)
                    else:
                        out.append(mk('p_cond', c, a, b))
            else:
                out.append(go(p))
        return tuple(out)
    return go(t)


def calm_value(t):
    env = {x: FALSE for x in walk(t) if x.op == 'raised'}
    return settle(t, env) if env else t


class Und(Exception):
    """ the analysis cannot decide this """


def items_of(t):
    """ the elements of a list term made of single items, or None """
    if t.op == 'tuple':
        return list(t.args)
    if t.op == 'list' and all(p.op == 'p_item' for p in t.args):
        return [p.args[0] for p in t.args]
    return None


def inst_attrs(t):
    """ attributes of a frozen object """
    return dict(t.args[1]) if t.op == 'inst' else None


def calm(c):
    """ the condition when nothing raised """
    env = {x: FALSE for x in cond_atoms(c) if x.op == 'raised'}
    return assign(c, env) if env else c


def quiet(c, s=None):
    """ the condition of processing a complete message: nothing raised and no read limit reached """
    c = calm(c)
    env = {x: FALSE for x in cond_atoms(c) if x.op == 'lt' and
           any(y is POS for y in walk(x))}
    return assign(c, env) if env else c


def tautology(c, limit=10):
    """ TRUE / FALSE if the condition has the same value under all consistent assignments, else itself """
    if is_const(c):
        return c
    at = sorted(cond_atoms(c), key=lambda x: x.nid)
    if len(at) > limit:
        return c
    seen = set()
    for vals in itertools.product((True, False), repeat=len(at)):
        env = {x: C(v) for x, v in zip(at, vals)}
        if not consistent(env):
            continue
        r = assign(c, env)
        if not is_const(r):
            return c
        seen.add(cval(r))
        if len(seen) > 1:
            return c
    return C(seen.pop()) if seen else c


def prune(t):
    """ drop the arms of conditionals whose condition cannot vary """
    env = {}
    for x in walk(t):
        if x.op == 'ite' and x.args[0].op in ('or', 'and', 'not'):
            c = tautology(x.args[0])
            if is_const(c):
                env[x.args[0]] = c
    return settle(t, env) if env else t


def given(t, c, limit=10):
    """ t where c holds: conditionals that c settles are replaced by the arm taken """
    while t.op == 'ite' and not is_const(c):
        at = sorted(set(cond_atoms(c)) | set(cond_atoms(t.args[0])), key=lambda x: x.nid)
        if len(at) > limit:
            return t
        seen = set()
        for vals in itertools.product((TRUE, FALSE), repeat=len(at)):
            env = dict(zip(at, vals))
            if consistent(env) and assign(c, env) is not FALSE:
                seen.add(assign(t.args[0], env))
                if len(seen) > 1:
                    break
        if seen == {TRUE}:
            t = t.args[1]
        elif seen == {FALSE}:
            t = t.args[2]
        else:
            return t
    return t


# ------------------------------------------------------------------ evaluation over grids of input values

RANGE = {'B': (0, 255), 'b': (-128, 127), 'H': (0, 65535), 'h': (-32768, 32767), 'I': (0, 2 ** 32 - 1), 'Q': (0, 2 ** 64 - 1),
         'i': (-2 ** 31, 2 ** 31 - 1), 'q': (-2 ** 63, 2 ** 63 - 1), '?': (0, 1)}


def num_leaves(t, out=None):
    """ the input values a numeric or boolean term depends on; None in the set: something else """
    out = set() if out is None else out
    if t.op == 'unpack' or t is POS:
        out.add(t)
    elif t.op == 'const':
        if not isinstance(cval(t), (int, float, bool)):
            out.add(None)
    elif t.op == 'poly':
        for m, c in t.args[0]:
            for x in m:
                num_leaves(x, out)
    elif t.op in ('lt', 'eq', 'not', 'and', 'or', 'ite', 'truthy', 'bitand', 'bitor', 'rshift', 'lshift', 'invert', 'mod',
                  'floordiv', 'min', 'max', 'int'):
        for x in t.args:
            num_leaves(x, out)
    elif t.op == 'call' and t.args[0] in ('builtins.min', 'builtins.max'):
        for x in t.args[1]:
            num_leaves(x, out)
    else:
        out.add(None)
    return out


def num_consts(t):
    out = {0, 1}
    for x in walk(t):
        if is_num(x):
            out.add(int(cval(x)))
        elif x.op == 'poly':
            for m, c in x.args[0]:
                out.add(int(c))
                out.add(-int(c))
    return out


def grid(ts, fixed=None, limit=6000):
    """ assignments of values to the inputs the terms depend on; None if they depend on something else """
    ls, cs = set(), set()
    for t in ts:
        num_leaves(t, ls)
        cs |= num_consts(t)
    if None in ls:
        return None
    fixed = fixed or {}
    ls = sorted(ls - set(fixed), key=lambda x: x.nid)
    dom = []
    for l in ls:
        if l is POS:
            dom.append([16, 5000])
            continue
        lo, hi = RANGE.get(l.args[0], (0, 65535))
        vs = {lo, hi, 7, 300, 12345}
        for c in cs:
            vs |= {c - 1, c, c + 1, -c, 1 - c, -1 - c}
        dom.append(sorted(v for v in vs if lo <= v <= hi))
    n = 1
    for d in dom:
        n *= len(d)
    while n > limit:
        i = max(range(len(dom)), key=lambda k: len(dom[k]))
        n = n // len(dom[i])
        dom[i] = dom[i][::2]
        n *= len(dom[i])
    return [dict(zip(ls, vals), **{}) | fixed for vals in itertools.product(*dom)]


def grid_outcomes(c, fixed=None):
    """ the values a condition takes over the grid, or None """
    if is_const(c):
        return {bool(cval(c))}
    g = grid([c], fixed)
    if g is None:
        return None
    try:
        return {bool(numeval(c, env)) for env in g}
    except (KeyError, ZeroDivisionError):
        return None


def grid_equal(a, b, when=None):
    """ are two numeric terms equal on the whole grid (where the condition `when` holds); (None, None) if not understood """
    g = grid([a, b] + ([when] if when is not None else []))
    if g is None:
        return None, None
    try:
        for env in g:
            if when is not None and not numeval(when, env):
                continue
            x, y = numeval(a, env), numeval(b, env)
            if x != y:
                return False, (env, x, y)
    except (KeyError, ZeroDivisionError):
        return None, None
    return True, None
