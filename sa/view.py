""" Per message-type views of an abstract parser run: sections, framing, canonical effects """
from .terms import *
from . import terms as TM
from .engine import State, AnalysisError
from .scen import program, ctor, new_interp, sym_instance
from .logic import *

PUBLIC = ['start_timestamp', 'last_timestamp', 'msg_info_dict', 'msg_info_multiple_dict', 'initial_parameters',
          'changed_parameters', 'message_formats', 'logged_messages', 'logged_messages_tagged', 'dropouts',
          'data_list', 'file_corruption']

HDR, BODY = mk('sym', 'HDR'), mk('sym', 'BODY')
SIZE = mk('unpack', 'H', HDR, C(0))
_cache = {}


def pubmap():
    """ public property name -> attribute that holds it """
    if 'pub' in _cache:
        return _cache['pub']
    it, st = new_interp('pyulog.core')
    s = sym_instance(it, st, 'pyulog.core', 'ULog')
    from .engine import Frame, Func
    import ast as _ast
    fr = Frame(Func('<q>', '<q>', _ast.parse('pass').body[0], 'pyulog.core', (), None, [], {}, 'func'), 'q', (),
               'pyulog.core')
    it.frames.append(fr)
    out = {}
    for n in PUBLIC + ['has_data_appended', 'has_default_parameters']:
        try:
            v = it.getattr_(s, n, st, _ast.parse('x').body[0], fr)
        except AnalysisError:
            continue
        at = {x.args[1] for x in walk(v) if x.op == 'attr' and x.args[0] is s}
        if v.op == 'ref':
            v = it.freeze(st, v)
            at = {x.args[1] for x in walk(v) if x.op == 'attr' and x.args[0] is s}
        out[n] = (at.pop() if len(at) == 1 else None, v, s)
    it.frames.pop()
    v, st = it.run('pyulog.core', 'ULog.get_default_parameters', [mk('sym', 'default_type')], {}, st=st, selfval=s)
    at = {x.args[1] for x in walk(v) if x.op == 'attr' and x.args[0] is s}
    out['default_parameters'] = (at.pop() if len(at) == 1 else None, v, s)
    _cache['pub'] = out
    return out


def attr_of(pub):
    v = pubmap().get(pub)
    return v[0] if v else None


class VE:
    """ an effect of one message, seen with canonical names """

    def __init__(self, kind, args, cond, e):
        self.kind, self.args, self.cond, self.e = kind, args, cond, e

    @property
    def where(self):
        return where_of(self.e)

    def __repr__(self):
        return '%s(%s) if %s' % (self.kind, ', '.join(show(a, 7) if isinstance(a, T) else str(a) for a in self.args),
                                 show(self.cond, 5))


def where_of(e):
    return 'pyulog/%s.py:%s (%s)' % (e.mod.split('.')[-1], getattr(e.node, 'lineno', '?'),
                                     e.frames[-1] if e.frames else '?')


class Section:
    pass


class View:
    def __init__(self, r, ch):
        self.r, self.ch = r, ch
        TM.UNPACK_HOOK[0] = None
        it = r.it
        self.names = {}
        pm = pubmap()
        inv = {}
        for p, v in pm.items():
            if v[0] and p in PUBLIC + ['default_parameters']:
                inv[v[0]] = p
        self.inv = inv
        for k, v in r.st.cells.items():
            if k[0] == 'A' and k[1] is r.self and isinstance(v, T) and v.op == 'ref':
                self.names[v] = mk('sym', 'self.' + inv.get(k[2], k[2]))
        # the list of topics may be replaced by a sorted one at the end
        for e in r.trace:
            if e.kind == 'setattr' and e.args[0] is r.self and is_const(e.args[1]) and inv.get(cval(e.args[1])) == 'data_list' and \
                    isinstance(e.args[2], T) and e.args[2].op == 'ref':
                self.names.setdefault(e.args[2], mk('sym', 'self.data_list'))
        # the state of the instance when an exception leaves the parser is not needed here
        self.names[r.self] = mk('sym', 'self')
        self.sections = []
        seen = {}
        for e in r.trace:
            if e.kind == 'read' and e.args[2] is C(3) and e.loops and e.args[0] is r.h:
                lid = e.loops[-1][0]
                if lid not in seen:
                    seen[lid] = self.section(lid, e)
        for i, s in enumerate(self.sections):
            s.kind = 'def' if i == 0 else ('app' if len(s.loops) > 1 else 'data')

    def section(self, lid, e0):
        r = self.r
        s = Section()
        s.lid = lid
        s.info = r.it.loopinfo.get(lid)
        s.loops = e0.loops
        s.hdr = mk('read', *e0.args)
        s.node = e0
        m = dict(self.names)
        m[s.hdr] = HDR
        m[mk('len', HDR)] = C(3)
        m[mk('len', BODY)] = SIZE
        head = s.info['head']
        p = head.get(('P', r.h))
        s.headpos = p
        if p is not None and p.op == 'lv':
            m[p] = POS
        elif p is not None and p.op == 'poly':
            lv = [x for mm, c in p.args[0] for x in mm if x.op == 'lv']
            if len(lv) == 1:
                m[lv[0]] = sub(POS, sub(p, lv[0]))
        for ch in set(x.args[0] for e in r.trace for x in walk(conj(e.pc)) if x.op == 'is_type') | {self.ch}:
            m[mk('is_type', ch, s.hdr)] = C(ch == self.ch)
        for k, v in head.items():
            if k[0] == 'A' and k[1] is r.self and isinstance(v, T) and v.op == 'lv' and k[2] in self.inv:
                m[v] = mk('sym', 'self.' + self.inv[k[2]])
        s.map = m
        s.memo = {}
        # the payload read: first read after the header whose length is the size field
        s.bodies = []
        s.reads = []
        for e in r.trace:
            if e.kind == 'read' and e.args[0] is r.h and e.loops and any(l[0] == lid for l in e.loops):
                rd = mk('read', *e.args)
                s.reads.append((rd, e))
                if rd is s.hdr:
                    continue
                if any(x.op == 'unpack' and x.args[1] is s.hdr for x in walk(e.args[2])) and not s.bodies \
                        and e.loops[-1][0] == lid:
                    s.bodies.append((rd, e))
        if s.bodies:
            m[s.bodies[0][0]] = BODY
        s.effects = []
        base = s.info['pc']
        for e in r.trace:
            if not any(l[0] == lid for l in e.loops):
                continue
            s.effects.append(VE(e.kind, tuple(self.tr(s, a) for a in e.args), self.cond(s, e.pc, base), e))
        s.backs = [(self.cond(s, pc, base), cells) for pc, cells in s.info['back']]
        s.brks = [(self.cond(s, pc, base), cells) for pc, cells in s.info['brk']]
        s.exits = [(self.cond(s, pc, base), cells) for pc, cells in s.info['exits']]
        self.sections.append(s)
        return s

    def tr(self, s, a):
        if isinstance(a, T):
            return subst(a, s.map, s.memo)
        if isinstance(a, tuple):
            return tuple(self.tr(s, x) for x in a)
        return a

    def cond(self, s, pc, base):
        n = 0
        while n < len(base) and n < len(pc) and base[n] == pc[n]:
            n += 1
        return self.tr(s, conj(pc[n:]))

    def get(self, kind):
        for s in self.sections:
            if s.kind == kind:
                return s
        return None

    # -------------------------------------------------------------- values

    def value(self, s, v):
        """ a value with fresh objects replaced by their content at the end of the message """
        it = self.r.it
        for c, cells in s.backs + s.brks:
            if any(x.op == 'raised' for x in cond_atoms(c)) and calm(c) is FALSE:
                continue
            if self.has(cells, v):
                return self.tr(s, it.freeze(State(dict(cells)), v, depth=8))
        return self.tr(s, it.freeze(State(dict(self.r.st.cells)), v, depth=8))

    def has(self, cells, v):
        for x in walk(v):
            if x.op == 'ref' and x not in self.names:
                if not any(k[1] is x for k in cells if len(k) > 1):
                    return False
        return True

    def pos(self, s, cells):
        p = cells.get(('P', self.r.h))
        return self.tr(s, p) if isinstance(p, T) else p

    def public(self, t):
        """ 'self.name' if the term is (an element of) a container of the parsed log """
        x = t
        while x.op in ('sub', 'attr', 'elem') or x.op == 'mcall' and x.args[1] in ('get', 'setdefault'):
            x = x.args[0] if x.op != 'elem' else x.args[1]
        if x.op == 'sym' and x.args[0].startswith('self.'):
            return x.args[0][5:]
        return None


_views = {}


def view(ch, types=None, **kw):
    """ cached view of a constructor run whose messages are of the given types, focused on type ch """
    types = types if types is not None else [ch]
    key = (ch, tuple(types), tuple(sorted((k, id(v)) if callable(v) else (k, repr(v)) for k, v in kw.items())))
    if key not in _views:
        _views[key] = View(run_ctor(types, **kw), ch)
    return _views[key]


_runs = {}


def run_ctor(types=None, **kw):
    key = (tuple(types) if types is not None else None,
           tuple(sorted((k, id(v)) if callable(v) else (k, repr(v)) for k, v in kw.items())))
    if key not in _runs:
        _runs[key] = (ctor(list(types) if types is not None else None, **kw), kw)
        TM.UNPACK_HOOK[0] = None
    return _runs[key][0]


# ------------------------------------------------------------------ specialisation hooks

def is_decoded(t, base=None):
    """ text decoded from (part of) a message """
    return t.op == 'utf8'


class TypeHook:
    """ the declared type of an 'I', 'M', 'P' or 'Q' message is this constant """

    def __init__(self, typ):
        self.typ, self.fired = typ, set()

    def __call__(self, t):
        if t.op == 'sub' and t.args[1] is C(0) and t.args[0].op == 'split' and is_decoded(t.args[0].args[0]) and \
                t.args[0].args[1:2] == (C(' '),) and t.args[0].args[0].args[0].op == 'slice':
            self.fired.add(t)
            return C(self.typ)
        return None

    def __repr__(self):
        return 'TypeHook(%s)' % self.typ


class FieldHook:
    """ every field declaration of a format message is this text """

    def __init__(self, decl):
        self.decl, self.fired = decl, set()

    def __call__(self, t):
        if t.op == 'elem' and t.args[1].op in ('split', 'slice'):
            x = t.args[1] if t.args[1].op == 'split' else t.args[1].args[0]
            if x.op == 'split' and x.args[1:2] == (C(';'),):
                self.fired.add(t)
                return C(self.decl)
        return None

    def __repr__(self):
        return 'FieldHook(%s)' % self.decl


class FormatHook:
    """ the known message formats are the given ones; every subscription names the first """

    max_recursion = 5

    def __init__(self, formats):
        self.formats, self.fired = formats, set()

    def __call__(self, t):
        if t.op == 'attr' and t.args[1] == 'fields' and t.args[0].op == 'sub':
            k = t.args[0].args[1]
            if is_const(k) and cval(k) in self.formats:
                name = cval(k)
            elif is_decoded(k) or k.op == 'strop' and len(k.args) > 1 and isinstance(k.args[1], T) and is_decoded(k.args[1]):
                name = next(iter(self.formats))
            else:
                return None
            self.fired.add(t)
            return mk('tuple', *[mk('tuple', C(a), C(b), C(c)) for a, b, c in self.formats[name]])
        return None

    def __repr__(self):
        return 'FormatHook(%r)' % (self.formats,)
