""" Entry scenarios: abstract runs of the public entry points of the repository """
import os
from .terms import *
from . import terms as TM
from .engine import Interp, Program, AnalysisError
from . import models  # noqa: F401  (registers the library models)

REPO = os.environ.get('PYULOG_REPO', '/repo')
_prog = []


def program():
    if not _prog:
        _prog.append(Program(REPO))
    return _prog[0]


def type_hook(chs):
    """ fix the type byte of every 3 byte message header to one of the given values """
    chs = [ord(c) if isinstance(c, str) else c for c in ([chs] if isinstance(chs, int) else chs)]

    def hook(t):
        code, base, off = t.args
        if code in ('B', 'b', 'c') and off is C(2) and base.op == 'read' and base.args[2] is C(3):
            v = [C(ch) if code != 'c' else C(bytes([ch])) for ch in chs]
            r = v[-1]
            for ch, x in zip(reversed(chs[:-1]), reversed(v[:-1])):
                r = ite(mk('is_type', chr(ch), base), x, r)
            return r
        return None
    return hook


class Run:
    pass


def ctor(mtype=None, header_only=FALSE, filt=None, strexc=TRUE, as_path=False, value_hook=None,
         unpack=None):
    """ ULog(file object or path, filter, ...) """
    r = Run()
    hook = type_hook(mtype) if mtype is not None else None
    if unpack is not None:
        def hook(t, h0=hook):
            v = h0(t) if h0 is not None else None
            return v if v is not None else unpack(t)
    it = Interp(program(), unpack_hook=hook)
    it.value_hook = value_hook
    it.max_recursion = getattr(value_hook, 'max_recursion', 0)
    it.endless = not it.max_recursion
    r.it = it
    it.load_module('pyulog.core')
    st = it.start()
    h = mk('sym', 'log_file')
    it.assume[mk('is', NONE, h) if NONE.nid < h.nid else mk('is', h, NONE)] = False
    it.assume[mk('isinstance', h, mk('ext', 'builtins.str'))] = as_path
    if not as_path:
        it.kind[h] = 'file'
        st.cells[('P', h)] = C(0)
    filt = mk('sym', 'filter') if filt is None else filt
    r.h, r.filt = h, filt
    v, st = it.run('pyulog.core', 'ULog', [h, filt, strexc, header_only], {}, st=st)
    r.self, r.st = v, st
    r.trace = it.trace
    r.escapes = it.sinks[0]
    return r


def new_interp(mod, **kw):
    it = Interp(program(), **kw)
    it.load_module(mod)
    return it, it.start()


def sym_instance(it, st, mod, cls, name='ulog'):
    """ an arbitrary instance: every attribute is an unknown value attr(name, attribute) """
    s = mk('sym', name)
    c = it.resolve(mod, cls, st)
    if c is None:
        raise AnalysisError('class %s.%s not found' % (mod, cls))
    it.sym_class[s] = c
    return s


def finish(it, st, v, **kw):
    r = Run()
    r.it, r.st, r.ret, r.trace = it, st, v, it.trace
    r.escapes = it.sinks[0]
    r.__dict__.update(kw)
    return r


def method_run(mod, cls, meth, args=(), kw=None, name='ulog', prep=None):
    it, st = new_interp(mod)
    s = sym_instance(it, st, mod, cls, name)
    if prep:
        prep(it, st, s)
    v, st = it.run(mod, cls + '.' + meth, list(args), kw or {}, st=st, selfval=s)
    return finish(it, st, v, self=s)


class Kinds(dict):
    """ assumptions, plus: every stored value has the given Python type """

    def __init__(self, kind):
        super().__init__()
        self.kind = kind

    def _answer(self, c):
        if self.kind is None or c.op not in ('isinstance', 'eq', 'is'):
            return None
        a, b = c.args
        if c.op != 'isinstance':
            if a.op == 'ext':
                a, b = b, a
            if a.op != 'type':
                return None
            a = a.args[0]
        if a.op not in ('elem', 'sub') or b.op != 'ext' or not str(b.args[0]).startswith('builtins.'):
            return None
        n = b.args[0].split('.')[-1]
        return n == self.kind or (n == 'object' and c.op == 'isinstance')

    def __contains__(self, c):
        return super().__contains__(c) or self._answer(c) is not None

    def __getitem__(self, c):
        return super().__getitem__(c) if super().__contains__(c) else self._answer(c)

    def get(self, c, d=None):
        return self[c] if c in self else d


def write_run(as_path=False, value_hook=None, kind=None, lists=()):
    """ write_ulog of an arbitrary log; `lists`: attributes that hold lists of that many items """
    it, st = new_interp('pyulog.core')
    it.assume = Kinds('float' if kind == 'nan' else kind)
    if kind == 'nan':
        it.nan = lambda t: t.op in ('elem', 'sub')
    it.value_hook = value_hook
    s = sym_instance(it, st, 'pyulog.core', 'ULog')
    for a, n in lists:
        r = it.new_ref('list', None, ('attr', a))
        st.cells[('S', r)] = tuple(('item', mk('sub', mk('attr', s, a), C(i))) for i in range(n))
        st.cells[('A', s, a)] = r
    h = mk('sym', 'log_file')
    it.assume[mk('isinstance', h, mk('ext', 'builtins.str'))] = as_path
    if not as_path:
        it.kind[h] = 'file'
        st.cells[('P', h)] = C(0)
    v, st = it.run('pyulog.core', 'ULog.write_ulog', [h], {}, st=st, selfval=s)
    return finish(it, st, v, self=s, h=h)


def db_run(meth, args=(), kw=None, prep=None):
    it, st = new_interp('pyulog.db')
    s = sym_instance(it, st, 'pyulog.db', 'DatabaseULog')
    hv, st = it.run('pyulog.db', 'DatabaseULog.get_db_handle', [mk('sym', 'db_path')], {}, st=st)
    st.cells[('A', s, '_db')] = hv
    if prep:
        prep(it, st, s)
    v, st = it.run('pyulog.db', 'DatabaseULog.' + meth, list(args), kw or {}, st=st, selfval=s)
    return finish(it, st, v, self=s)


def func_run(mod, fn, args=(), kw=None, prep=None):
    it, st = new_interp(mod)
    if prep:
        prep(it, st)
    v, st = it.run(mod, fn, list(args), kw or {}, st=st)
    return finish(it, st, v)


def show_run(r, depth=8, nm=None, width=400):
    nm = nm or {}
    for e in r.trace:
        f = lambda x: show(subst(x, nm), depth)
        print((e.kind + ' ' + ', '.join(f(x) if isinstance(x, T) else str(x) for x in e.args))[:width],
              '@%s:%s' % (e.mod.split('.')[-1], getattr(e.node, 'lineno', 0)), [l[0] for l in e.loops],
              ('| ' + ' & '.join(('' if b else '!') + f(c) for c, b in e.pc))[:width])
