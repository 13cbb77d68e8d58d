"""
A flow-, context- and field-sensitive abstract interpreter for the Python this
repository uses.  Values are provenance terms (terms.py).  Branches are joined
(gated terms), loops are generalised to an invariant head state by
anti-unification and analysed once for a generic iteration, calls are inlined.
No repository code is executed and no path is enumerated or handed to a solver.

The result of a run is a trace of effects (reads, writes, container updates,
SQL statements, raises ...) each with its guard, its loop nest and its source
position, plus the abstract heap at the end.
"""
import ast
import builtins
import os
import re
from .terms import *     # pylint: disable=wildcard-import,unused-wildcard-import
from . import terms as TM


class AnalysisError(Exception):
    """ the analysis itself cannot proceed (vanished anchor, syntax it cannot model) """


class Effect:
    __slots__ = ('kind', 'args', 'pc', 'loops', 'node', 'mod', 'frames', 'n', 'snap')

    def __init__(self, kind, args, pc, loops, node, mod, frames, n):
        self.kind, self.args, self.pc, self.loops = kind, args, pc, loops
        self.node, self.mod, self.frames, self.n = node, mod, frames, n
        self.snap = None

    @property
    def where(self):
        return '%s:%s' % (self.mod, getattr(self.node, 'lineno', '?'))

    def __repr__(self):
        return '<%s %s @%s loops=%s pc=%s>' % (self.kind, ', '.join(show(a) if isinstance(a, T) else repr(a)
                                                                   for a in self.args), self.where,
                                               [l[0] for l in self.loops],
                                               [(show(c), b) for c, b in self.pc])


class State:
    __slots__ = ('cells', 'pc', 'dead')

    def __init__(self, cells=None, pc=()):
        self.cells = cells if cells is not None else {}
        self.pc = pc
        self.dead = False

    def fork(self, *conds):
        s = State(dict(self.cells), self.pc + tuple(conds))
        return s

    def become(self, other):
        self.cells, self.pc, self.dead = other.cells, other.pc, other.dead


class Func:
    def __init__(self, fid, name, node, mod, scopes, cls, defaults, kwdefaults, kind):
        self.fid, self.name, self.node, self.mod, self.scopes = fid, name, node, mod, scopes
        self.cls, self.defaults, self.kwdefaults, self.kind = cls, defaults, kwdefaults, kind

    @property
    def qual(self):
        return (self.cls + '.' if self.cls else '') + self.name


class Cls:
    def __init__(self, name, mod, bases, node):
        self.name, self.mod, self.bases, self.node = name, mod, bases, node


class Frame:
    def __init__(self, func, scope, scopes, mod, selfval=None, clsT=None):
        self.func, self.scope, self.scopes, self.mod = func, scope, scopes, mod
        self.returns = []
        self.loopctl = []
        self.locals = set()
        self.nonlocals = set()
        self.globals = set()
        self.selfval = selfval
        self.clsT = clsT
        self.yields = None


EXC_PARENT = {
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'LookupError': 'Exception',
    'UnicodeDecodeError': 'UnicodeError', 'UnicodeError': 'ValueError', 'ValueError': 'Exception',
    'TypeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError',
    'RuntimeError': 'Exception', 'struct.error': 'Exception', 'AttributeError': 'Exception',
    'OSError': 'Exception', 'IOError': 'Exception', 'FileNotFoundError': 'OSError', 'FileExistsError': 'OSError',
    'NotADirectoryError': 'OSError', 'EOFError': 'Exception', 'AssertionError': 'Exception',
    'StopIteration': 'Exception', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError',
    'OverflowError': 'ArithmeticError', 'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception',
    'Exception': 'BaseException', 'SystemExit': 'BaseException', 'KeyboardInterrupt': 'BaseException',
}


def exc_isa(name, base):
    while name is not None:
        if name == base:
            return True
        name = EXC_PARENT.get(name, 'BaseException' if name != 'BaseException' else None)
    return False


BUILTINS = {'len', 'print', 'open', 'range', 'enumerate', 'zip', 'sorted', 'reversed', 'sum', 'min', 'max', 'any',
            'all', 'isinstance', 'issubclass', 'hasattr', 'getattr', 'setattr', 'str', 'bytes', 'bytearray', 'int',
            'float', 'bool', 'list', 'dict', 'set', 'tuple', 'frozenset', 'chr', 'ord', 'divmod', 'abs', 'type',
            'super', 'object', 'map', 'filter', 'iter', 'next', 'repr', 'property', 'staticmethod', 'classmethod',
            'format', 'hash', 'id', 'round', 'pow', 'vars', 'callable', 'memoryview', 'slice', 'complex', 'hex',
            'delattr', 'dir', 'input', 'bin', 'oct', 'globals', 'locals',
            'Exception', '__name__', '__file__', 'NotImplemented', 'Ellipsis'} | set(EXC_PARENT)

MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'sort', 'reverse', 'update',
            'setdefault', 'add', 'discard', 'popleft', 'appendleft', 'setflags', 'resize', 'fill'}


def models_read_len(it, st, b):
    from .models import read_len
    return read_len(it, st, b)


class Interp:
    """ one analysis run """

    def __init__(self, program, assume=None, unpack_hook=None, max_depth=60):
        self.p = program
        self.assume = dict(assume or {})       # condition term -> bool
        self.trace = []
        self.silent = 0
        self.unpacked = set()   # reads that were unpacked completely (they are not shorter than requested)
        self.ctx = 0
        self.ctx_tab = {}
        self.callstack = []
        self.frames = []
        self.loops = ()
        self.sinks = [[]]
        self.kind = {}
        self.cls_of = {}
        self.origin = {}
        self.funcs = {}
        self.classes = {}
        self.seq = 0
        self.max_depth = max_depth
        self.unpack_hook = unpack_hook
        self.notes = []
        self.loopinfo = {}
        self.merged = {}               # loop -> key of the dictionary or set through which its results went
        self.sym_class = {}
        self.mods_done = {}
        self.unmodelled = []
        self.visited_funcs = {}
        self.call_hook = None
        self.max_recursion = 0          # recursive calls analysed before they are summarised
        self.endless = False            # recursion may go on until the interpreter gives up
        self.sql_fail = None            # which statements fail
        self.row_hook = None            # specialises what a query gives
        self.fs = {}                    # contents of files, by path
        self.file_path = {}             # path of an opened file, by handle
        self.nan = None         # which values are not a number
        self.value_hook = None          # specialises chosen values to constants
        self.failed_mods = set()
        self.missing = None               # packages that are not installed
        self.bound_names = {}
        self.concrete = False           # shapes are known: containers are enumerated, loops unrolled
        self.meth_hook = self.ext_hook = None   # stand in for library calls
        self.callv = {}                 # what calls of unknown functions give
        self.new_hook = None            # stands in for constructors
        self.cli = None                 # the command line of a scenario
        self.recalls = []
        self.cond_cache = {}
        self.nodes = {}
        self.steps = 0
        TM.UNPACK_HOOK[0] = unpack_hook
        self.genv = State()

    # ------------------------------------------------------------ utilities

    def emit(self, st, kind, node, *args):
        if self.silent:
            return None
        e = Effect(kind, args, st.pc, self.loops, node, self.frames[-1].mod if self.frames else '?',
                   tuple(f.func.qual if f.func else '<module>' for f in self.frames), len(self.trace))
        self.trace.append(e)
        return e

    def subctx(self, tag):
        k = (self.ctx, tag)
        v = self.ctx_tab.get(k)
        if v is None:
            v = self.ctx_tab[k] = len(self.ctx_tab) + 1
        return v

    def nodeid(self, node):
        """ identity of a node of the syntax tree, which stays alive with it """
        self.nodes[id(node)] = node
        return id(node)

    def new_ref(self, kind, node, tag='', cls=None):
        i = self.subctx(('alloc', kind, self.nodeid(node), tag))
        r = mk('ref', '%s%d' % (kind, i))
        self.kind[r] = kind
        if cls is not None:
            self.cls_of[r] = cls
        if r not in self.origin:
            self.origin[r] = (self.frames[-1].mod if self.frames else '?', getattr(node, 'lineno', 0))
        return r

    def seqno(self, node):
        return self.subctx(('seq', self.nodeid(node)))

    def may(self, st, exc, node, reason=None):
        self.sinks[-1].append(('may', exc, st.pc, st.cells, node, self._chain(), reason, self.loops, None))
        self.emit(st, 'may', node, C(exc), reason if isinstance(reason, T) else NONE)

    def _chain(self):
        return tuple((f.func.qual if f.func else '<module>') for f in self.frames)

    def raise_(self, st, exc, node, val=None):
        self.sinks[-1].append(('explicit', exc, st.pc, dict(st.cells), node, self._chain(), val, self.loops, None))
        self.emit(st, 'raise', node, C(exc), val if isinstance(val, T) else NONE)
        st.dead = True

    # facts known on the current path
    def facts(self, pc):
        f = self.cond_cache.get(pc)
        if f is None:
            f = {}
            for c, b in pc:
                self._addfact(f, c, b)
            self.cond_cache[pc] = f
        return f

    def _addfact(self, f, c, b):
        if c.op == 'not':
            self._addfact(f, c.args[0], not b)
            return
        if c.op == 'and' and b:
            for x in c.args:
                self._addfact(f, x, True)
        if c.op == 'or' and not b:
            for x in c.args:
                self._addfact(f, x, False)
        f[c] = b

    def simp(self, st, c):
        """ simplify a condition under the current facts """
        return self._simp(c, self.facts(st.pc))

    def _simp(self, c, f):
        if c.op == 'const':
            return c
        if c in f:
            return C(f[c])
        if c in self.assume:
            return C(self.assume[c])
        if c.op == 'not':
            return lnot(self._simp(c.args[0], f))
        if c.op == 'and':
            return land(*[self._simp(x, f) for x in c.args])
        if c.op == 'or':
            return lor(*[self._simp(x, f) for x in c.args])
        if c.op == 'ite':
            return truthy(ite(self._simp(c.args[0], f), c.args[1], c.args[2]))
        if c.op == 'eq':
            a, b = c.args
            x, k = (a, b) if is_const(b) else (b, a)
            if is_const(k):
                for g, v in f.items():
                    if v and g.op == 'eq' and g is not c:
                        ga, gb = g.args
                        gx, gk = (ga, gb) if is_const(gb) else (gb, ga)
                        if gx is x and is_const(gk) and cval(gk) != cval(k):
                            return FALSE
        return c

    # ------------------------------------------------------------ joins

    def merge_cells(self, c, a, b):
        out = dict(b)
        for k, va in a.items():
            vb = b.get(k)
            if vb is va:
                continue
            if vb is None:
                vb = self.before(k)
                if vb is None:
                    out[k] = va
                    continue
            out[k] = self.merge_val(c, va, vb, k)
        for k, vb in b.items():
            if k[0] == 'A' and k not in a:
                va = self.before(k)
                if va is not None:
                    out[k] = self.merge_val(c, va, vb, k)
        return out

    @staticmethod
    def before(k):
        """ value of an attribute that was not assigned: what an object from outside came with """
        if k[0] == 'A' and isinstance(k[1], T) and k[1].op in ('sym', 'elem', 'attr'):
            return mk('attr', k[1], k[2])
        return None

    def merge_val(self, c, va, vb, k=None):
        if isinstance(va, T) and isinstance(vb, T):
            return ite(c, va, vb)
        if isinstance(va, tuple) and isinstance(vb, tuple):
            if va == vb:
                return va
            n = 0
            while n < len(va) and n < len(vb) and va[n] == vb[n]:
                n += 1
            return va[:n] + (('cond', c, va[n:], vb[n:]),)
        return va

    def merge_states(self, st, pc0, alts):
        """ alts: list of (pc, cells[, value]); st becomes their join. Returns the joined value. """
        if not alts:
            st.dead = True
            return NONE
        conds = [self.extra(pc0, a[0]) for a in alts]
        cells = alts[-1][1]
        val = alts[-1][2] if len(alts[-1]) > 2 else NONE
        for i in range(len(alts) - 2, -1, -1):
            cells = self.merge_cells(conds[i], alts[i][1], cells)
            if len(alts[i]) > 2:
                val = ite(conds[i], alts[i][2], val)
        if len(alts) == 1:
            st.cells, st.pc, st.dead = dict(cells), alts[0][0], False
            return val
        tot = lor(*conds)
        st.cells, st.dead = cells, False
        st.pc = pc0 if tot is TRUE else pc0 + ((tot, True),)
        return val

    @staticmethod
    def extra(pc0, pc):
        if pc[:len(pc0)] == pc0:
            return land(*[c if b else lnot(c) for c, b in pc[len(pc0):]])
        n = 0
        while n < len(pc0) and n < len(pc) and pc0[n] == pc[n]:
            n += 1
        return land(*[c if b else lnot(c) for c, b in pc[n:]])

    # ------------------------------------------------------------ modules

    def load_module(self, mod):
        """ abstractly run a module's top level; returns the scope id """
        if mod in self.mods_done:
            return self.mods_done[mod]
        tree = self.p.tree(mod)
        if tree is None:
            return None
        scope = 'm:' + mod
        self.mods_done[mod] = scope
        st = self.genv
        fr = Frame(None, scope, (), mod)
        fr.locals = None
        self.frames.append(fr)
        st.cells[('V', scope, '__name__')] = C(mod)
        st.cells[('V', scope, '__file__')] = C('/PKG/%s.py' % mod.replace('.', '/'))
        self.silent += 1
        oldloops, self.loops = self.loops, ()
        octx, self.ctx = self.ctx, self.subctx(('mod', mod))
        try:
            self.block(tree.body, st, fr)
            if st.dead:
                self.failed_mods.add(mod)
            st.dead = False
            st.pc = ()
        finally:
            self.silent -= 1
            self.frames.pop()
            self.loops = oldloops
            self.ctx = octx
        return scope

    def module_get(self, mod, name, st):
        scope = self.load_module(mod)
        if scope is None:
            return None
        v = st.cells.get(('V', scope, name))
        if v is None:
            v = self.genv.cells.get(('V', scope, name))
        return v

    def start(self):
        """ a fresh state holding every loaded module's globals """
        return State(dict(self.genv.cells))

    # ------------------------------------------------------------ names

    def lookup(self, name, st, fr, node):
        for s in self.scope_chain(name, fr):
            v = st.cells.get(('V', s, name))
            if v is None and s.startswith('m:'):
                v = self.genv.cells.get(('V', s, name))
            if v is not None:
                return v
        if name in BUILTINS:
            return mk('ext', 'builtins.' + name)
        if self.frames and fr.func is not None and name in (fr.locals or ()):
            if not self.loops:
                self.raise_(st, 'UnboundLocalError', node)
                return NONE
            return mk('undef')
        if not self.loops and fr.func is not None and not hasattr(builtins, name) and not self.mentioned(name, fr.mod):
            self.raise_(st, 'NameError', node)
            return NONE
        return mk('sym', 'name:' + name)

    def mentioned(self, name, mod):
        """ some statement of the module binds the name, or might """
        s = self.bound_names.get(mod)
        if s is None:
            s = self.bound_names[mod] = set()
            for n in ast.walk(self.p.tree(mod)):
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    s.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    s.add(n.name)
                elif isinstance(n, ast.arg):
                    s.add(n.arg)
                elif isinstance(n, ast.alias):
                    s.add((n.asname or n.name).split('.')[0])
                elif isinstance(n, ast.ExceptHandler):
                    s.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    s.update(n.names)
                elif isinstance(n, ast.MatchAs) or isinstance(n, ast.MatchStar):
                    s.add(n.name)
            for n in ('__name__', '__file__', '__doc__', '__package__', '__spec__', '__path__', '__class__'):
                s.add(n)
        return name in s or '*' in s

    def fails(self, st, exc, node):
        """ in a run over known shapes: the operation raises """
        if self.concrete and not st.dead:
            self.raise_(st, exc, node)
            return True
        return False

    def scope_chain(self, name, fr):
        if fr.func is None or name not in fr.globals:
            yield fr.scope
        for s in reversed(fr.scopes):
            yield s
        yield 'm:' + fr.mod

    def store_name(self, name, val, st, fr):
        if name in fr.globals:
            st.cells[('V', 'm:' + fr.mod, name)] = val
            self.emit(st, 'setglobal', None, C(name), val)
            return
        if name in fr.nonlocals:
            for s in reversed(fr.scopes):
                if ('V', s, name) in st.cells:
                    st.cells[('V', s, name)] = val
                    return
        st.cells[('V', fr.scope, name)] = val

    # ------------------------------------------------------------ statements

    def block(self, stmts, st, fr):
        for s in stmts:
            if st.dead:
                return
            self.stmt(s, st, fr)

    def stmt(self, s, st, fr):
        self.steps += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unmodelled.append((type(s).__name__, fr.mod, s.lineno))
            return
        m(s, st, fr)

    def s_Pass(self, s, st, fr):
        pass

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st, fr)

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        if st.dead:
            return
        for t in s.targets:
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self.ev(s.value, st, fr)
            if not st.dead:
                self.assign(s.target, v, st, fr)

    def s_AugAssign(self, s, st, fr):
        t = s.target
        load = ast.copy_location(_as_load(t), t)
        cur = self.ev(load, st, fr)
        v = self.ev(s.value, st, fr)
        if st.dead:
            return
        if isinstance(s.op, ast.Add):
            if cur.op == 'ref' and self.kind.get(cur) in ('list', 'bytearray'):
                self.seq_extend(cur, v, st, s)
                return
            if cur.op not in ('const',) and not numeric_kind(cur) and not numeric_kind(v) \
                    and self.iterable_kind(v, st) and not isinstance(t, ast.Name):
                self.emit(st, 'extend', s, cur, self.freeze(st, v))
                return
        if isinstance(s.op, ast.BitOr) and cur.op == 'ref' and self.kind.get(cur) == 'set':
            self.method(cur, 'update', [v], {}, s, st, fr)
            return
        r = self.binop(s.op, cur, v, st, s)
        if cur.op == 'vec':
            self.emit(st, 'inplace', s, cur)
        self.assign(t, r, st, fr)

    def iterable_kind(self, v, st):
        return v.op in ('slice', 'read', 'bytes', 'enc', 'pack', 'list', 'tuple') or \
            (v.op == 'ref' and self.kind.get(v) in ('list', 'bytearray')) or \
            (is_const(v) and isinstance(cval(v), bytes))

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if star and i == star[0]:
                    hi = n - 1 - i
                    self.assign(e.value, self.slice_(v, C(i), C(-hi) if hi else NONE, st), st, fr)
                elif star and i > star[0]:
                    self.assign(e, self.index(v, C(i - n), st, t), st, fr)
                else:
                    self.assign(e, self.index(v, C(i), st, t, unpack=n), st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            self.setattr_(b, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            if isinstance(t.slice, ast.Slice):
                lo = self.ev(t.slice.lower, st, fr) if t.slice.lower else NONE
                hi = self.ev(t.slice.upper, st, fr) if t.slice.upper else NONE
                if b.op == 'ref' and lo in (NONE, C(0)) and hi is NONE:
                    st.cells[('S', b)] = self.to_parts(v, st)
                    self.emit(st, 'clear', t, b)
                else:
                    if b.op == 'ref' and ('S', b) in st.cells:
                        st.cells[('S', b)] = (('spread', mk('setslice', self.freeze(st, b), lo, hi,
                                                            self.freeze(st, v))),)
                    self.emit(st, 'setslice', t, b, lo, hi, self.freeze(st, v))
                return
            k = self.ev(t.slice, st, fr)
            self.setitem(b, k, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def setattr_(self, b, name, v, st, node):
        if b.op == 'ite':
            self.on_alts(b, st, lambda x, s: self.setattr_(x, name, v, s, node))
            return
        st.cells[('A', b, name)] = v
        self.emit(st, 'setattr', node, b, C(name), self.freeze(st, v) if v.op != 'ref' else v)

    def setitem(self, b, k, v, st, node):
        if b.op == 'ite':
            self.on_alts(b, st, lambda x, s: self.setitem(x, k, v, s, node))
            return
        if b.op == 'ref':
            kd = self.kind.get(b)
            if kd == 'dict':
                items = st.cells.get(('D', b), ())
                st.cells[('D', b)] = self.dict_put(items, k, v)
            elif kd in ('list', 'bytearray'):
                parts = st.cells.get(('S', b), ())
                if is_num(k) and isinstance(cval(k), int) and all(p[0] == 'item' for p in parts) \
                        and -len(parts) <= cval(k) < len(parts):
                    i = cval(k) % len(parts)
                    st.cells[('S', b)] = parts[:i] + (('item', v),) + parts[i + 1:]
                else:
                    st.cells[('S', b)] = (('spread', mk('updated', self.freeze(st, b), k, self.freeze(st, v))),)
        elif b.op == 'call' or b.op in ('attr', 'sub', 'sym', 'elem', 'lv'):
            st.cells[('I', b, k)] = v
        self.emit(st, 'setitem', node, b, k, v)

    @staticmethod
    def dict_put(items, k, v):
        out = []
        done = False
        for it in items:
            if it[0] == 'item' and it[1] is k:
                out.append(('item', k, v))
                done = True
            else:
                out.append(it)
        if not done:
            out.append(('item', k, v))
        return tuple(out)

    def on_alts(self, v, st, fn):
        """ apply fn(alternative, state) to both arms of an ite value and join """
        c = self.simp(st, v.args[0])
        if is_const(c):
            return fn(v.args[1] if cval(c) else v.args[2], st)
        pc0 = st.pc
        a, b = st.fork((c, True)), st.fork((c, False))
        ra = fn(v.args[1], a)
        rb = fn(v.args[2], b)
        alts = []
        if not a.dead:
            alts.append((a.pc, a.cells, ra if ra is not None else NONE))
        if not b.dead:
            alts.append((b.pc, b.cells, rb if rb is not None else NONE))
        return self.merge_states(st, pc0, alts)

    def s_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if st.dead:
            return
        if is_const(c):
            self.block(s.body if cval(c) else s.orelse, st, fr)
            return
        pc0 = st.pc
        a, b = st.fork((c, True)), st.fork((c, False))
        self.block(s.body, a, fr)
        self.block(s.orelse, b, fr)
        alts = []
        if not a.dead:
            alts.append((a.pc, a.cells))
        if not b.dead:
            alts.append((b.pc, b.cells))
        self.merge_states(st, pc0, alts)

    def cond(self, e, st, fr):
        v = self.ev(e, st, fr)
        return self.simp(st, self.truth(v, st))

    def truth(self, v, st):
        if v.op == 'ref':
            k = self.kind.get(v)
            if k in ('list', 'bytearray', 'dict', 'set'):
                parts = st.cells.get(('D' if k == 'dict' else 'S', v), ())
                if not parts:
                    return FALSE
                if any(p[0] == 'item' for p in parts):
                    return TRUE
                return mk('truthy', v)
            return TRUE
        if v.op in ('rematch', 'repat', 'stub'):
            return TRUE
        return truthy(v)

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        if st.dead:
            return
        fr.returns.append((st.pc, st.cells, v))
        st.dead = True

    def s_Break(self, s, st, fr):
        fr.loopctl[-1][0].append((st.pc, st.cells))
        st.dead = True

    def s_Continue(self, s, st, fr):
        fr.loopctl[-1][1].append((st.pc, st.cells))
        st.dead = True

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            self.raise_(st, '<reraise>', s)
            return
        v = self.ev(s.exc, st, fr)
        if st.dead:
            return
        self.raise_(st, self.exc_name(v), s, v)

    def exc_name(self, v):
        if v.op == 'ext':
            return v.args[0].replace('builtins.', '')
        if v.op == 'call' and isinstance(v.args[0], str):
            return v.args[0].replace('builtins.', '')
        if v.op == 'inst_exc':
            return v.args[0]
        if v.op == 'class':
            return self.classes[v].name
        if v.op == 'ref' and v in self.cls_of:
            return self.classes[self.cls_of[v]].name
        if v.op == 'exc':
            return '<reraise>'
        return 'Exception'

    def s_Assert(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if is_const(c):
            if not cval(c):
                self.raise_(st, 'AssertionError', s)
            return
        b = st.fork((c, False))
        self.raise_(b, 'AssertionError', s)
        st.pc = st.pc + ((c, True),)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.cells.pop(('V', fr.scope, t.id), None)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, fr)
                st.cells.pop(('A', b, t.attr), None)
                self.emit(st, 'delattr', t, b, C(t.attr))
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                if isinstance(t.slice, ast.Slice):
                    k = NONE
                else:
                    k = self.ev(t.slice, st, fr)
                self.del_item(b, k, st, t)

    def del_item(self, b, k, st, node):
        if b.op == 'ref' and ('D', b) in st.cells:
            st.cells[('D', b)] = tuple(i for i in st.cells[('D', b)] if not (i[0] == 'item' and i[1] is k))
        elif b.op == 'ref' and ('S', b) in st.cells:
            parts = st.cells[('S', b)]
            if is_num(k) and parts and all(p[0] == 'item' for p in parts) and -len(parts) <= cval(k) < len(parts):
                i = cval(k) % len(parts)
                st.cells[('S', b)] = parts[:i] + parts[i + 1:]
            else:
                st.cells[('S', b)] = (('spread', mk('deleted', self.freeze(st, b), k)),)
        self.emit(st, 'delitem', node, b, k)

    def s_Global(self, s, st, fr):
        fr.globals |= set(s.names)

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals |= set(s.names)

    def lacks(self, name, s, st):
        if self.missing is not None and name not in ('', 'pyulog') and not self.p.has(name) and self.missing(name):
            self.raise_(st, 'ImportError', s)
            return True
        if self.missing is not None and self.p.has(name):
            self.load_module(name)
            if name in self.failed_mods:
                self.raise_(st, 'ImportError', s)
                return True
        return False

    def s_Import(self, s, st, fr):
        for a in s.names:
            if self.lacks(a.name, s, st):
                return
            name = a.asname or a.name.split('.')[0]
            target = a.name if a.asname else a.name.split('.')[0]
            self.store_name(name, self.import_mod(target, fr), st, fr)
            self.emit(st, 'import', s, C(a.name))

    def import_mod(self, name, fr):
        if self.p.has(name):
            self.load_module(name)
            return mk('ext', 'mod:' + name)
        return mk('ext', name)

    def s_ImportFrom(self, s, st, fr):
        base = s.module or ''
        if s.level:
            pkg = self.p.package_of(fr.mod, s.level)
            base = pkg + ('.' + base if base else '')
        if self.lacks(base, s, st):
            return
        self.emit(st, 'import', s, C(base))
        for a in s.names:
            name = a.asname or a.name
            if self.p.has(base + '.' + a.name):
                self.load_module(base + '.' + a.name)
                if self.missing is not None and base + '.' + a.name in self.failed_mods:
                    self.raise_(st, 'ImportError', s)
                    return
                v = mk('ext', 'mod:' + base + '.' + a.name)
            elif self.p.has(base):
                v = self.module_get(base, a.name, st)
                if v is None:
                    v = mk('ext', base + '.' + a.name)
            else:
                v = mk('ext', base + '.' + a.name)
            self.store_name(name, v, st, fr)

    def s_FunctionDef(self, s, st, fr):
        v = self.make_func(s, s.name, st, fr)
        for d in reversed(s.decorator_list):
            dn = ast.unparse(d)
            if dn in ('staticmethod', 'classmethod', 'property') or dn.endswith('.setter'):
                continue
        if any(ast.unparse(d).endswith('.setter') for d in s.decorator_list):
            name = s.name + '.setter'
            st.cells[('V', fr.scope, name)] = v
            return
        self.store_name(s.name, v, st, fr)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, node, name, st, fr, cls=None):
        a = node.args
        defaults = [self.ev(d, st, fr) for d in a.defaults]
        kwd = {k.arg: self.ev(d, st, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        kind = 'func'
        for d in getattr(node, 'decorator_list', []):
            dn = ast.unparse(d)
            if dn in ('staticmethod', 'classmethod'):
                kind = dn
            elif dn in ('property', 'functools.cached_property', 'cached_property'):
                kind = 'property'
            elif dn in ('contextlib.contextmanager', 'contextmanager'):
                kind = 'ctxmgr'
        scopes = fr.scopes
        clsname = None
        if fr.scope.startswith('c:'):
            clsname = fr.scope.split(':', 2)[2]
        elif fr.func is not None:
            scopes = fr.scopes + (fr.scope,)
        fid = '%s:%s:%d:%s' % (fr.mod, name, getattr(node, 'lineno', 0), '/'.join(scopes))
        f = Func(fid, name, node, fr.mod, scopes, clsname, defaults, kwd, kind)
        v = mk('func', fid)
        self.funcs[v] = f
        return v

    def s_ClassDef(self, s, st, fr):
        outer = ''
        if fr.scope.startswith('c:'):
            outer = fr.scope.split(':', 2)[2] + '.'
        qual = outer + s.name
        clsT = mk('class', fr.mod + ':' + qual)
        bases = [self.ev(b, st, fr) for b in s.bases]
        self.classes[clsT] = Cls(qual, fr.mod, bases, s)
        scope = 'c:%s:%s' % (fr.mod, qual)
        # class bodies see the enclosing names while they run
        self.store_name(s.name, clsT, st, fr)
        sub_ = Frame(None, scope, fr.scopes if fr.scope.startswith(('m:', 'c:')) else fr.scopes + (fr.scope,),
                     fr.mod)
        self.frames.append(sub_)
        self.block(s.body, st, sub_)
        self.frames.pop()
        for k in [k for k in st.cells if k[0] == 'V' and k[1] == scope]:
            st.cells[('A', clsT, k[2])] = st.cells[k]
        for d in s.decorator_list:
            dn = ast.unparse(d)
            if 'dataclass' in dn:
                st.cells[('A', clsT, '__dataclass__')] = C(tuple(
                    n.target.id for n in s.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)))

    # ---- with

    def s_With(self, s, st, fr):
        self.with_items(list(s.items), s.body, st, fr, s)

    def with_items(self, items, body, st, fr, node):
        if not items:
            self.block(body, st, fr)
            return
        it = items[0]
        cm = self.ev(it.context_expr, st, fr)
        if st.dead:
            return
        if cm.op == 'suppress':
            names = [self.exc_name(x) for x in cm.args]
            h = ast.ExceptHandler(type=None, name=None, body=[])
            h.lineno = node.lineno
            self.try_generic(lambda s_: self.with_items(items[1:], body, s_, fr, node), [(h, names)], None, st, fr, node)
            return
        ent = self.enter(cm, st, node, fr)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ent, st, fr)
        self.guarded(st, fr,
                     lambda s_: self.with_items(items[1:], body, s_, fr, node),
                     lambda s_, exc: self.exit_(cm, s_, node, exc, fr))

    def enter(self, cm, st, node, fr):
        if cm.op == 'ite':
            return self.on_alts(cm, st, lambda x, s: self.enter(x, s, node, fr))
        if cm.op == 'nullctx':
            return cm.args[0]
        if cm.op == 'closing':
            return cm.args[0]
        k = self.kind.get(cm)
        if k == 'conn':
            self.emit(st, 'tx_begin', node, cm)
            return cm
        if k in ('exitstack', 'file', 'bytesio'):
            return cm
        m = self.find_method(cm, '__enter__', st)
        if m is not None:
            return self.call(m, [], {}, node, st, fr)
        if cm.op == 'gencm':
            return cm.args[0]
        return cm

    def exit_(self, cm, st, node, exc, fr):
        if cm.op == 'ite':
            self.on_alts(cm, st, lambda x, s: self.exit_(x, s, node, exc, fr))
            return
        if cm.op == 'nullctx':
            return
        if cm.op == 'closing':
            self.method(cm.args[0], 'close', [], {}, node, st, fr)
            return
        k = self.kind.get(cm)
        if k == 'file':
            self.close(cm, st, node)
        elif k == 'conn':
            self.emit(st, 'rollback' if exc else 'commit', node, cm)
        elif k == 'exitstack':
            for p in reversed(st.cells.get(('S', cm), ())):
                if p[0] == 'item':
                    if p[1].op == 'cb':
                        self.call(p[1].args[0], [], {}, node, st, fr)
                    else:
                        self.exit_(p[1], st, node, exc, fr)
                elif p[0] == 'cond':
                    for q in p[2] + p[3]:
                        if q[0] == 'item' and q[1].op != 'cb':
                            self.exit_(q[1], st, node, exc, fr)
        else:
            m = self.find_method(cm, '__exit__', st)
            if m is not None:
                self.call(m, [NONE, NONE, NONE], {}, node, st, fr)
            elif cm.op in ('sym', 'call', 'attr', 'meth'):
                self.emit(st, 'exit', node, cm)

    def close(self, h, st, node):
        st.cells[('X', h, 'closed')] = TRUE
        self.emit(st, 'close', node, h)

    # ---- try

    def guarded(self, st, fr, body, final):
        """ run body; run final(state, exceptional) on every way out """
        sink = []
        self.sinks.append(sink)
        rets, fr.returns = fr.returns, []
        lc = None
        if fr.loopctl:
            lc = fr.loopctl[-1]
            fr.loopctl[-1] = ([], [])
        body(st)
        self.sinks.pop()
        myrets, fr.returns = fr.returns, rets
        for pc, cells, v in myrets:
            s = State(dict(cells), pc)
            final(s, False)
            if not s.dead:
                fr.returns.append((s.pc, s.cells, v))
        if lc is not None:
            mine = fr.loopctl[-1]
            fr.loopctl[-1] = lc
            for i in (0, 1):
                for pc, cells in mine[i]:
                    s = State(dict(cells), pc)
                    final(s, False)
                    if not s.dead:
                        lc[i].append((s.pc, s.cells))
        if sink:
            # one exceptional exit per distinct heap
            cache = {}
            self.silent += 1
            first = True
            for ev in sink:
                key = id(ev[3])
                if key not in cache:
                    s = State(dict(ev[3]), ev[2])
                    if first:
                        self.silent -= 1
                        final(s, True)
                        self.silent += 1
                        first = False
                    else:
                        final(s, True)
                    cache[key] = s
                s = cache[key]
                if not s.dead:
                    self.sinks[-1].append(ev[:3] + (s.cells,) + ev[4:])
            self.silent -= 1
        if not st.dead:
            final(st, False)

    def s_Try(self, s, st, fr):
        if s.finalbody:
            self.guarded(st, fr, lambda s_: self.try_core(s, s_, fr),
                         lambda s_, exc: self.block(s.finalbody, s_, fr))
        else:
            self.try_core(s, st, fr)

    s_TryStar = s_Try

    def try_core(self, s, st, fr):
        if not s.handlers:
            self.block(s.body, st, fr)
            if not st.dead:
                self.block(s.orelse, st, fr)
            return
        hs = []
        for h in s.handlers:
            hs.append((h, self.handler_types(h, st.fork(), fr)))
        self.try_generic(lambda s_: self.block(s.body, s_, fr), hs,
                         lambda s_: self.block(s.orelse, s_, fr), st, fr, s)

    def try_generic(self, body, hs, orelse, st, fr, s):
        pc0 = st.pc
        cells0 = dict(st.cells)
        sink = []
        self.sinks.append(sink)
        body(st)
        self.sinks.pop()
        buckets = {i: [] for i in range(len(hs))}
        for ev in sink:
            for i, (h, types) in enumerate(hs):
                if types is None or any(exc_isa(ev[1], t) for t in types) or \
                        (ev[1] == '<reraise>'):
                    buckets[i].append(ev)
                    break
            else:
                self.sinks[-1].append(ev)
        alts = []
        if not st.dead:
            if orelse is not None:
                orelse(st)
            if not st.dead:
                alts.append((st.pc, st.cells))
        tid = self.subctx(('try', self.nodeid(s)))
        for i, (h, types) in enumerate(hs):
            evs = buckets[i]
            if self.concrete:
                for ev in evs:
                    if ev[0] != 'explicit':
                        continue
                    hst = State(dict(ev[3]), ev[2])
                    if h.name:
                        self.store_name(h.name, mk('exc', 't%d.%d' % (tid, i)), hst, fr)
                    nsink = []
                    self.sinks.append(nsink)
                    self.block(h.body, hst, fr)
                    self.sinks.pop()
                    for e1 in nsink:
                        self.sinks[-1].append(ev[:2] + e1[2:] if e1[1] == '<reraise>' else e1)
                    if not hst.dead:
                        alts.append((hst.pc, hst.cells))
                continue
            if not evs:
                # nothing modelled raises this; the handler still may run (library errors)
                hcells = cells0
                if not st.dead:
                    hcells = self.havoc_diff(cells0, st.cells, tid)
            else:
                hcells = evs[0][3]
                for ev in evs[1:]:
                    if ev[3] is not hcells:
                        hcells = self.havoc_diff(hcells, ev[3], tid)
            rc = mk('raised', 't%d.%d' % (tid, i), tuple(sorted({e[1] for e in evs}))
                    if evs else ('?',))
            hst = State(dict(hcells), pc0 + ((rc, True),))
            if h.name:
                self.store_name(h.name, mk('exc', 't%d.%d' % (tid, i)), hst, fr)
            self.emit(hst, 'handler', h, C(tuple(types) if types is not None else ('BaseException',)),
                      C(tuple(sorted({e[1] for e in evs}))))
            nsink = []
            self.sinks.append(nsink)
            self.block(h.body, hst, fr)
            self.sinks.pop()
            for ev in nsink:
                if ev[1] == '<reraise>':
                    for e0 in evs or [('may', '?', ev[2], ev[3], ev[4], ev[5], None, ev[7], None)]:
                        self.sinks[-1].append(e0[:2] + ev[2:])
                else:
                    self.sinks[-1].append(ev)
            if not hst.dead:
                alts.append((hst.pc, hst.cells))
        # join with handlers first so the normal path is the default arm
        if len(alts) == 1 and self.concrete:
            st.dead = False
            st.cells, st.pc = alts[0][1], alts[0][0]
            return
        self.merge_states(st, pc0, alts[1:] + alts[:1] if len(alts) > 1 and alts[0][1] is st.cells else alts)
        if not st.dead and len(alts) > 1:
            st.pc = pc0 if all(c.op != 'raised' for c, b in alts[0][0][len(pc0):]) \
                and len(alts[0][0]) == len(pc0) else st.pc

    def havoc_diff(self, a, b, tid):
        out = dict(a)
        for k, v in b.items():
            w = a.get(k)
            if w is v or w is None:
                if w is None:
                    out[k] = v
                continue
            if isinstance(v, T) and isinstance(w, T):
                out[k] = ite(mk('raised', 'at%d' % tid, ()), v, w)
            elif isinstance(v, tuple):
                out[k] = self.merge_val(mk('raised', 'at%d' % tid, ()), v, w)
        return out

    def handler_types(self, h, st, fr):
        if h.type is None:
            return None
        v = self.ev(h.type, st, fr)
        vs = v.args if v.op == 'tuple' else (v,)
        return [self.exc_name(x) for x in vs]

    # ---- loops

    def s_For(self, s, st, fr):
        if isinstance(s.iter, ast.GeneratorExp) and len(s.iter.generators) == 1 and not s.iter.generators[0].is_async:
            return self.for_generator(s, s.iter, st, fr)
        it = self.ev(s.iter, st, fr)
        if st.dead:
            return
        self.for_over(it, lambda v, s_: self.assign(s.target, v, s_, fr),
                      lambda s_: self.block(s.body, s_, fr), st, fr, s)
        if s.orelse and not st.dead:
            self.block(s.orelse, st, fr)

    def for_generator(self, s, e, st, fr):
        """ a loop over a generator expression: the expression is evaluated as the loop goes """
        g = e.generators[0]
        it = self.ev(g.iter, st, fr)
        if st.dead:
            return
        sub_ = Frame(fr.func or Func('<comp>', '<comp>', e, fr.mod, (), None, [], {}, 'func'), 'k%d' % self.subctx(('comp', self.nodeid(e))),
                     fr.scopes + (fr.scope,), fr.mod, fr.selfval, fr.clsT)
        sub_.locals = set()
        sub_.returns = []

        def body(s2):
            for c in g.ifs:
                cc = self.cond(c, s2, sub_)
                if is_const(cc):
                    if not cval(cc):
                        fr.loopctl[-1][1].append((s2.pc, s2.cells))
                        s2.dead = True
                        return
                    continue
                fr.loopctl[-1][1].append((s2.pc + ((cc, False),), dict(s2.cells)))
                s2.pc = s2.pc + ((cc, True),)
            v = self.ev(e.elt, s2, sub_)
            if s2.dead:
                return
            self.assign(s.target, v, s2, fr)
            self.block(s.body, s2, fr)
        self.for_over(it, lambda v, s2: self.assign(g.target, v, s2, sub_), body, st, fr, s)
        if s.orelse and not st.dead:
            self.block(s.orelse, st, fr)

    s_AsyncFor = s_For

    def for_over(self, it, bind, body, st, fr, node):
        """ iterate; `it` any value """
        it = self.iter_norm(it, st, node)
        if it is NONE and self.fails(st, 'TypeError', node):
            return
        if it.op == 'ite':
            c = self.simp(st, it.args[0])
            if is_const(c):
                return self.for_over(it.args[1] if cval(c) else it.args[2], bind, body, st, fr, node)
            pc0 = st.pc
            a, b = st.fork((c, True)), st.fork((c, False))
            self.for_over(it.args[1], bind, body, a, fr, node)
            self.for_over(it.args[2], bind, body, b, fr, node)
            self.merge_states(st, pc0, [(x.pc, x.cells) for x in (a, b) if not x.dead])
            return
        pc0 = st.pc
        breaks = []
        if self.concrete and it.op in ('itercall', 'count'):
            for k in range(3000):
                if st.dead:
                    break
                octx, self.ctx = self.ctx, self.subctx(('iunroll', self.nodeid(node), k))
                if it.op == 'count':
                    self.one_iter(add(it.args[0], mul(it.args[1], C(k))) if len(it.args) > 1 else add(it.args[0], C(k)), bind, body, st, fr, breaks)
                    self.ctx = octx
                    continue
                v = self.call(it.args[0], [], {}, node, st, fr)
                c = self.simp(st, eq(v, it.args[1]))
                if is_const(c) and not cval(c):
                    self.one_iter(v, bind, body, st, fr, breaks)
                self.ctx = octx
                if not is_const(c):
                    self.generic_loop(None, None, bind, lambda s_: None, st, fr, node, breaks, ('iter',), cond=lambda s_: c)
                if not is_const(c) or cval(c):
                    break
        elif it.op == 'itercall':
            box = []

            def more(s_):
                box[:] = [self.call(it.args[0], [], {}, node, s_, fr)]
                return lnot(self.simp(s_, eq(box[0], it.args[1])))

            def step(s_):
                bind(box[0], s_)
                body(s_)
            self.generic_loop(None, None, bind, step, st, fr, node, breaks, ('iter',), cond=more)
        else:
            self.run_parts(self.iter_parts(it, st), bind, body, st, fr, node, breaks, ())
        if breaks:
            alts = list(breaks)
            if not st.dead:
                alts.append((st.pc, st.cells))
            self.merge_states(st, pc0, alts)

    def iter_norm(self, it, st, node):
        return it

    def iter_parts(self, it, st):
        """ sequence parts of an iterable value """
        if it.op == 'tuple' or it.op == 'vec':
            return tuple(('item', x) for x in it.args)
        if is_const(it):
            v = cval(it)
            if isinstance(v, (tuple, list)):
                return tuple(('item', C(x)) for x in v)
            if isinstance(v, str) and len(v) <= 16:
                return tuple(('item', C(x)) for x in v)
            if isinstance(v, bytes) and len(v) <= 64:
                return tuple(('item', C(x)) for x in v)
        if it.op == 'ref':
            k = self.kind.get(it)
            if k == 'list' or k == 'set':
                if k == 'set':
                    for p in st.cells.get(('S', it), ()):
                        if p[0] == 'each':
                            self.note_merge(p)
                return st.cells.get(('S', it), ())
            if k == 'bytearray':
                return (('spread', self.freeze(st, it)),)
            if k == 'dict':
                return self.dict_parts(st.cells.get(('D', it), ()), 'keys', it)
            if k == 'cursor':
                return (('spread', mk('rows', st.cells.get(('X', it, 'last'), mk('top', 'noquery')))),)
        if it.op in ('keys', 'items', 'values') and it.args[0].op == 'ref':
            return self.dict_parts(st.cells.get(('D', it.args[0]), ()), it.op, it.args[0])
        if it.op in ('keys',):
            return (('spread', it.args[0]),)
        if it.op == 'range':
            lo, hi, step = it.args
            if is_num(lo) and is_num(hi) and is_num(step):
                r = range(cval(lo), cval(hi), cval(step))
                if len(r) <= (3000 if self.concrete else 130):
                    return tuple(('item', C(i)) for i in r)
        if it.op == 'enumerate':
            src, start = it.args
            parts = self.iter_parts(src, st)
            if all(p[0] == 'item' for p in parts):
                return tuple(('item', mk('tuple', add(start, C(i)), p[1])) for i, p in enumerate(parts))
        if it.op == 'zip':
            cols = [self.iter_parts(x, st) if x.op != 'count' else None for x in it.args]
            known = [len(c) for c in cols if c is not None]
            if known and None in cols:
                cols = [c if c is not None else tuple(('item', add(x.args[0], C(k)) if len(x.args) == 1 else add(x.args[0], mul(x.args[1], C(k))))
                                                      for k in range(min(known))) for c, x in zip(cols, it.args)]
            if None not in cols and all(all(p[0] == 'item' for p in c) for c in cols):
                return tuple(('item', mk('tuple', *[p[1] for p in row])) for row in zip(*cols))
        if it.op == 'sorted':
            src, key, rev = it.args
            if src.op == 'ref' and self.kind.get(src) in ('list', 'set', 'dict'):
                parts = self.iter_parts(src, st)
                if all(p[0] == 'item' for p in parts) and len(parts) <= 1:
                    return parts
                if not (len(parts) == 1 and parts[0][0] == 'spread'):
                    return (('perm', it, parts),)
                return (('spread', mk('sorted', parts[0][1], key, rev)),)
            if src.op == 'list':
                return (('perm', it, self.unfreeze_parts(src)),)
        if it.op == 'list':
            return self.unfreeze_parts(it)
        if it.op == 'reversed':
            parts = self.iter_parts(it.args[0], st)
            if all(p[0] == 'item' for p in parts):
                return tuple(reversed(parts))
        if it.op == 'chain':
            out = ()
            for x in it.args:
                out += self.iter_parts(x, st)
            return out
        return (('spread', it),)

    def note_merge(self, p):
        ks = [q[1] for q in p[3] if q[0] == 'item']
        if len(ks) == 1 and len(p[3]) == 1:
            self.merged.setdefault(p[1], ks[0])

    def dict_parts(self, items, what, ref):
        out = []
        for p in items:
            if p[0] == 'item':
                v = {'keys': p[1], 'values': p[2], 'items': mk('tuple', p[1], p[2])}[what]
                out.append(('item', v))
            elif p[0] == 'each':
                self.note_merge(p)
                out.append(('each', p[1], p[2], self.dict_parts(p[3], what, ref)))
            elif p[0] == 'cond':
                out.append(('cond', p[1], self.dict_parts(p[2], what, ref), self.dict_parts(p[3], what, ref)))
            elif p[0] == 'spread':
                out.append(('spread', mk(what, p[1])))
            else:
                out.append(('spread', mk(what, ref)))
        return tuple(out)

    def unfreeze_parts(self, lst):
        out = []
        for a in lst.args:
            out.append(self._unfz(a))
        return tuple(out)

    def _unfz(self, a):
        if a.op == 'p_item':
            return ('item', a.args[0])
        if a.op == 'p_each':
            return ('each', a.args[0], a.args[1], tuple(self._unfz(x) for x in a.args[2]))
        if a.op == 'p_cond':
            return ('cond', a.args[0], tuple(self._unfz(x) for x in a.args[1]),
                    tuple(self._unfz(x) for x in a.args[2]))
        if a.op == 'p_perm':
            return ('perm', a.args[0], tuple(self._unfz(x) for x in a.args[1]))
        return ('spread', a.args[0] if a.op == 'p_spread' else a)

    def run_parts(self, parts, bind, body, st, fr, node, breaks, tag):
        for i, p in enumerate(parts):
            if st.dead:
                return
            t = tag + (i,)
            if p[0] == 'item':
                octx, self.ctx = self.ctx, self.subctx(('unroll', self.nodeid(node), t))
                self.one_iter(p[1], bind, body, st, fr, breaks)
                self.ctx = octx
            elif p[0] == 'spread':
                self.generic_loop(p[1], None, bind, body, st, fr, node, breaks, t)
            elif p[0] == 'each':
                self.generic_loop(p[2], p, bind, body, st, fr, node, breaks, t)
            elif p[0] == 'perm':
                self.generic_loop(p[1], p, bind, body, st, fr, node, breaks, t)
            elif p[0] == 'cond':
                c = self.simp(st, p[1])
                if is_const(c):
                    self.run_parts(p[2] if cval(c) else p[3], bind, body, st, fr, node, breaks, t)
                else:
                    pc0 = st.pc
                    a, b = st.fork((c, True)), st.fork((c, False))
                    self.run_parts(p[2], bind, body, a, fr, node, breaks, t + ('t',))
                    self.run_parts(p[3], bind, body, b, fr, node, breaks, t + ('f',))
                    self.merge_states(st, pc0, [(x.pc, x.cells) for x in (a, b) if not x.dead])
            else:
                self.generic_loop(mk('sym', 'havoc'), None, bind, body, st, fr, node, breaks, t)

    def one_iter(self, v, bind, body, st, fr, breaks):
        ctl = ([], [])
        fr.loopctl.append(ctl)
        pc0 = st.pc
        bind(v, st)
        body(st)
        fr.loopctl.pop()
        breaks.extend(ctl[0])
        alts = list(ctl[1])
        if not st.dead:
            alts.append((st.pc, st.cells))
        if ctl[1]:
            self.merge_states(st, pc0, alts)

    def full_reads(self, back):
        """ lengths of what was read that are the requested ones in all of these paths """
        full = None
        for pc, cells in back:
            f = self.facts(pc)
            here = {}
            for k, v in cells.items():
                if k[0] == 'P' and isinstance(v, T):
                    for x in walk(v):
                        if x.op == 'len' and x.args[0].op == 'read' and (
                                x.args[0] in self.unpacked or f.get(lt(x, x.args[0].args[2])) is False or
                                f.get(eq(x, x.args[0].args[2])) is True):
                            here[x] = x.args[0].args[2]
            full = here if full is None else {x: n for x, n in full.items() if x in here}
        return full or {}

    def generic_loop(self, it, part, bind, body, st, fr, node, breaks, tag, cond=None):
        """ analyse a generic iteration.  part: None | each | perm """
        octx, self.ctx = self.ctx, self.subctx(('loop', self.nodeid(node), tag))
        lid = 'L%d' % self.ctx
        if part is not None and part[0] == 'each' and part[1] in self.merged:
            self.merged[lid] = self.merged[part[1]]
        oloops = self.loops
        desc = it if it is not None else mk('while', lid)
        self.loops = self.loops + ((lid, desc, node),)
        pc0 = st.pc
        cells0 = dict(st.cells)

        def iterate(s):
            """ one generic iteration from state s; returns end alternatives """
            ctl = ([], [])
            fr.loopctl.append(ctl)
            exits = []
            if cond is not None:
                c = cond(s)
                if is_const(c) and not cval(c):
                    exits.append((s.pc, dict(s.cells)))
                    s.dead = True
                elif not is_const(c):
                    exits.append((s.pc + ((c, False),), dict(s.cells)))
                    s.pc = s.pc + ((c, True),)
            if not s.dead:
                if part is None:
                    if it is not None:
                        bind(self.generic_elem(it, lid, s), s)
                    body(s)
                else:
                    sub_breaks = []
                    self.run_parts(part[3] if part[0] == 'each' else part[2], bind, body, s, fr, node,
                                   sub_breaks, tag + ('in',))
                    ctl[0].extend(sub_breaks)
            fr.loopctl.pop()
            back = list(ctl[1])
            if not s.dead:
                back.append((s.pc, s.cells))
            return back, ctl[0], exits

        head = dict(st.cells)
        gen = Generaliser(self, lid)
        for _ in range(8):
            self.silent += 1
            self.sinks.append([])
            rets, fr.returns = fr.returns, []
            s = State(dict(head), pc0)
            back, brk, exits = iterate(s)
            fr.returns = rets
            self.sinks.pop()
            self.silent -= 1
            if not back:
                break
            e = State({}, pc0)
            self.merge_states(e, pc0, back)
            gen.full = self.full_reads(back)
            new = gen.generalise(head, e.cells)
            if new is None:
                break
            head = new
        # final, recorded pass
        s = State(dict(head), pc0)
        nrets = len(fr.returns)
        back, brk, exits = iterate(s)
        end = None
        if back:
            e = State({}, pc0)
            self.merge_states(e, pc0, back)
            end = e.cells
        self.loopinfo[lid] = dict(node=node, head=head, end=end, init=dict(st.cells), pc=pc0, iter=desc,
                                  mod=fr.mod, frames=self._chain(), back=back, brk=brk, exits=exits, rets=fr.returns[nrets:],
                                  loops=self.loops, final=not self.silent)
        self.loops = oloops
        self.ctx = octx
        # exit states
        alts = []
        for j, (pc, cells) in enumerate(brk):
            before = tuple((mk('brk', lid, i), False) for i in range(j))
            # the last way out of an endless loop is taken when the others are not
            last = it is None and not exits and j == len(brk) - 1
            breaks.append((pc0 + (before if last else before + ((mk('brk', lid, j), True),)
                                  if len(brk) + len(exits) > 1 or cond is None and it is not None else ()),
                           self.close_loop(cells, end, head, lid, desc)))
        if it is None:
            for j, (pc, cells) in enumerate(exits):
                alts.append((pc0 + ((mk('brk', lid, 'x%d' % j), True),) if breaks else pc0,
                             self.close_loop(cells, end, head, lid, desc)))
            if not alts:
                st.dead = True
            else:
                st.pc = pc0
                st.cells = alts[0][1]
                st.dead = False
        else:
            out = dict(head)
            if end is not None:
                for k, v in end.items():
                    if k not in out:
                        out[k] = mk('last', lid, v) if isinstance(v, T) and v.op != 'ref' else v
                    elif not breaks and isinstance(v, T) and v.op in ('strcat', 'bytes'):
                        a = accumulated(head[k], v, lid, desc)
                        if a is not None:
                            out[k] = a
            st.cells = self.close_loop(out, end, head, lid, desc)
            st.pc = pc0
            st.dead = False

    def close_loop(self, cells, end, head, lid, desc):
        """ replace accumulation markers of this loop by `each` parts """
        out = dict(cells)
        for k, v in cells.items():
            if k[0] in ('S', 'D') and isinstance(v, tuple) and (('acc', lid) in v):
                i = v.index(('acc', lid))
                extra_ = ()
                if end is not None and k in end and isinstance(end[k], tuple) and ('acc', lid) in end[k]:
                    j = end[k].index(('acc', lid))
                    extra_ = end[k][j + 1:]
                rest = v[i + 1:]
                mid = (('each', lid, desc, extra_),) if extra_ else ()
                out[k] = v[:i] + mid + rest
        return out

    def generic_elem(self, it, lid, st):
        v = self._generic_elem(it, lid, st)
        if self.value_hook is not None and v.op == 'elem':
            v = self.value_hook(v) or v
        return v

    def _generic_elem(self, it, lid, st):
        if it.op == 'range':
            lo, hi, step = it.args
            if is_num(step) and cval(step) == 1:
                i = mk('idx', lid, hi if is_num(lo) and cval(lo) == 0 else mk('range', lo, hi, step))
                return add(lo, i)
            return mk('elem', lid, it)
        if it.op == 'enumerate':
            i = mk('idx', lid, it.args[0])
            return mk('tuple', add(it.args[1], i), self.generic_elem(it.args[0], lid, st))
        if it.op == 'zip':
            return mk('tuple', *[self.generic_elem(x, lid, st) for x in it.args])
        if it.op == 'items':
            d = it.args[0]
            return mk('tuple', mk('elem', lid, mk('keys', d)), mk('elem', lid, mk('values', d)))
        if it.op in ('sorted', 'reversed') and it.args[0].op in ('range', 'enumerate', 'zip', 'items', 'sorted'):
            return self.generic_elem(it.args[0], lid, st)
        if it.op == 'ref':
            if self.kind.get(it) == 'dict':
                return mk('elem', lid, mk('keys', it))
        return mk('elem', lid, it)

    def s_While(self, s, st, fr):
        pc0 = st.pc

        def cond(s_):
            return self.cond(s.test, s_, fr)
        # bounded concrete unrolling (e.g. pop loops over known lists)
        breaks = []
        cond_false = False
        for k in range(3000 if self.concrete else 130):
            if st.dead:
                break
            probe = st.fork()
            self.silent += 1
            self.sinks.append([])
            c = cond(probe)
            self.sinks.pop()
            self.silent -= 1
            if not is_const(c) or _is_true_const(s.test) and not self.concrete:
                break
            if not cval(c):
                cond_false = True
                break
            octx, self.ctx = self.ctx, self.subctx(('wunroll', self.nodeid(s), k))
            self.one_iter(NONE, lambda v, s_: None, lambda s_: self.block(s.body, s_, fr), st, fr, breaks)
            self.ctx = octx
        if not st.dead and not (self.concrete and cond_false):
            self.generic_loop(None, None, None, lambda s_: self.block(s.body, s_, fr), st, fr, s, breaks, ('w',),
                              cond=None if _is_true_const(s.test) else cond)
        if breaks:
            alts = list(breaks)
            if not st.dead:
                alts.append((st.pc, st.cells))
            self.merge_states(st, pc0, alts)

    def s_Match(self, s, st, fr):
        subj = self.ev(s.subject, st, fr)
        pc0 = st.pc
        alts = []
        cur = st.fork()
        for case in s.cases:
            if cur.dead:
                break
            c = self.simp(cur, self.pattern(case.pattern, subj, cur, fr))
            taken = cur.fork((c, True)) if not is_const(c) else cur.fork()
            if is_const(c) and not cval(c):
                continue
            if case.guard is not None:
                g = self.cond(case.guard, taken, fr)
                c = land(c, g)
                taken = cur.fork((c, True))
            self.bind_pattern(case.pattern, subj, taken, fr)
            self.block(case.body, taken, fr)
            if not taken.dead:
                alts.append((taken.pc, taken.cells))
            if is_const(c) and cval(c):
                cur.dead = True
            else:
                cur.pc = cur.pc + ((c, False),)
        if not cur.dead:
            alts.append((cur.pc, cur.cells))
        self.merge_states(st, pc0, alts)

    def pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchValue):
            return eq(v, self.ev(p.value, st, fr))
        if isinstance(p, ast.MatchSingleton):
            return mk('is', v, C(p.value)) if not is_const(v) else C(cval(v) is p.value)
        if isinstance(p, ast.MatchOr):
            return lor(*[self.pattern(x, v, st, fr) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            return TRUE if p.pattern is None else self.pattern(p.pattern, v, st, fr)
        return mk('matches', v, ast.dump(p))

    def bind_pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchAs) and p.name:
            self.store_name(p.name, v, st, fr)

    # ------------------------------------------------------------ expressions

    def ev(self, e, st, fr):
        if st.dead:
            return NONE
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unmodelled.append((type(e).__name__, fr.mod, e.lineno))
            return mk('top', 'expr:%s:%d' % (type(e).__name__, e.lineno))
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return C(e.value)

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr, e)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Tuple(self, e, st, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                parts = self.iter_parts(v, st)
                if all(p[0] == 'item' for p in parts):
                    out.extend(p[1] for p in parts)
                else:
                    out.append(mk('star', self.freeze(st, v)))
            else:
                out.append(self.ev(x, st, fr))
        if out and all(is_const(x) for x in out):
            return mk('tuple', *out)
        return mk('tuple', *out)

    def e_List(self, e, st, fr):
        r = self.new_ref('list', e)
        parts = ()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts += self.to_parts(self.ev(x.value, st, fr), st)
            else:
                parts += (('item', self.ev(x, st, fr)),)
        st.cells[('S', r)] = parts
        return r

    def e_Set(self, e, st, fr):
        r = self.new_ref('set', e)
        st.cells[('S', r)] = tuple(('item', self.ev(x, st, fr)) for x in e.elts)
        return r

    def e_Dict(self, e, st, fr):
        r = self.new_ref('dict', e)
        items = ()
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st, fr)
            if k is None:
                if vv.op == 'ref' and ('D', vv) in st.cells:
                    for it in st.cells[('D', vv)]:
                        items = self.dict_put(items, it[1], it[2]) if it[0] == 'item' else items + (it,)
                else:
                    items += (('spread', self.freeze(st, vv)),)
            else:
                items = self.dict_put(items, self.ev(k, st, fr), vv)
        st.cells[('D', r)] = items
        return r

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.ev(v.value, st, fr)
                spec = ''
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec, st, fr)
                    spec = cval(sp) if is_const(sp) else '?'
                if v.conversion == 115:
                    x = tostr(x)
                if v.conversion == 114:
                    parts.append(mk('fmt', x, '!r'))
                else:
                    parts.append(self.fmt(x, spec, st, v))
        return strcat(parts)

    def fmt(self, x, spec, st, node):
        if is_const(x) and spec not in ('', ':', '!s', '?'):
            try:
                format(cval(x), spec)
            except ValueError:
                if self.fails(st, 'ValueError', node):
                    return C('')
            except TypeError:
                pass
        if spec in ('', 's', 'd', ':', '!s'):
            return tostr(x)
        if is_const(x):
            try:
                return C(format(cval(x), spec))
            except (ValueError, TypeError):
                pass
        return mk('fmt', x, spec)

    def e_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], st, fr)
        for nxt in e.values[1:]:
            if st.dead:
                return v
            c = self.simp(st, self.truth(v, st))
            if is_const(c):
                if bool(cval(c)) == is_and:
                    v = self.ev(nxt, st, fr)
                    continue
                return v
            pc0 = st.pc
            a = st.fork((c, is_and))
            w = self.ev(nxt, a, fr)
            b = st.fork((c, not is_and))
            if a.dead:
                st.become(b)
                return v
            self.merge_states(st, pc0, [(a.pc, a.cells), (b.pc, b.cells)])
            cw = self.truth(w, st) if w.op in BOOL_OPS or (is_const(w) and isinstance(cval(w), bool)) else None
            if cw is not None and (v.op in BOOL_OPS):
                v = land(c, cw) if is_and else lor(c, cw)
            else:
                v = mk('sel', 'and' if is_and else 'or', v, w) if False else \
                    (ite(c, w, v) if is_and else ite(c, v, w))
        return v

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return lnot(self.simp(st, self.truth(v, st)))
        if isinstance(e.op, ast.USub):
            if v.op == 'vec':
                return mk('vec', *[neg(x) for x in v.args])
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if v.op == 'vec':
                return vec.invert(v)
            if is_num(v):
                return C(~cval(v))
            return mk('invert', v)
        return v

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(e.op, a, b, st, e)

    def byteslike(self, v, st):
        return (is_const(v) and isinstance(cval(v), (bytes, bytearray))) or v.op in (
            'bytes', 'pack', 'enc', 'read') or (v.op == 'ref' and self.kind.get(v) == 'bytearray') or (
                v.op == 'slice' and self.byteslike(v.args[0], st)) or (
                    v.op == 'ite' and self.byteslike(v.args[1], st) and self.byteslike(v.args[2], st))

    def strlike(self, v):
        return (is_const(v) and isinstance(cval(v), str)) or v.op in ('strcat', 'str', 'fmt', 'utf8', 'join') or \
            (v.op == 'ite' and self.strlike(v.args[1]) and self.strlike(v.args[2]))

    def binop(self, op, a, b, st, node):
        n = type(op).__name__
        if a.op == 'vec' or b.op == 'vec':
            return vec.binop(self, op, a, b, st, node)
        if n == 'Div' and (a.op == 'pathobj' or b.op == 'pathobj'):
            from . import models
            return mk('pathobj', models.ext_call(self, 'os.path.join', [models.unpath(a), models.unpath(b)], {}, node, st, self.frames[-1]))
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Div': lambda: x / y,
                     'FloorDiv': lambda: x // y, 'Mod': lambda: x % y, 'Pow': lambda: x ** y,
                     'LShift': lambda: x << y, 'RShift': lambda: x >> y, 'BitAnd': lambda: x & y,
                     'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y}[n]()
                if isinstance(r, (str, bytes)) and len(r) > 100000:
                    return mk('top', 'big')
                return C(r)
            except Exception as exc:   # pylint: disable=broad-exception-caught
                if isinstance(exc, TypeError) and self.fails(st, 'TypeError', node):
                    return NONE
                return mk('top', 'constfold')
        if (a is NONE or b is NONE or n in ('Sub', 'Div', 'FloorDiv', 'LShift', 'RShift', 'BitAnd', 'BitXor', 'MatMult', 'Pow') and
                (self.strlike(a) or self.strlike(b))) and not (n == 'Mod' and self.strlike(a)) and self.fails(st, 'TypeError', node):
            return NONE
        if n == 'Add':
            if self.strlike(a) or self.strlike(b):
                return strcat([a, b])
            if self.byteslike(a, st) or self.byteslike(b, st):
                return bytescat([self.bytes_of(a, st), self.bytes_of(b, st)])
            ka, kb = self.kind.get(a), self.kind.get(b)
            if ka == 'list' or kb == 'list' or a.op == 'list' or b.op == 'list':
                r = self.new_ref('list', node, 'cat')
                st.cells[('S', r)] = self.to_parts(a, st) + self.to_parts(b, st)
                return r
            if a.op == 'tuple' and b.op == 'tuple':
                return mk('tuple', *(a.args + b.args))
            if numeric_kind(a) or numeric_kind(b) or (is_const(a) or is_const(b)):
                return add(a, b)
            return mk('plus', a, b) if not (a.op in ('sub', 'attr', 'lv', 'elem') or
                                            b.op in ('sub', 'attr', 'lv', 'elem')) else mk('plus', a, b)
        if n == 'Sub':
            return sub(a, b)
        if n == 'Mult':
            for x, y in ((a, b), (b, a)):
                if is_const(x) and isinstance(cval(x), (str, bytes)):
                    return mk('repeat', x, y)
                if x.op == 'ref' and self.kind.get(x) == 'list':
                    r = self.new_ref('list', node, 'rep')
                    if is_num(y) and 0 <= cval(y) <= 64:
                        st.cells[('S', r)] = st.cells.get(('S', x), ()) * cval(y)
                    else:
                        st.cells[('S', r)] = (('spread', mk('repeat', self.freeze(st, x), y)),)
                    return r
            return mul(a, b)
        if n == 'Div':
            return div(a, b)
        if n == 'Mod':
            if self.strlike(a):
                return self.percent(a, b, st)
            return mk('mod', a, b)
        if n == 'BitOr' and (self.kind.get(a) in ('set', 'dict') or self.kind.get(b) in ('set', 'dict')):
            return mk('union', self.freeze(st, a), self.freeze(st, b))
        if n == 'Pow' and is_num(b) and cval(b) == 2:
            return mul(a, a)
        nm = {'FloorDiv': 'floordiv', 'Pow': 'pow', 'LShift': 'lshift', 'RShift': 'rshift', 'BitAnd': 'bitand',
              'BitOr': 'bitor', 'BitXor': 'bitxor', 'MatMult': 'matmul'}[n]
        if nm in ('bitand', 'bitor', 'bitxor') and a.nid > b.nid:
            a, b = b, a
        if nm in ('lshift', 'rshift') and is_num(b) and cval(b) == 0:
            return a
        return mk(nm, a, b)

    def percent(self, a, b, st):
        if not is_const(a):
            return mk('str', mk('percent', a, b))
        fmt_ = cval(a)
        args = list(b.args) if b.op == 'tuple' else [b]
        parts, pos, k = [], 0, 0
        for m in re.finditer(r'%(?:%|([-+ #0]*\d*(?:\.\d+)?)([diouxXeEfFgGcrsa]))', fmt_):
            parts.append(C(fmt_[pos:m.start()]))
            pos = m.end()
            if m.group(0) == '%%':
                parts.append(C('%'))
                continue
            if k >= len(args):
                return mk('str', mk('percent', a, b))
            x = args[k]
            k += 1
            spec = m.group(1) + m.group(2)
            if spec in ('s', 'd', 'i'):
                parts.append(tostr(x))
            else:
                parts.append(mk('fmt', x, spec))
        parts.append(C(fmt_[pos:]))
        return strcat(parts)

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            res.append(self.compare(op, left, right, st, e, fr))
            left = right
        return self.simp(st, land(*res)) if len(res) > 1 or True else res[0]

    def compare(self, op, a, b, st, node, fr):
        n = type(op).__name__
        if a.op == 'ite' and is_const(b) and n in ('Is', 'IsNot', 'Eq', 'NotEq'):
            ca, cb = (self.compare(op, x, b, st, node, fr) for x in a.args[1:])
            return lor(land(a.args[0], ca), land(lnot(a.args[0]), cb))
        if n in ('Is', 'IsNot'):
            if is_const(a) and is_const(b):
                r = C(cval(a) is cval(b) or (cval(a) is not None and cval(b) is not None and cval(a) == cval(b)
                                             and type(cval(a)) is type(cval(b))))
            elif a is b:
                r = TRUE
            elif (b is NONE and self.nonnull(a, st)) or (a is NONE and self.nonnull(b, st)):
                r = FALSE
            else:
                x, y = (a, b) if a.nid < b.nid else (b, a)
                r = mk('is', x, y)
            return r if n == 'Is' else lnot(r)
        if n in ('In', 'NotIn'):
            r = self.in_(a, b, st)
            return r if n == 'In' else lnot(r)
        if (a.op == 'vec' or b.op == 'vec') and n in vec.CMP:
            return vec.compare(self, op, a, b, st, node, fr)
        if n in ('Eq', 'NotEq'):
            r = self.eq_(a, b, st, node, fr)
            return r if n == 'Eq' else lnot(r)
        if self.concrete and not (is_const(a) and is_const(b)):
            try:
                x, y = pyval(self.freeze(st, a)), pyval(self.freeze(st, b))
                return C({'Lt': x < y, 'Gt': x > y, 'LtE': x <= y, 'GtE': x >= y}[n])
            except (ValueError, TypeError, KeyError):
                pass
        if n == 'Lt':
            return lt(a, b)
        if n == 'Gt':
            return lt(b, a)
        if n == 'LtE':
            return lnot(lt(b, a))
        return lnot(lt(a, b))

    def eq_(self, a, b, st, node, fr):
        fa, fb = a, b
        if a is b and self.nan is not None and self.nan(a):
            return FALSE
        if a.op == 'ref' and self.kind.get(a) in ('list', 'dict', 'set', 'bytearray'):
            fa = self.freeze(st, a)
        if self.concrete and a.op == 'ref' and b.op == 'ref' and self.kind.get(a) in ('list', 'set') and self.kind.get(b) == self.kind.get(a):
            pa, pb = st.cells.get(('S', a), ()), st.cells.get(('S', b), ())
            if all(p[0] == 'item' and is_const(p[1]) for p in pa + pb):
                xs, ys = [cval(p[1]) for p in pa], [cval(p[1]) for p in pb]
                return C(xs == ys if self.kind.get(a) == 'list' else set(xs) == set(ys))
        if self.concrete and not (is_const(a) and is_const(b)) and {a.op, b.op} & {'ref', 'tuple', 'dict', 'list'}:
            try:
                return C(pyval(self.freeze(st, a, 9)) == pyval(self.freeze(st, b, 9)))
            except (ValueError, TypeError, KeyError):
                pass
        if b.op == 'ref' and self.kind.get(b) in ('list', 'dict', 'set', 'bytearray'):
            fb = self.freeze(st, b)
            if fb.op == 'list' and not fb.args:
                return lnot(truthy(fa))
            if fb.op == 'dict' and not fb.args:
                return lnot(truthy(fa))
        return eq(fa, fb)

    def nonnull(self, v, st):
        return v.op in ('ref', 'tuple', 'bytes', 'strcat', 'str', 'read', 'pack', 'func', 'class', 'bound', 'ext',
                        'dict', 'list', 'len', 'poly', 'slice', 'unpack', 'utf8', 'inst_exc', 'vec', 'rematch', 'repat', 'stub') or \
            (is_const(v) and cval(v) is not None) or v.op in BOOL_OPS

    def in_(self, a, b, st):
        if b.op == 'vec':
            return lor(*[eq(a, x) for x in b.args])
        if b.op == 'keys' and b.args[0].op == 'ref':
            b = b.args[0]
        if b.op == 'ref':
            k = self.kind.get(b)
            if k == 'dict':
                items = st.cells.get(('D', b), ())
                if all(p[0] == 'item' and is_const(p[1]) for p in items):
                    if is_const(a):
                        return C(any(cval(p[1]) == cval(a) for p in items))
                    if not items:
                        return FALSE
                elif is_const(a) and any(p[0] == 'item' and p[1] is a for p in items):
                    return TRUE
            if k in ('list', 'set'):
                parts = st.cells.get(('S', b), ())
                if not parts:
                    return FALSE
                if all(p[0] == 'item' for p in parts):
                    return lor(*[self.eq_(a, p[1], st, None, None) if self.concrete else eq(a, p[1]) for p in parts])
                if len(parts) == 1 and parts[0][0] == 'spread':
                    return contains(a, parts[0][1])
                if len(parts) == 1 and parts[0][0] == 'each':
                    return contains(a, self.freeze(st, b))
            return mk('in', a, b)
        return contains(a, b)

    def e_IfExp(self, e, st, fr):
        c = self.cond(e.test, st, fr)
        if is_const(c):
            return self.ev(e.body if cval(c) else e.orelse, st, fr)
        pc0 = st.pc
        a, b = st.fork((c, True)), st.fork((c, False))
        va = self.ev(e.body, a, fr)
        vb = self.ev(e.orelse, b, fr)
        return self.merge_states(st, pc0, [(x.pc, x.cells, v) for x, v in ((a, va), (b, vb)) if not x.dead])

    def e_Lambda(self, e, st, fr):
        return self.make_func(e, '<lambda>', st, fr)

    def e_Starred(self, e, st, fr):
        return mk('star', self.ev(e.value, st, fr))

    def e_Slice(self, e, st, fr):
        lo = self.ev(e.lower, st, fr) if e.lower else NONE
        hi = self.ev(e.upper, st, fr) if e.upper else NONE
        step = self.ev(e.step, st, fr) if e.step else NONE
        return mk('sliceobj', lo, hi, step)

    def e_Attribute(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        if st.dead:
            return NONE
        return self.getattr_(b, e.attr, st, e, fr)

    def getattr_(self, b, name, st, node, fr):
        if b.op == 'ite':
            return self.on_alts(b, st, lambda x, s: self.getattr_(x, name, s, node, fr))
        if b.op == 'ext':
            path = b.args[0]
            if path.startswith('mod:'):
                v = self.module_get(path[4:], name, st)
                if v is not None:
                    return v
                if self.p.has(path[4:] + '.' + name):
                    self.load_module(path[4:] + '.' + name)
                    return mk('ext', path + '.' + name)
                return mk('ext', path[4:] + '.' + name)
            return self.ext_attr(path, name)
        if b.op == 'vec':
            v = vec.attr(b, name)
            if v is not None:
                return v
        if b.op == 'structobj' and name == 'size':
            from . import models
            return models.struct_call(self, 'calcsize', b.args[0], [], {}, node, st, fr)
        if b.op == 'structobj' and name == 'format':
            return b.args[0]
        if b.op == 'pathobj':
            from . import models
            v = models.path_attr(self, b, name, st, node, fr)
            if v is not None:
                return v
        v = st.cells.get(('A', b, name))
        if v is None and b.op == 'class':
            v = self.genv.cells.get(('A', b, name))
        if v is not None:
            if b.op == 'class' and v in self.funcs:
                if self.funcs[v].kind == 'classmethod':
                    return mk('bound', v, b)
            return v
        cls = self.class_of(b, st)
        if b.op == 'class':
            v = self.class_attr(b, name, st)
            if v is not None:
                if v in self.funcs and self.funcs[v].kind == 'classmethod':
                    return mk('bound', v, b)
                return v
            if name in ('__name__', '__qualname__'):
                return C(self.classes[b].name.split('.')[-1])
            return mk('attr', b, name)
        if cls is not None:
            v = self.class_attr(cls, name, st)
            if v is not None:
                return self.bind(v, b, cls, st, node, fr)
            if name == '__class__':
                return cls
            if name == '__dict__':
                return mk('objdict', b)
        if b.op == 'super':
            v = self.super_attr(b, name, st)
            if v is not None:
                return self.bind(v, b.args[1], b.args[0], st, node, fr)
            return mk('attr', b.args[1], 'super.' + name)
        if b.op in ('undef',):
            self.may(st, 'NameError', node)
        if is_const(b) and (cval(b) is None or isinstance(cval(b), (str, bytes))) and not hasattr(cval(b), name) and self.fails(st, 'AttributeError', node):
            return NONE
        v = mk('attr', b, name)
        if self.value_hook is not None:
            v = self.value_hook(v) or v
        return v

    def bind(self, v, selfv, cls, st, node, fr):
        f = self.funcs.get(v)
        if f is None:
            return v
        if f.kind == 'property':
            return self.invoke(v, [selfv], {}, node, st, fr)
        if f.kind == 'staticmethod':
            return v
        if f.kind == 'classmethod':
            return mk('bound', v, cls)
        return mk('bound', v, selfv)

    def class_of(self, b, st):
        if b.op == 'ref':
            return self.cls_of.get(b)
        return self.sym_class.get(b)

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out or c not in self.classes:
                continue
            out.append(c)
            todo.extend(self.classes[c].bases)
        return out

    def class_attr(self, cls, name, st):
        for c in self.mro(cls):
            v = st.cells.get(('A', c, name))
            if v is None:
                v = self.genv.cells.get(('A', c, name))
            if v is not None:
                return v
        return None

    def super_attr(self, sup, name, st):
        cls = sup.args[0]
        for c in self.mro(cls)[1:]:
            v = st.cells.get(('A', c, name)) or self.genv.cells.get(('A', c, name))
            if v is not None:
                return v
        return None

    def find_method(self, v, name, st):
        cls = self.class_of(v, st)
        if cls is None:
            return None
        m = self.class_attr(cls, name, st)
        if m is None:
            return None
        return mk('bound', m, v)

    EXT_CONST = {'sys.hexversion': C(0x030c00f0), 'sys.maxsize': C((1 << 63) - 1), 'sys.byteorder': C('little'),
                 'sys.version_info': mk('tuple', C(3), C(12), C(0), C('final'), C(0))}

    def ext_attr(self, path, name):
        k = self.EXT_CONST.get(path + '.' + name)
        if k is not None:
            return k
        if name in ('__name__', '__qualname__') and self.concrete:
            return C(path.split('.')[-1])
        return mk('ext', path + '.' + name)

    def e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        if st.dead:
            return NONE
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st, fr) if e.slice.lower else NONE
            hi = self.ev(e.slice.upper, st, fr) if e.slice.upper else NONE
            if e.slice.step is not None:
                stp = self.ev(e.slice.step, st, fr)
                if b.op == 'vec':
                    return vec.slice_(b, lo, hi, stp)
                if is_const(b) and all(x is NONE or is_num(x) for x in (lo, hi, stp)) and isinstance(cval(b), (str, bytes, tuple)):
                    return C(cval(b)[slice(cval(lo), cval(hi), cval(stp))])
                if stp is not C(1):
                    return mk('sub', self.freeze(st, b), mk('sliceobj', lo, hi, stp))
            return self.slice_(b, lo, hi, st)
        k = self.ev(e.slice, st, fr)
        if st.dead:
            return NONE
        return self.index(b, k, st, e)

    def slice_(self, b, lo, hi, st):
        if b.op == 'ite':
            return self.on_alts(b, st, lambda x, s: self.slice_(x, lo, hi, s))
        if b.op == 'vec':
            return vec.slice_(b, lo, hi)
        if b.op == 'ref':
            parts = st.cells.get(('S', b))
            if parts is not None and self.kind.get(b) == 'list' and all(p[0] == 'item' for p in parts) and \
                    (lo is NONE or is_num(lo)) and (hi is NONE or is_num(hi)):
                r = self.new_ref('list', None, ('slice', b, lo, hi))
                st.cells[('S', r)] = parts[(None if lo is NONE else cval(lo)):(None if hi is NONE else cval(hi))]
                return r
            if self.kind.get(b) == 'list' and lo in (NONE, C(0)) and hi is NONE:
                r = self.new_ref('list', None, ('copy', b))
                st.cells[('S', r)] = parts
                return r
            return mkslice(self.freeze(st, b), lo, hi)
        if b.op == 'list':
            return mkslice(b, lo, hi)
        return mkslice(b, lo, hi)

    def index(self, b, k, st, node, unpack=None):
        v = self._index(b, k, st, node, unpack)
        if self.value_hook is not None:
            r = self.value_hook(v)
            if r is not None:
                return r
        return v

    def _index(self, b, k, st, node, unpack=None):
        if b.op == 'ite':
            return self.on_alts(b, st, lambda x, s: self._index(x, k, s, node, unpack))
        if k.op == 'ite' and (b.op in ('tuple',) or (b.op == 'ref' and self.kind.get(b) == 'dict')):
            return self.on_alts(k, st, lambda x, s: self._index(b, x, s, node, unpack))
        if k.op == 'sliceobj':
            return self.slice_(b, k.args[0], k.args[1], st)
        if b.op == 'vec':
            return vec.index(self, b, k, st, node)
        if b.op == 'rematch':
            return vec.re_method(self, b, 'group', [k], {}, node, st, self.frames[-1])
        if b.op == 'tuple':
            if is_num(k) and isinstance(cval(k), int):
                i = cval(k)
                if -len(b.args) <= i < len(b.args):
                    return b.args[i]
                if self.concrete:
                    self.raise_(st, 'IndexError', node)
                    return NONE
                return mk('top', 'tuple index')
            return mk('sub', b, k)
        if is_const(b):
            v = cval(b)
            if v is None and self.fails(st, 'TypeError', node):
                return NONE
            if is_const(k):
                try:
                    return C(v[cval(k)])
                except Exception as exc:   # pylint: disable=broad-exception-caught
                    if self.concrete and isinstance(exc, (IndexError, KeyError)):
                        self.raise_(st, type(exc).__name__, node)
                        return NONE
                    return mk('top', 'const index')
            if isinstance(v, bytes):
                return mk('sub', b, k)
        if b.op == 'unpackseq':
            codes, base, offs = b.args
            if is_num(k) and -len(codes) <= cval(k) < len(codes):
                return mkunpack(codes[cval(k)], base, offs[cval(k)])
        if b.op == 'ref':
            kd = self.kind.get(b)
            if kd == 'dict':
                for p in st.cells.get(('D', b), ()):
                    if p[0] == 'item' and p[1] is k:
                        return p[2]
                if is_const(k) and all(p[0] == 'item' and is_const(p[1]) for p in st.cells.get(('D', b), ())):
                    if self.concrete and st.cells.get(('X', b, 'default'), NONE) is NONE:
                        self.raise_(st, 'KeyError', node)
                        return NONE
                    if self.concrete:
                        from . import models
                        return models.dict_default(self, b, k, lambda s_: self.call(st.cells[('X', b, 'default')], [], {}, node, s_, self.frames[-1]),
                                                   node, st)
                    self.may(st, 'KeyError', node, mk('sub', b, k))
                    return mk('sub', b, k)
                fac = st.cells.get(('X', b, 'default'))
                if fac is not None and fac is not NONE:
                    from . import models
                    return models.dict_default(self, b, k, lambda s_: self.call(fac, [], {}, node, s_, self.frames[-1]),
                                               node, st)
                f = self.facts(st.pc)
                if f.get(mk('in', k, b)) is not True:
                    self.may(st, 'KeyError', node, mk('sub', b, k))
                return self.dict_lookup(b, k, st)
            if kd == 'list':
                parts = st.cells.get(('S', b), ())
                if is_num(k) and isinstance(cval(k), int):
                    i = cval(k)
                    if i >= 0:
                        if i < len(parts) and all(p[0] == 'item' for p in parts[:i + 1]):
                            return parts[i][1]
                    elif -i <= len(parts) and all(p[0] == 'item' for p in parts[i:]):
                        return parts[i][1]
                    if self.concrete and all(p[0] == 'item' for p in parts):
                        self.raise_(st, 'IndexError' if unpack is None else 'ValueError', node)
                        return NONE
                    # [x for x in xs if c][0]: the first match
                    if i == 0 and unpack is None:
                        self.may(st, 'IndexError', node, mk('sub', self.freeze(st, b), k))
                if len(parts) == 1 and parts[0][0] == 'spread':
                    return mk('sub', parts[0][1], k)
                return mk('sub', self.freeze(st, b), k)
            if kd == 'bytearray':
                return mk('sub', self.freeze(st, b), k)
            if kd == 'inst':
                m = self.find_method(b, '__getitem__', st)
                if m is not None:
                    return self.call(m, [k], {}, node, st, self.frames[-1])
            return mk('sub', b, k)
        if ('I', b, k) in st.cells:
            return st.cells[('I', b, k)]
        if b.op == 'list':
            if is_num(k) and isinstance(cval(k), int) and 0 <= cval(k) < len(b.args) and \
                    all(p.op == 'p_item' for p in b.args[:cval(k) + 1]):
                return b.args[cval(k)].args[0]
            return mk('sub', b, k)
        if self.byteslike(b, st) and numeric_kind(k):
            n = models_read_len(self, st, b) if is_num(k) else None
            if n is None or not -n <= cval(k) < n:
                self.may(st, 'IndexError', node, b)
            return mkunpack('B', b, k)
        if b.op == 'split' or b.op == 'regroups':
            if b.op == 'split' and len(b.args) == 3 and is_num(k) and cval(k) == 0 and is_num(b.args[2]) and \
                    cval(b.args[2]) >= 1:
                return mk('sub', mk('split', b.args[0], b.args[1]), k)
            if not (is_num(k) and cval(k) == 0):
                self.may(st, 'IndexError' if unpack is None else 'ValueError', node, b)
            return mk('sub', b, k)
        if b.op in ('partition', 'rows', 'elem', 'row'):
            return mk('sub', b, k)
        return mk('sub', b, k)

    def dict_lookup(self, b, k, st):
        """ lookup of a non-constant key in a local dict: gated by key equality if the dict is fully known """
        items = st.cells.get(('D', b), ())
        if items and all(p[0] == 'item' and is_const(p[1]) for p in items) and len(items) <= 40 and \
                all(p[2].op in ('func', 'bound', 'class', 'ext') for p in items):
            v = mk('sub', b, k)
            for p in reversed(items):
                v = ite(eq(k, p[1]), p[2], v)
            return v
        return mk('sub', b, k)

    # ---- comprehensions

    def e_ListComp(self, e, st, fr):
        return self.comp(e, e.generators, e.elt, st, fr, 'list')

    def e_SetComp(self, e, st, fr):
        return self.comp(e, e.generators, e.elt, st, fr, 'set')

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, e.generators, e.elt, st, fr, 'list')

    def e_DictComp(self, e, st, fr):
        return self.comp(e, e.generators, (e.key, e.value), st, fr, 'dict')

    def comp(self, e, gens, elt, st, fr, kind):
        r = self.new_ref(kind, e)
        key = ('D' if kind == 'dict' else 'S', r)
        st.cells[key] = ()
        scope = 'k%d' % self.subctx(('comp', self.nodeid(e)))
        sub_ = Frame(fr.func or Func('<comp>', '<comp>', e, fr.mod, (), None, [], {}, 'func'), scope,
                     fr.scopes + (fr.scope,), fr.mod, fr.selfval, fr.clsT)
        sub_.locals = set()
        sub_.returns = []

        def level(i, s):
            if i == len(gens):
                if kind == 'dict':
                    k = self.ev(elt[0], s, sub_)
                    v = self.ev(elt[1], s, sub_)
                    self.emit(s, 'setitem', e, r, k, v)
                    s.cells[key] = self.dict_put(s.cells.get(key, ()), k, v)
                else:
                    v = self.ev(elt, s, sub_)
                    s.cells[key] = s.cells.get(key, ()) + (('item', v),)
                return
            g = gens[i]
            it = self.ev(g.iter, s, sub_ if i else fr_for_iter)

            def body(s2):
                for c in g.ifs:
                    cc = self.cond(c, s2, sub_)
                    if is_const(cc):
                        if not cval(cc):
                            sub_.loopctl[-1][1].append((s2.pc, s2.cells))
                            s2.dead = True
                            return
                        continue
                    sub_.loopctl[-1][1].append((s2.pc + ((cc, False),), dict(s2.cells)))
                    s2.pc = s2.pc + ((cc, True),)
                level(i + 1, s2)
            self.for_over(it, lambda v, s2: self.assign(g.target, v, s2, sub_), body, s, sub_, g.target)
        fr_for_iter = fr
        level(0, st)
        return r

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value else NONE
        if fr.yields is not None:
            k = ('S', fr.yields)
            st.cells[k] = st.cells.get(k, ()) + (('item', v),)
        return NONE

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        if fr.yields is not None:
            k = ('S', fr.yields)
            st.cells[k] = st.cells.get(k, ()) + self.to_parts(v, st)
        return NONE

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_FormattedValue(self, e, st, fr):
        return tostr(self.ev(e.value, st, fr))

    # ------------------------------------------------------------ sequences

    def to_parts(self, v, st):
        if v.op == 'ref' and self.kind.get(v) == 'bytearray':
            return st.cells.get(('S', v), ())
        if v.op == 'ite':
            a, b = self.to_parts(v.args[1], st), self.to_parts(v.args[2], st)
            return (('cond', v.args[0], a, b),)
        if self.byteslike(v, st) and not is_const(v):
            return (('spread', v),)
        if v.op == 'range' or v.op in ('enumerate', 'zip', 'items'):
            p = self.iter_parts(v, st)
            if p and p[0][0] == 'item' or not p and self.concrete:
                return p
            return (('spread', v),)
        return self.iter_parts(v, st)

    def seq_extend(self, ref, v, st, node):
        if self.kind.get(ref) == 'bytearray':
            add_ = (('item', self.bytes_of(v, st)),)
        else:
            add_ = self.to_parts(v, st)
        st.cells[('S', ref)] = st.cells.get(('S', ref), ()) + add_
        self.emit(st, 'extend', node, ref, self.freeze(st, v))

    def bytes_of(self, v, st):
        """ byte-content term of a value used as bytes """
        if v.op == 'ref':
            if self.kind.get(v) == 'bytearray':
                return self.parts_bytes(st.cells.get(('S', v), ()))
            if self.kind.get(v) == 'list':
                parts = st.cells.get(('S', v), ())
                out = []
                for p in parts:
                    if p[0] == 'item':
                        if is_num(p[1]):
                            out.append(C(bytes([cval(p[1]) & 255])))
                        else:
                            out.append(mk('pack', 'B', p[1]))
                    else:
                        return mk('rawbytes', self.freeze(st, v))
                return bytescat(out)
        if v.op == 'ite':
            return ite(v.args[0], self.bytes_of(v.args[1], st), self.bytes_of(v.args[2], st))
        if v.op == 'tuple':
            return bytescat([C(bytes([cval(x) & 255])) if is_num(x) else mk('pack', 'B', x) for x in v.args])
        return v

    def parts_bytes(self, parts):
        out = []
        for p in parts:
            if p[0] == 'item':
                out.append(p[1])
            elif p[0] == 'each':
                out.append(mk('each', p[1], p[2], self.parts_bytes(p[3])))
            elif p[0] == 'cond':
                out.append(ite(p[1], self.parts_bytes(p[2]), self.parts_bytes(p[3])))
            elif p[0] == 'perm':
                out.append(mk('perm', p[1], self.parts_bytes(p[2])))
            else:
                out.append(mk('rawbytes', mk('part', *[x for x in p if isinstance(x, (T, str))])))
        return bytescat(out)

    # ------------------------------------------------------------ freezing heap values into terms

    def freeze(self, st, v, depth=5, seen=()):
        if v.op == 'ref':
            if depth <= 0 or v in seen:
                return v
            k = self.kind.get(v)
            sn = seen + (v,)
            if k == 'bytearray':
                return self.parts_bytes(st.cells.get(('S', v), ()))
            if k in ('list', 'set'):
                parts = st.cells.get(('S', v))
                if parts is None:
                    return v
                if len(parts) == 1 and parts[0][0] == 'spread':
                    return parts[0][1] if k == 'list' else mk('toset', parts[0][1])
                return mk('list' if k == 'list' else 'setlit', *[self.fz_part(st, p, depth, sn) for p in parts])
            if k == 'dict':
                return mk('dict', *[self.fz_ditem(st, p, depth, sn) for p in st.cells.get(('D', v), ())])
            if k == 'inst':
                cls = self.cls_of.get(v)
                attrs = sorted(((key[2], self.freeze(st, val, depth - 1, sn)) for key, val in st.cells.items()
                                if key[0] == 'A' and key[1] is v and isinstance(val, T)), key=lambda x: x[0])
                return mk('inst', self.classes[cls].name if cls in self.classes else '?', tuple(attrs))
            return v
        if v.op in ('tuple', 'ite'):
            return rebuild(v, lambda x: self.freeze(st, x, depth - 1, seen))
        return v

    def fz_part(self, st, p, depth, sn):
        if p[0] == 'item':
            return mk('p_item', self.freeze(st, p[1], depth - 1, sn))
        if p[0] == 'each':
            return mk('p_each', p[1], p[2], tuple(self.fz_part(st, x, depth, sn) for x in p[3]))
        if p[0] == 'cond':
            return mk('p_cond', p[1], tuple(self.fz_part(st, x, depth, sn) for x in p[2]),
                      tuple(self.fz_part(st, x, depth, sn) for x in p[3]))
        if p[0] == 'perm':
            return mk('p_perm', p[1], tuple(self.fz_part(st, x, depth, sn) for x in p[2]))
        if p[0] == 'spread':
            return mk('p_spread', p[1])
        return mk('p_other', *[x for x in p if isinstance(x, (T, str))])

    def fz_ditem(self, st, p, depth, sn):
        if p[0] == 'item':
            return mk('p_kv', p[1], self.freeze(st, p[2], depth - 1, sn))
        if p[0] == 'each':
            return mk('p_each', p[1], p[2], tuple(self.fz_ditem(st, x, depth, sn) for x in p[3]))
        if p[0] == 'cond':
            return mk('p_cond', p[1], tuple(self.fz_ditem(st, x, depth, sn) for x in p[2]),
                      tuple(self.fz_ditem(st, x, depth, sn) for x in p[3]))
        if p[0] == 'spread':
            return mk('p_spread', p[1])
        return mk('p_other', *[x for x in p if isinstance(x, (T, str))])

    # ------------------------------------------------------------ calls

    def e_Call(self, e, st, fr):
        fn_node = e.func
        # super()
        if isinstance(fn_node, ast.Name) and fn_node.id == 'super' and not e.args:
            if fr.clsT is not None:
                return mk('super', fr.clsT, fr.selfval)
        if isinstance(fn_node, ast.Attribute):
            recv = self.ev(fn_node.value, st, fr)
            if st.dead:
                return NONE
            args, kw = self.args(e, st, fr)
            if st.dead:
                return NONE
            return self.method(recv, fn_node.attr, args, kw, e, st, fr)
        fn = self.ev(fn_node, st, fr)
        if st.dead:
            return NONE
        args, kw = self.args(e, st, fr)
        if st.dead:
            return NONE
        return self.call(fn, args, kw, e, st, fr)

    def args(self, e, st, fr):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                parts = self.iter_parts(v, st)
                if all(p[0] == 'item' for p in parts):
                    args.extend(p[1] for p in parts)
                else:
                    args.append(mk('star', self.freeze(st, v)))
            else:
                args.append(self.ev(a, st, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                if v.op == 'ref' and self.kind.get(v) == 'dict':
                    for p in st.cells.get(('D', v), ()):
                        if p[0] == 'item' and is_const(p[1]):
                            kw[cval(p[1])] = p[2]
                        else:
                            kw['**'] = self.freeze(st, v)
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return args, kw

    def method(self, recv, name, args, kw, node, st, fr):
        """ recv.name(*args, **kw) """
        if recv.op == 'ite':
            return self.on_alts(recv, st, lambda x, s: self.method(x, name, args, kw, node, s, fr))
        from . import models
        if is_const(recv) and (cval(recv) is None or isinstance(cval(recv), (str, bytes))) and not hasattr(cval(recv), name) and \
                self.fails(st, 'AttributeError', node):
            return NONE
        r = models.method(self, recv, name, args, kw, node, st, fr)
        if r is not None:
            return r
        fn = self.getattr_(recv, name, st, node, fr)
        if fn.op == 'attr' and fn.args[0] is recv:
            # an unknown receiver: resolve by name when the program defines exactly one such method
            cands = self.by_name(name, st)
            if len(cands) == 1 and recv.op not in ('ext', 'const') and name not in models.COMMON_METHODS:
                return self.call(mk('bound', cands[0], recv), args, kw, node, st, fr)
            return models.opaque_method(self, recv, name, args, kw, node, st, fr)
        return self.call(fn, args, kw, node, st, fr)

    def by_name(self, name, st):
        out = []
        for c in self.classes:
            v = st.cells.get(('A', c, name)) or self.genv.cells.get(('A', c, name))
            if v is not None and v in self.funcs and v not in out:
                out.append(v)
        return out

    def call(self, fn, args, kw, node, st, fr):
        if fn.op == 'ite':
            return self.on_alts(fn, st, lambda x, s: self.call(x, args, kw, node, s, fr))
        from . import models
        if fn.op == 'func':
            return self.invoke(fn, args, kw, node, st, fr)
        if fn.op == 'bound':
            return self.invoke(fn.args[0], [fn.args[1]] + list(args), kw, node, st, fr)
        if fn.op == 'class':
            return self.instantiate(fn, args, kw, node, st, fr)
        if fn.op == 'ext':
            return models.ext_call(self, fn.args[0], args, kw, node, st, fr)
        if fn.op == 'meth':
            return self.method(fn.args[0], fn.args[1], args, kw, node, st, fr)
        if fn.op == 'attr':
            return self.method(fn.args[0], fn.args[1], args, kw, node, st, fr)
        if fn.op == 'getter':
            what, keys = fn.args[0], fn.args[1:]
            out = []
            for k in keys:
                if what == 'item':
                    out.append(self.index(args[0], k, st, node))
                else:
                    v = args[0]
                    for part in cval(k).split('.'):
                        v = self.getattr_(v, part, st, node, fr)
                    out.append(v)
            return out[0] if len(out) == 1 else mk('tuple', *out)
        if fn.op == 'partial':
            return self.call(fn.args[0], list(fn.args[1:]) + list(args), kw, node, st, fr)
        if fn.op == 'structfn':
            return models.struct_call(self, fn.args[0], fn.args[1], args, kw, node, st, fr)
        m = self.find_method(fn, '__call__', st)
        if m is not None:
            return self.call(m, args, kw, node, st, fr)
        if fn.op == 'sub' and fn.args[0].op == 'ref' and self.kind.get(fn.args[0]) == 'dict':
            # falling out of a gated dispatch table
            pass
        if fn in self.callv:
            v = self.callv[fn]
            return v(args, kw, st) if callable(v) else v
        r = mk('callv', fn, tuple(self.freeze(st, a) for a in args),
               tuple(sorted((k, self.freeze(st, v)) for k, v in kw.items())))
        self.emit(st, 'callv', node, fn, *[self.freeze(st, a) for a in args])
        return r

    def instantiate(self, clsT, args, kw, node, st, fr):
        if self.new_hook is not None:
            v = self.new_hook(clsT, args, kw, node, st)
            if v is not None:
                return v
        r = self.new_ref('inst', node, clsT.args[0], cls=clsT)
        for k in [k for k in st.cells if k[0] == 'A' and k[1] is r]:
            del st.cells[k]
        c = self.classes[clsT]
        for b in self.mro_ext(clsT):
            if exc_isa(b, 'BaseException') and b in EXC_PARENT:
                return mk('inst_exc', c.name, tuple(self.freeze(st, a) for a in args))
        init = self.class_attr(clsT, '__init__', st)
        self.emit(st, 'new', node, clsT, r, *[self.freeze(st, a) for a in args])
        if init is not None:
            self.invoke(init, [r] + list(args), kw, node, st, fr)
        else:
            dc = self.class_attr(clsT, '__dataclass__', st)
            if dc is not None:
                for i, n in enumerate(cval(dc)):
                    if i < len(args):
                        st.cells[('A', r, n)] = args[i]
                    elif n in kw:
                        st.cells[('A', r, n)] = kw[n]
        return r

    def mro_ext(self, clsT):
        out = []
        for c in self.mro(clsT):
            for b in self.classes[c].bases:
                if b.op == 'ext':
                    out.append(b.args[0].replace('builtins.', ''))
        return out

    def invoke(self, fT, args, kw, node, st, fr):
        f = self.funcs[fT]
        if self.call_hook is not None:
            r = self.call_hook(self, f, args, kw, node, st)
            if r is not None:
                return r
        if self.callstack.count(f) > self.max_recursion or len(self.callstack) > self.max_depth:
            # recursion: one level is analysed, deeper calls are summarised as effects
            fa = tuple(self.freeze(st, a) for a in args)
            self.emit(st, 'recall', node, C(f.qual), *fa)
            if self.endless and f in self.callstack:
                # as deep as the input makes it
                self.may(st, 'RecursionError', node, mk('recall', f.qual, fa))
            return mk('recall', f.qual, fa)
        self.visited_funcs[f.fid] = self.visited_funcs.get(f.fid, 0) + 1
        octx, self.ctx = self.ctx, self.subctx(('call', self.nodeid(node), f.fid))
        scope = 'f%d' % self.ctx
        for k in [k for k in st.cells if k[0] == 'V' and k[1] == scope]:
            del st.cells[k]
        nf = Frame(f, scope, f.scopes, f.mod)
        if f.cls is not None:
            nf.clsT = mk('class', f.mod + ':' + f.cls)
        nf.locals = _locals_of(f.node)
        self.bind_args(f, args, kw, st, nf, node)
        if st.dead:
            self.ctx = octx
            return NONE
        if f.node.__class__ is not ast.Lambda and f.node.args.args and f.cls is not None and f.kind != 'staticmethod':
            nf.selfval = st.cells.get(('V', scope, f.node.args.args[0].arg))
        self.callstack.append(f)
        self.frames.append(nf)
        pc0 = st.pc
        nsink = len(self.sinks[-1])
        isgen = _is_generator(f.node)
        if isgen:
            nf.yields = self.new_ref('list', f.node, 'gen')
            st.cells[('S', nf.yields)] = ()
        if isinstance(f.node, ast.Lambda):
            v = self.ev(f.node.body, st, nf)
            if not st.dead:
                nf.returns.append((st.pc, st.cells, v))
        else:
            self.block(f.node.body, st, nf)
            if not st.dead:
                nf.returns.append((st.pc, st.cells, NONE))
        self.frames.pop()
        self.callstack.pop()
        self.ctx = octx
        if not nf.returns:
            st.dead = True
            return NONE
        explicit = any(e[0] == 'explicit' for e in self.sinks[-1][nsink:])
        v = self.merge_states(st, pc0, nf.returns)
        if not explicit and len(nf.returns) > 1:
            st.pc = pc0
        if isgen:
            if f.kind == 'ctxmgr':
                parts = st.cells.get(('S', nf.yields), ())
                return mk('gencm', parts[0][1] if parts and parts[0][0] == 'item' else NONE)
            return nf.yields
        return v

    def bind_args(self, f, args, kw, st, nf, node):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        vals, bad = {}, False
        stars = [i for i, x in enumerate(args) if x.op == 'star']
        if len(stars) == 1 and not a.vararg and '**' not in kw:
            # the unknown sequence supplies the parameters that nothing else does
            k = stars[0]
            free = [n for n in pos if n not in kw]
            m = len(free) - (len(args) - 1)
            nd = len(f.defaults)
            known = not [n for n in pos[len(pos) - nd:] if n not in kw] if nd else True
            if m >= 0:
                src = args[k].args[0]
                args = list(args[:k]) + [mk('sub', src, C(i)) if known or free[k + i] not in pos[len(pos) - nd:] else mk('undef')
                                         for i in range(m)] + list(args[k + 1:])
        for i, n in enumerate(pos):
            if i < len(args):
                vals[n] = args[i]
            elif n in kw:
                vals[n] = kw.pop(n)
            else:
                j = i - (len(pos) - len(f.defaults))
                if 0 <= j < len(f.defaults):
                    vals[n] = f.defaults[j]
                elif '**' in kw:
                    vals[n] = mk('sub', kw['**'], C(n))
                else:
                    vals[n] = mk('undef')
                    bad = True
        if not stars and (bad or len(args) > len(pos) and not a.vararg or kw and '**' not in kw and not a.kwarg and set(kw) - {k.arg for k in a.kwonlyargs}) and f.fid:
            self.raise_(st, 'TypeError', node)
            return
        if a.vararg:
            vals[a.vararg.arg] = mk('tuple', *args[len(pos):])
        for k in a.kwonlyargs:
            if k.arg in kw:
                vals[k.arg] = kw.pop(k.arg)
            else:
                vals[k.arg] = f.kwdefaults.get(k.arg, mk('undef'))
        if a.kwarg:
            r = self.new_ref('dict', node, 'kwargs')
            st.cells[('D', r)] = tuple(('item', C(k), v) for k, v in kw.items())
            vals[a.kwarg.arg] = r
        for n, v in vals.items():
            st.cells[('V', nf.scope, n)] = v

    # ------------------------------------------------------------ entry points

    def run(self, mod, qual, args, kw=None, st=None, selfval=None):
        """ analyse module-level function or Class.method with the given abstract arguments """
        self.load_module(mod)
        if st is None:
            st = self.start()
        fT = self.resolve(mod, qual, st)
        if fT is None:
            raise AnalysisError('anchor %s.%s not found' % (mod, qual))
        fr = Frame(Func('<entry>', '<entry>', ast.parse('pass').body[0], mod, (), None, [], {}, 'func'), 'entry', (),
                   mod)
        self.frames.append(fr)
        node = ast.parse('entry()').body[0].value
        node.lineno = 0
        if fT.op == 'class':
            v = self.instantiate(fT, args, kw or {}, node, st, fr)
        else:
            v = self.invoke(fT, ([selfval] if selfval is not None else []) + list(args), kw or {}, node, st, fr)
        self.frames.pop()
        return v, st

    def resolve(self, mod, qual, st=None):
        st = st or self.genv
        parts = qual.split('.')
        v = self.module_get(mod, parts[0], st)
        for p in parts[1:]:
            if v is None or v.op != 'class':
                return None
            v = self.class_attr(v, p, st)
        return v


class Generaliser:
    """ least general generalisation of the loop-head state: Herbrand equalities between cells survive """

    def __init__(self, it, lid):
        self.it, self.lid = it, lid
        self.names = {}
        self.full = {}

    def generalise(self, head, end):
        """ returns the new head, or None if `head` already covers `end` """
        self.memo = {}
        self.img = {}
        self.changed = False
        out = dict(head)
        todo = []
        for k, h in head.items():
            e = end.get(k)
            if e is None or e is h:
                if isinstance(h, T) and h.op == 'lv' and h.args[0] == self.lid:
                    self.memo[(h, h)] = h
                continue
            if isinstance(h, tuple) or isinstance(e, tuple):
                out[k] = self.gen_seq(k, h, e)
                continue
            todo.append((k, h, e))
        todo.sort(key=lambda x: (sum(1 for _ in walk(x[1])), str(x[0][0]), x[1].nid))
        for k, h, e in todo:
            g = self.lgg(h, e, k)
            if g is not h:
                self.changed = True
            out[k] = g
        return out if self.changed else None

    def gen_seq(self, k, h, e):
        if not (isinstance(h, tuple) and isinstance(e, tuple)):
            return h
        marker = ('acc', self.lid)
        if marker in h:
            i = h.index(marker)
            if e[:i + 1] == h[:i + 1]:
                return h
            self.changed = True
            return (('havoc', self.lid),)
        if h == (('havoc', self.lid),):
            return h
        if e[:len(h)] == h:
            self.changed = True
            return h + (marker,)
        self.changed = True
        return (('havoc', self.lid),)

    def same(self, a, b):
        return a is b or bool(self.full) and subst(a, self.full) is subst(b, self.full)

    def fresh(self, h, e, k):
        if h.op == 'lv' and h.args[0] == self.lid:
            prev = self.img.get(h)
            if prev is None or self.same(prev, e):
                self.img[h] = e
                self.memo[(h, e)] = h
                return h
        if (h, e) in self.memo:
            return self.memo[(h, e)]
        if self.full:
            for (x, y), v in self.memo.items():
                if x is h and self.same(y, e):
                    self.memo[(h, e)] = v
                    return v
        name = '%s' % ('.'.join(str(x) if not isinstance(x, T) else show(x, 1) for x in k[1:]))
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        init = h
        if h.op == 'lv' and h.args[0] == self.lid:
            init = h.args[3]
        v = mk('lv', self.lid, name + ('#%d' % n if n else ''), n, init)
        self.memo[(h, e)] = v
        self.img[v] = e
        return v

    def lgg(self, h, e, k):
        if h is e:
            return h
        if (h, e) in self.memo:
            return self.memo[(h, e)]
        if h.op == 'lv' and h.args[0] == self.lid:
            return self.fresh(h, e, k)
        if h.op == e.op and h.op in ('read', 'len', 'attr', 'sub', 'slice', 'tuple', 'unpack', 'find') and \
                len(h.args) == len(e.args):
            args = []
            ok = True
            for x, y in zip(h.args, e.args):
                if isinstance(x, T) and isinstance(y, T):
                    args.append(self.lgg(x, y, k + ('a',)))
                elif x == y:
                    args.append(x)
                else:
                    ok = False
                    break
            if ok:
                return remake(h.op, tuple(args))
        if h.op == 'poly' or e.op == 'poly':
            r = self.lgg_poly(h, e, k)
            if r is not None:
                return r
        return self.fresh(h, e, k)

    def lgg_poly(self, h, e, k):
        """ h = x + r, e = y + r' with (x, y) already generalised to v and r, r' structurally equal under lgg """
        for (x, y), v in list(self.memo.items()):
            if not (numeric_kind(x) or numeric_kind(y)):
                continue
            rh, re_ = sub(h, x), sub(e, y)
            if rh is re_:
                return add(v, rh)
            if rh.op == re_.op and rh.op in ('len',):
                save = (dict(self.memo), dict(self.img), dict(self.names))
                g = self.lgg(rh, re_, k + ('r',))
                new = set(self.memo.values()) - set(save[0].values())
                if not any(n.op == 'lv' for n in new):
                    return add(v, g)
                self.memo, self.img, self.names = save
        return None


def accumulated(h, e, lid, desc):
    """ the text (or bytes) that a loop of the form  x = x + piece  leaves in x """
    if not (isinstance(h, T) and h.op == 'lv' and h.args[0] == lid and len(h.args) > 3 and isinstance(h.args[3], T)):
        return None
    first, rest = e.args[0], e.args[1:]
    if first.op == 'str' and e.op == 'strcat':
        first = first.args[0]
    if first is not h or any(x.op == 'lv' and x.args[0] == lid for p in rest for x in walk(p)):
        return None
    if e.op == 'strcat':
        return strcat([h.args[3], mk('join', C(''), mk('list', mk('p_each', lid, desc, (mk('p_item', strcat(rest)),))))])
    return bytescat([h.args[3], mk('each', lid, desc, bytescat(rest))])


def _is_true_const(test):
    return isinstance(test, ast.Constant) and bool(test.value)


def _as_load(t):
    import copy as _copy
    n = _copy.copy(t)
    n.ctx = ast.Load()
    return n


_LOCALS = {}


def _locals_of(node):
    r = _LOCALS.get(node)
    if r is None:
        r = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                r.add(n.id)
        _LOCALS[node] = r
    return r


_GEN = {}


def _is_generator(node):
    r = _GEN.get(node)
    if r is None:
        r = False
        if not isinstance(node, ast.Lambda):
            stack = list(node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                stack.extend(ast.iter_child_nodes(n))
        _GEN[node] = r
    return r


def expand_dataclasses(tree):
    """ the methods that @dataclass adds, written out """
    for c in ast.walk(tree):
        if not isinstance(c, ast.ClassDef):
            continue
        deco = [d for d in c.decorator_list if ast.unparse(d.func if isinstance(d, ast.Call) else d) in ('dataclass', 'dataclasses.dataclass')]
        if not deco:
            continue
        opts = {k.arg: k.value.value for k in deco[0].keywords if isinstance(k.value, ast.Constant)} if isinstance(deco[0], ast.Call) else {}
        have = {n.name for n in c.body if isinstance(n, ast.FunctionDef)}
        fields = [n for n in c.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and 'ClassVar' not in ast.unparse(n.annotation)]
        args, body, compared = [], [], []
        for f in fields:
            name, src, cmp_ = f.target.id, f.target.id, True
            if isinstance(f.value, ast.Call) and ast.unparse(f.value.func) in ('field', 'dataclasses.field'):
                kw = {k.arg: ast.unparse(k.value) for k in f.value.keywords}
                cmp_ = kw.get('compare') != 'False'
                made = kw['default_factory'] + '()' if 'default_factory' in kw else kw.get('default')
                if kw.get('init') == 'False':
                    src = made
                elif 'default_factory' in kw:
                    args.append('%s=None' % name)
                    src = '%s if %s is None else %s' % (made, name, name)
                else:
                    args.append(name if made is None else '%s=%s' % (name, made))
            else:
                args.append(name if f.value is None else '%s=%s' % (name, ast.unparse(f.value)))
            if src is not None:
                body.append('    self.%s = %s' % (name, src))
            if cmp_:
                compared.append('self.%s == other.%s' % (name, name))
        if '__post_init__' in have:
            body.append('    self.__post_init__()')
        new = []
        if '__init__' not in have and opts.get('init', True):
            new.append('def __init__(%s):\n%s' % (', '.join(['self'] + args), '\n'.join(body or ['    pass'])))
        if '__eq__' not in have and opts.get('eq', True):
            new.append('def __eq__(self, other):\n    if not isinstance(other, self.__class__):\n        return NotImplemented\n    return %s' %
                       (' and '.join(compared) or 'True'))
        for t in new:
            for n in ast.parse(t).body:
                for x in ast.walk(n):
                    if hasattr(x, 'lineno'):
                        x.lineno, x.end_lineno = c.lineno, c.lineno
                c.body.append(n)
        c.decorator_list = [d for d in c.decorator_list if d not in deco]
    return tree


class Program:
    """ the repository's modules, parsed from the working tree """

    def __init__(self, root):
        self.root = root
        self.trees = {}
        self.src = {}
        pk = os.path.join(root, 'pyulog')
        if not os.path.isdir(pk):
            raise AnalysisError('package directory %s is missing' % pk)
        for dp, dn, fn in os.walk(pk):
            dn[:] = [d for d in dn if d not in ('__pycache__', 'libevents_parse')]
            for f in sorted(fn):
                if f.endswith('.py'):
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.src[rel] = open(path, encoding='utf-8').read()
        for m, s in self.src.items():
            self.trees[m] = expand_dataclasses(ast.parse(s, m))

    def tree(self, mod):
        return self.trees.get(mod)

    def has(self, mod):
        return mod in self.trees

    def package_of(self, mod, level):
        is_pkg = mod == 'pyulog' or any(m.startswith(mod + '.') for m in self.trees)
        parts = mod.split('.')
        drop = level - (1 if is_pkg else 0)
        return '.'.join(parts[:len(parts) - drop]) if drop else mod


from . import vec     # noqa: E402  (arrays)
