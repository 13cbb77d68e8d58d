""" Abstract runs of the command line tools over logs of known shape with arbitrary values """
import ast
from .terms import *
from .engine import AnalysisError
from .logic import Und
from .scen import new_interp, sym_instance, program, Interp
from . import models as M

CORE = 'pyulog.core'


def leaf(name):
    """ an arbitrary value """
    return mk('sym', '~' + name)


def text(*parts):
    return strcat([tostr(p) if isinstance(p, T) else C(str(p)) for p in parts])


class Obj:
    """ an object with the given attributes; cls: its class in the code, or None """
    def __init__(self, cls=None, **attrs):
        self.cls, self.attrs = cls, attrs


class Arr:
    """ an array """
    def __init__(self, *items):
        self.items = items


class Topic:
    """ a data set: fields [(type, name)], and its columns; columns not given have arbitrary values """

    def __init__(self, name, fields, times, multi_id=0, tag='', **cols):
        self.name, self.fields, self.times, self.multi_id = name, fields, list(times), multi_id
        self.cols = {}
        given = {k.replace('__', '.'): v for k, v in cols.items()}
        given.update(given.pop('cols', {}))
        for _t, f in [('uint64_t', 'timestamp')] * 0 + list(fields):
            if f == 'timestamp':
                self.cols[f] = list(times)
            elif f in given:
                self.cols[f] = list(given[f])
            else:
                self.cols[f] = [leaf('%s%s.%d.%s@%d' % (tag, name, multi_id, f, i)) for i in range(len(self.times))]

    def obj(self):
        for t, f in self.fields:
            for v in self.cols[f]:
                if isinstance(v, T):
                    LEAF_TYPES[v] = t
        fd = [Obj(None, type_str=t, field_name=f) for t, f in self.fields]
        ti = [i for i, (_t, f) in enumerate(self.fields) if f == 'timestamp']
        return Obj('ULog.Data', name=self.name, multi_id=self.multi_id, field_data=fd, timestamp_idx=ti[0] if ti else -1, msg_id=0,
                   data={k: Arr(*v) for k, v in self.cols.items()})


class Run:
    pass


LEAF_TYPES = {}     # the C types of the arbitrary values of data sets
NPTYPES = {'int8_t': 'int8', 'uint8_t': 'uint8', 'int16_t': 'int16', 'uint16_t': 'uint16', 'int32_t': 'int32', 'uint32_t': 'uint32', 'int64_t': 'int64', 'uint64_t': 'uint64',
           'float': 'float32', 'double': 'float64', 'bool': 'int8', 'char': 'int8'}
NPCHARS = dict(zip('int8 uint8 int16 uint16 int32 uint32 int64 uint64 float32 float64'.split(), 'bBhHiIlLfd'))


def leaf_dtype(v):
    """ attributes of the dtype of an arbitrary value """
    if v.op != 'attr' or v.args[0].op != 'attr' or v.args[0].args[1] != 'dtype' or v.args[0].args[0] not in LEAF_TYPES:
        return None
    n = NPTYPES.get(LEAF_TYPES[v.args[0].args[0]])
    if n is None:
        return None
    size = int(n.lstrip('uintfloa')) // 8
    at = {'kind': n[0], 'name': n, 'char': NPCHARS[n], 'itemsize': size, 'str': ('|' if size == 1 else '<') + n[0] + str(size), 'byteorder': '|' if size == 1 else '=', 'ndim': 0}
    if v.args[1] == 'type':
        return mk('ext', 'numpy.' + n)
    return C(at[v.args[1]]) if v.args[1] in at else None


SAMPLES = {'f': [0., -0., 1., -1., 0.1, 1e-9, 123456.789, 3e38, -3e38, float('inf'), float('-inf'), float('nan')]}


def samples(ctype):
    n = NPTYPES.get(ctype, 'float64')
    if n[0] == 'f':
        return SAMPLES['f']
    if ctype == 'bool':
        return [0, 1]
    bits = int(n.lstrip('uint'))
    lo, hi = (0, 2 ** bits - 1) if n[0] == 'u' else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
    return sorted({lo, hi, 0, 1, hi - 1, lo + 1, hi // 2, hi // 2 + 1, hi // 3, 65, 100} | ({-1, -2} if lo else set()))


class Host:
    """ builds values in a run """

    def __init__(self, it, st):
        self.it, self.st, self.n = it, st, 0
        self.made, self.alive = {}, []

    def ref(self, kind, cls=None):
        self.n += 1
        return self.it.new_ref(kind, None, ('given', self.n), cls=cls)

    def lift(self, v):
        it, st = self.it, self.st
        if isinstance(v, T):
            return v
        if isinstance(v, Topic):
            if id(v) not in self.made:
                self.alive.append(v)
                self.made[id(v)] = self.lift(v.obj())
            return self.made[id(v)]
        if isinstance(v, Arr):
            return mk('vec', *[self.lift(x) for x in v.items])
        if isinstance(v, Obj):
            cls = it.resolve(CORE, v.cls, st) if v.cls else None
            if v.cls and cls is None:
                cls = None
            r = self.ref('inst', cls)
            for k, x in v.attrs.items():
                st.cells[('A', r, k)] = self.lift(x)
            return r
        if isinstance(v, list):
            r = self.ref('list')
            st.cells[('S', r)] = tuple(('item', self.lift(x)) for x in v)
            return r
        if isinstance(v, dict):
            r = self.ref('dict')
            st.cells[('D', r)] = tuple(('item', C(k), self.lift(x)) for k, x in v.items())
            return r
        if isinstance(v, tuple):
            return mk('tuple', *[self.lift(x) for x in v])
        return C(v)


DEFAULTS = dict(data_list=[], dropouts=[], initial_parameters={}, changed_parameters=[], msg_info_dict={}, msg_info_multiple_dict={},
                logged_messages=[], logged_messages_tagged={}, file_corruption=False, start_timestamp=0, last_timestamp=0,
                has_default_parameters=False, message_formats={}, file_version=1, has_data_appended=False, has_sync=True,
                logged_messages_tagged_=None)


def tool_run(mod, fn, args=(), kw=None, log=None, cli=None, methods=None, assume=None, ext=None, meth=None, fs=(), hook=None, dirs=(), missing=None):
    """
    fn(*args, **kw) with a log of the given shape instead of the one in the file.
    methods: name -> value of a method of the log; ext, meth: stand-ins for library calls.
    """
    it, st = lacking(mod, missing or (lambda name: False))
    return start_run(it, st, mod, fn, args, kw, log, cli, methods, assume, ext, meth, fs, hook, dirs)


def lacking(mod, missing):
    """ the module loaded without the packages for which missing(name) holds """
    it = Interp(program())
    it.concrete, it.missing = True, missing
    it.load_module(mod)
    return it, it.start()


def tool_run_self(mod, fn, make, args=(), kw=None, log=None, methods=None, assume=None, ext=None, meth=None, hook=None, callv=None, selfonly=False):
    """ a method of an object that make(host, run) gives, called with the log """
    it, st = lacking(mod, lambda name: False)
    it.callv = callv or {}
    return start_run(it, st, mod, fn, args, kw, log, None, methods, assume, ext, meth, (), hook, (), make, selfonly)


KEEP = False    # remember the arguments and the log as they were


def start_run(it, st, mod, fn, args, kw, log, cli, methods, assume, ext, meth, fs, hook, dirs=(), selfval=None, selfonly=False):
    it.concrete = True
    from .vec import Cli
    it.cli = Cli(cli or {})
    host = Host(it, st)
    it.load_module(CORE)
    ulog = sym_instance(it, st, CORE, 'ULog', 'ulog~')
    r = Run()
    r.it, r.ulog, r.host, r.ulogs = it, ulog, host, []
    spec = dict(DEFAULTS)
    spec.update(log or {})
    state = {'filter': None}
    for k, v in (assume or {}).items():
        it.assume[k] = v
    it.value_hook = leaf_dtype
    values = {}

    def value(name):
        v = spec[name]
        if name == 'data_list' and state['filter'] is not None:
            v = [t for t in v if t.name in state['filter']]
        if name not in values:
            values[name] = host.lift(v)
        return values[name]

    # attributes behind the properties
    from .engine import Frame, Func
    fr0 = Frame(Func('<q>', '<q>', ast.parse('pass').body[0], mod, (), None, [], {}, 'func'), 'q', (), mod)

    def install():
        values.clear()
        hooks, it.call_hook = it.call_hook, None
        it.frames.append(fr0)
        try:
            for name in spec:
                probe = st.fork()
                n = len(it.trace)
                it.sinks.append([])
                v = it.getattr_(ulog, name, probe, ast.parse('0').body[0].value, fr0)
                it.sinks.pop()
                del it.trace[n:]
                if v.op == 'attr' and v.args[0] is ulog:
                    st.cells[('A', ulog, v.args[1])] = value(name)
        finally:
            it.frames.pop()
            it.call_hook = hooks

    def call(it_, f, a, k, node, st_):
        if hook is not None:
            v = hook(it_, f, a, k, node, st_)
            if v is not None:
                return v
        if a and a[0] is ulog:
            if f.name in (methods or {}):
                m = methods[f.name]
                return m(host, a[1:], k) if callable(m) else host.lift(m)
            if f.kind == 'property' and f.name in spec:
                return value(f.name)
        return None

    def new(clsT, a, k, node, st_):
        if it.classes[clsT].name != 'ULog' or not str(clsT.args[0]).startswith(CORE):
            return None
        init = it.funcs.get(it.class_attr(clsT, '__init__', st_))
        names = [x.arg for x in init.node.args.args][1:]
        ds = init.node.args.defaults
        b = {}
        for n, d in zip(names[len(names) - len(ds):], ds):
            try:
                b[n] = C(ast.literal_eval(d))
            except ValueError:
                b[n] = mk('top', 'default')
        for n, v in zip(names, a):
            b[n] = it.freeze(st_, v)
        for n, v in k.items():
            b[n] = it.freeze(st_, v)
        rest = set(k) - set(names)
        r.ulogs.append((b, st_.pc, node, len(it.trace), it.frames[-1].mod, rest))
        f = b.get('message_name_filter_list', NONE)
        state['filter'] = None
        if f is not NONE:
            xs = [x.args[0] for x in f.args if x.op == 'p_item'] if f.op == 'list' else (list(f.args) if f.op in ('tuple', 'setlit') else None)
            if f.op == 'setlit':
                xs = [x.args[0] for x in f.args if x.op == 'p_item']
            if xs is not None and any(x.op in ('list', 'tuple', 'dict', 'setlit') for x in xs):
                r.early = ['the names of the messages to read contain a %s: %s' % (xs[0].op, show(f, 4))]
                state['filter'] = [y for x in xs for y in ([cval(x)] if is_const(x) else [])] or ['']
            elif xs is not None and all(is_const(x) for x in xs):
                state['filter'] = [cval(x) for x in xs]
            elif is_const(f) and isinstance(cval(f), (str, tuple)):
                state['filter'] = cval(f)
            else:
                raise Und('the message filter is not understood: %s' % show(f, 4))
            if not state['filter']:
                for n in ('changed_parameters', 'dropouts', 'logged_messages'):
                    spec[n] = type(spec[n])()
        for key in [key for key in st_.cells if key[0] == 'A' and key[1] is ulog]:
            del st_.cells[key]
        nonlocal_install(st_)
        return ulog

    def nonlocal_install(st_):
        nonlocal st
        keep, st = st, st_
        host.st = st_
        try:
            install()
        finally:
            st = keep
    def relog(**more):
        """ from here on, the log is another one """
        spec.update(DEFAULTS)
        spec.update(more)
        for key in [key for key in host.st.cells if key[0] == 'A' and key[1] is ulog]:
            del host.st.cells[key]
        nonlocal_install(host.st)
    r.relog = relog
    it.call_hook = call
    it.new_hook = new
    r.calls = []
    r.touched = []
    dirs = set(dirs)

    def library(path, a, k, node, st_, fr):
        if ext is not None:
            v = ext(r, host, path, a, k, st_)
            if v is not None:
                return v
        name = path.split('.')[-1]
        if path in ('os.path.isdir', 'os.path.exists', 'os.path.isfile') and len(a) == 1 and is_const(a[0]):
            p = str(cval(a[0]))
            return C(p in dirs if name == 'isdir' else (p in fsd if name == 'isfile' else p in dirs or p in fsd))
        if path in ('os.mkdir', 'os.makedirs') and a and is_const(a[0]):
            r.calls.append((mk('ext', path), 'mkdir', a, k, st_.pc))
            dirs.add(str(cval(a[0])))
            return NONE
        if path in DESTRUCTIVE:
            r.touched.append((path, [it.freeze(st_, x) for x in a], st_.pc, node, it.frames[-1].mod if it.frames else ''))
        return None
    it.ext_hook = library
    def library_method(recv, name, a, k, node, st_):
        if name == 'item' and not a and is_num(recv) and (cval(recv) * 8) % 1 == 0:
            return recv     # the same number as a Python number, with the same text
        return meth(r, host, recv, name, a, k, st_) if meth is not None else None
    it.meth_hook = library_method
    fsd = dict(fs)
    it.fs = fsd
    host.st = st
    install()
    largs = [host.lift(a) for a in args]
    lkw = {k: host.lift(v) for k, v in (kw or {}).items()}
    given = [('argument %d' % (n + 1), x) for n, x in enumerate(largs)] + sorted(lkw.items())
    if selfval is not None:
        largs = [selfval(host, r)] + ([] if selfonly else [ulog]) + largs
    r.given = [(n, x, it.freeze(st, x, 8)) for n, x in given if x.op not in ('const', 'sym', 'func', 'ext')] if KEEP else []
    r.before = {k: it.freeze(st, v, 8) for k, v in values.items()} if KEEP else {}
    v, st = it.run(mod, fn, largs, lkw, st=st)
    r.st, r.ret, r.trace, r.escapes = st, v, it.trace, it.sinks[0]
    r.raised = st.dead
    r.after = {k: it.freeze(st, v, 8) for k, v in values.items()} if KEEP else {}
    r.exc = [x for x in r.escapes if x[0] == 'explicit']
    collect(r)
    return r


DESTRUCTIVE = {'os.remove', 'os.unlink', 'os.rename', 'os.renames', 'os.replace', 'os.truncate', 'os.chmod', 'os.link', 'os.symlink', 'os.utime', 'os.rmdir', 'os.removedirs', 'shutil.move',
               'shutil.copy', 'shutil.copy2', 'shutil.copyfile', 'shutil.rmtree', 'shutil.copytree', 'numpy.save', 'numpy.savetxt', 'numpy.savez'}

RELEVANT = ('write', 'print', 'open')


def collect(r):
    """ the text of every output """
    it = r.it
    r.opens, texts, r.problems, r.wrong = [], {}, [], list(getattr(r, 'early', []))
    r.order = []
    handles = {}
    std = {'sys.stdout': 'stdout', 'sys.stderr': 'stderr'}
    # arrays changed in place; those that may be copies are no concern of the log
    r.changed, copies = [], set()
    for e in r.trace:
        if e.kind == 'veccopy':
            copies.add(e.args[0])
        elif e.kind in ('inplace', 'setitem', 'setslice', 'delitem') and e.args and isinstance(e.args[0], T) and e.args[0].op == 'vec':
            r.problems.append('%s: an array is changed in place' % e.where)
            if e.args[0] not in copies:
                r.changed.append(e)
    for e in r.trace:
        if e.kind not in RELEVANT:
            continue
        if e.pc:
            r.problems.append('%s: %s under a condition that is not settled: %s' % (e.where, e.kind, ' and '.join(
                show(c if b else lnot(c), 4) for c, b in e.pc)[:200]))
            continue
        if e.loops:
            r.problems.append('%s: %s in a loop that is not unrolled' % (e.where, e.kind))
            continue
        if e.kind == 'open':
            h, path, mode = e.args[:3]
            handles[h] = path
            kw = dict(e.args[3].args[0]) if len(e.args) > 3 and e.args[3].args else {}
            r.opens.append((path, mode, kw, e))
            if is_const(mode) and ('w' in cval(mode) or 'x' in cval(mode)):
                texts[path] = []
            elif is_const(mode) and 'a' in cval(mode):
                texts.setdefault(path, [])
            continue
        if e.kind == 'print':
            kw = dict(e.args[1].args[0]) if e.args[1].args else {}
            sep, end = kw.get('sep', C(' ')), kw.get('end', C('\n'))
            parts = []
            for i, a in enumerate(e.args[0].args):
                parts += ([sep] if i else []) + [a]
            parts.append(end)
            f = kw.get('file', mk('ext', 'sys.stdout'))
            payload = [tostr(x) if not (is_const(x) and isinstance(cval(x), bytes)) else x for x in parts]
        else:
            f = e.args[0]
            payload = [e.args[1]]
            if not binary(r, f) and not textual(e.args[1]):
                r.wrong.append('%s: writes %s, which is not text' % (e.where, show(e.args[1], 3)[:80]))
        if f.op == 'ext' and f.args[0] in std:
            key = std[f.args[0]]
        elif f in handles:
            key = handles[f]
        else:
            r.problems.append('%s: output to something unknown: %s' % (e.where, show(f, 3)))
            continue
        texts.setdefault(key, []).extend(payload)
        r.order.append((key, e))
    r.texts = texts
    r.out = join(texts.get('stdout', []))


def binary(r, f):
    """ the handle may take bytes """
    if f.op == 'ext':
        return f.args[0] not in ('sys.stdout', 'sys.stderr')
    for _path, mode, _kw, e in r.opens:
        if e.args[0] is f:
            return not is_const(mode) or 'b' in str(cval(mode))
    return True


def textual(v):
    """ the value may be a string """
    if is_const(v):
        return isinstance(cval(v), str)
    if v.op == 'sym':
        return '@' not in str(v.args[0])    # the values of a topic are numbers
    return v.op not in ('poly', 'div', 'tuple', 'list', 'dict', 'vec', 'int', 'float', 'mod', 'floordiv', 'lt', 'eq', 'not', 'bytes')


def join(parts):
    out = []
    for p in parts:
        if p.op == 'strcat':
            out += list(p.args)
        else:
            out.append(tostr(p))
    return strcat(out)


def file_text(r, path):
    for k, v in r.texts.items():
        if isinstance(k, T) and is_const(k) and cval(k) == path:
            return join(v)
    return None


KNOWN = {'const', 'str', 'fmt', 'strcat', 'poly', 'div', 'tuple', 'list', 'p_item', 'dict', 'p_kv', 'lt', 'eq', 'not', 'and', 'or', 'bitand', 'bitor', 'bitxor',
         'rshift', 'lshift', 'invert', 'mod', 'floordiv', 'int', 'float', 'vec', 'utf8', 'bytes', 'pack', 'abs', 'round', 'ext'}


def understood(t):
    for x in walk(t):
        if x.op == 'sym':
            if not str(x.args[0]).startswith('~'):
                return False
        elif x.op == 'call':
            if not str(x.args[0]).startswith('numpy.'):
                return False
        elif x.op not in KNOWN:
            return False
    return True


def same(R, rule, what, got, want, where, bad, key=None, short=True):
    """ got, a term or None when there is nothing, is exactly want """
    if got is want:
        R.ok(rule, what, where)
        return True
    if got is not None and not understood(got):
        R.und(rule, '%s: not understood: %s' % (what, show(got, 4)[:200]), where)
        return None
    R.bad(rule, '%s%s' % (bad, '' if short else ': %s' % diff(got, want)), where, key or rule)
    return False


def diff(got, want):
    if got is None:
        return 'nothing instead of %s' % show(want, 4)[:120]
    a = got.args if got.op == 'strcat' else (got,)
    b = want.args if want.op == 'strcat' else (want,)
    i = 0
    while i < len(a) and i < len(b) and a[i] is b[i]:
        i += 1
    f = lambda xs: ' '.join(show(x, 4) for x in xs[i:i + 2])[:120] or 'the end'
    return '%s instead of %s' % (f(a), f(b))
