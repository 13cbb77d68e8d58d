""" Arrays of known length with arbitrary elements, and the library functions on them """
import re
from .terms import *
from . import models as M
from .models import ext

CMP = {'Lt', 'Gt', 'LtE', 'GtE', 'Eq', 'NotEq'}


def isvec(v):
    return v.op == 'vec'


def vec(xs):
    return mk('vec', *xs)


def items(it, v, st):
    """ elements of a sequence of known length, or None """
    if v.op == 'vec':
        return list(v.args)
    if v.op == 'pyint':
        return None
    if v.op == 'tuple' or v.op == 'range' or v.op == 'list' or v.op == 'ref':
        if v.op == 'ref' and it.kind.get(v) not in ('list', 'set'):
            return None
        parts = it.iter_parts(v, st)
        if all(p[0] == 'item' for p in parts):
            return [p[1] for p in parts]
    return None


def broadcast(it, a, b, st):
    xs = items(it, a, st) if a.op == 'vec' or a.op == 'ref' or a.op == 'tuple' else None
    ys = items(it, b, st) if b.op == 'vec' or b.op == 'ref' or b.op == 'tuple' else None
    if xs is None and ys is None:
        return None
    if xs is None:
        xs = [a] * len(ys)
    if ys is None:
        ys = [b] * len(xs)
    if len(xs) != len(ys):
        if len(xs) == 1:
            xs = xs * len(ys)
        elif len(ys) == 1:
            ys = ys * len(xs)
        else:
            return None
    return list(zip(xs, ys))


def binop(it, op, a, b, st, node):
    ps = broadcast(it, a, b, st)
    if ps is None:
        return mk('top', 'array operation')
    n = type(op).__name__
    out = []
    for x, y in ps:
        if n in ('BitAnd', 'BitOr') and isbool(x) and isbool(y):
            out.append(land(x, y) if n == 'BitAnd' else lor(x, y))
        else:
            out.append(it.binop(op, x, y, st, node))
    out = vec(out)
    if out is a or out is b:
        it.emit(st, 'veccopy', node, out)
    return out


def isbool(x):
    return is_const(x) and isinstance(cval(x), bool) or x.op in BOOL_OPS


def compare(it, op, a, b, st, node, fr):
    ps = broadcast(it, a, b, st)
    if ps is None:
        return mk('top', 'array comparison')
    return vec([it.simp(st, it.compare(op, x, y, st, node, fr)) for x, y in ps])


def invert(v):
    return vec([lnot(x) if isbool(x) else (C(~cval(x)) if is_num(x) else mk('invert', x)) for x in v.args])


def index(it, b, k, st, node):
    n = len(b.args)
    if is_num(k) and isinstance(cval(k), int) and not isinstance(cval(k), bool):
        i = cval(k)
        if -n <= i < n:
            return b.args[i]
        it.raise_(st, 'IndexError', node)
        return NONE
    if k.op == 'tuple' and len(k.args) == 1:
        return index(it, b, k.args[0], st, node)
    ks = items(it, k, st)
    if ks is not None:
        if all(is_const(x) and isinstance(cval(x), bool) for x in ks) and (ks or True) and len(ks) == n:
            r = vec([x for x, m in zip(b.args, ks) if cval(m)])
            if r is b:
                it.emit(st, 'veccopy', node, r)
            return r
        if all(is_num(x) for x in ks) and all(-n <= cval(x) < n for x in ks):
            r = vec([b.args[cval(x)] for x in ks])
            if r is b:
                it.emit(st, 'veccopy', node, r)
            return r
    return mk('sub', b, k)


def slice_(b, lo, hi, step=NONE):
    ok = lambda x: x is NONE or is_num(x)
    if ok(lo) and ok(hi) and ok(step):
        f = lambda x: None if x is NONE else int(cval(x))
        return vec(b.args[f(lo):f(hi):f(step)])
    return mk('sub', b, mk('sliceobj', lo, hi, step))


def method(it, r, name, args, kw, node, st, fr):
    if name in ('tolist', '__iter__'):
        l = it.new_ref('list', node, 'tolist')
        st.cells[('S', l)] = tuple(('item', x) for x in r.args)
        return l
    if name in ('copy', 'flatten', 'astype'):
        it.emit(st, 'veccopy', node, r)
    if name in ('copy', 'flatten', 'ravel', 'squeeze', 'view', 'reshape'):
        return r
    if name in ('sort', 'fill', 'put', 'itemset', 'resize', 'partition', 'byteswap', 'setfield', 'setflags'):
        it.emit(st, 'inplace', node, r)
    if kw.get('out') is not None and isvec(kw['out']):
        it.emit(st, 'inplace', node, kw['out'])
    if name == 'astype':
        return r if not args or args[0].op == 'ext' and args[0].args[0].split('.')[-1].startswith(('float', 'int64', 'uint64', 'object')) and \
            not args[0].args[0].endswith('.int') else vec([mk('astype', x, *args) if not is_const(x) else x for x in r.args])
    fn = {'any': 'any', 'all': 'all', 'sum': 'sum', 'min': 'min', 'max': 'max', 'argmax': 'argmax', 'argmin': 'argmin',
          'nonzero': 'nonzero', 'searchsorted': 'searchsorted'}.get(name)
    if fn:
        return M.ext_call(it, 'numpy.' + fn, [r] + list(args), kw, node, st, fr)
    if name == '__len__':
        return C(len(r.args))
    if name == '__getitem__':
        return index(it, r, args[0], st, node)
    return None


def attr(b, name):
    if name == 'size':
        return C(len(b.args))
    if name == 'shape':
        return mk('tuple', C(len(b.args)))
    if name == 'ndim':
        return C(1)
    return None


def known(it, args, st):
    xs = items(it, args[0], st) if args else None
    return xs


def np(*names):
    """ registers a model for known lengths; other calls keep the model that they had """
    def deco(f):
        for n in names:
            old = M.EXT.get('numpy.' + n)

            def g(it, args, kw, node, st, fr, old=old, n=n):
                for x in [kw.get('out')] + ([args[0]] if args and kw.get('copy') is FALSE else []):
                    if x is not None and isvec(x):
                        it.emit(st, 'inplace', node, x)
                r = f(it, args, kw, node, st, fr) if it.concrete else None
                if r is not None and n != 'asarray' and isvec(r) and any(r is a for a in args):
                    it.emit(st, 'veccopy', node, r)
                return r if r is not None or old is None else old(it, args, kw, node, st, fr)
            M.EXT['numpy.' + n] = g
        return f
    return deco


@np('array', 'asarray', 'fromiter')
def _array(it, args, kw, node, st, fr):
    xs = known(it, args, st)
    return vec(xs) if xs is not None and it.concrete else None


def true_at(xs):
    """ indices of the true elements, or None """
    out = []
    for i, x in enumerate(xs):
        if not is_const(x):
            return None
        if cval(x):
            out.append(C(i))
    return out


@np('where', 'nonzero', 'flatnonzero', 'argwhere')
def _where(it, args, kw, node, st, fr, name=None):
    if not it.concrete:
        return None
    if len(args) == 3:
        cs = items(it, args[0], st)
        if cs is None:
            return None
        pick = lambda v, i: (items(it, v, st) or [v] * len(cs))[i]
        return vec([ite(it.truth(c, st), pick(args[1], i), pick(args[2], i)) for i, c in enumerate(cs)])
    xs = known(it, args, st)
    at = true_at(xs) if xs is not None else None
    if at is None:
        return None
    return mk('tuple', vec(at))


@np('flatnonzero')
def _flatnonzero(it, args, kw, node, st, fr):
    r = _where(it, args, kw, node, st, fr)
    return r.args[0] if r is not None else None


@np('append')
def _append(it, args, kw, node, st, fr):
    if not it.concrete:
        return None
    xs = items(it, args[0], st)
    ys = items(it, args[1], st)
    if xs is None:
        return None
    return vec(xs + (ys if ys is not None else [args[1]]))


@np('concatenate', 'hstack', 'r_')
def _concat(it, args, kw, node, st, fr):
    if not it.concrete:
        return None
    out = []
    for p in it.iter_parts(args[0], st):
        if p[0] != 'item':
            return None
        xs = items(it, p[1], st)
        out += xs if xs is not None else [p[1]]
    return vec(out)


def bisect(it, args, kw, st, right):
    xs = items(it, args[0], st)
    if xs is None or not all(is_num(x) for x in xs):
        return None

    def one(v):
        import bisect as B
        return C((B.bisect_right if right else B.bisect_left)([cval(x) for x in xs], cval(v)))
    v = args[1]
    if is_num(v):
        return one(v)
    vs = items(it, v, st)
    if vs is not None and all(is_num(x) for x in vs):
        return vec([one(x) for x in vs])
    return None


@np('searchsorted')
def _searchsorted(it, args, kw, node, st, fr):
    side = args[2] if len(args) > 2 else kw.get('side', C('left'))
    return bisect(it, args, kw, st, side is C('right')) if it.concrete else None


@ext('bisect.bisect_left')
def _bl(it, args, kw, node, st, fr):
    return bisect(it, args, kw, st, False) if it.concrete and len(args) == 2 and not kw else None


@ext('bisect.bisect_right', 'bisect.bisect')
def _br(it, args, kw, node, st, fr):
    return bisect(it, args, kw, st, True) if it.concrete and len(args) == 2 and not kw else None


@np('argmax', 'argmin')
def _argmax(it, args, kw, node, st, fr):
    return None


def arg_extreme(which):
    def f(it, args, kw, node, st, fr):
        xs = known(it, args, st) if it.concrete else None
        if not xs or not all(is_num(x) or isbool(x) and is_const(x) for x in xs):
            return None
        vs = [cval(x) for x in xs]
        return C(vs.index(which(vs)))
    return f


np('argmax')(arg_extreme(max))
np('argmin')(arg_extreme(min))


def fold(name, fn):
    def f(it, args, kw, node, st, fr):
        xs = known(it, args, st) if it.concrete else None
        return fn(it, xs, st, node) if xs is not None else None
    np(name)(f)


def extreme(mx):
    def f(it, xs, st, node):
        if not xs:
            it.raise_(st, 'ValueError', node)
            return NONE
        r = xs[0]
        for x in xs[1:]:
            r = ite(lt(r, x), x, r) if mx else ite(lt(x, r), x, r)
        return r
    return f


for _n, _mx in (('min', False), ('max', True), ('amin', False), ('amax', True)):
    fold(_n, extreme(_mx))
fold('any', lambda it, xs, st, node: lor(*[it.truth(x, st) for x in xs]))
fold('all', lambda it, xs, st, node: land(*[it.truth(x, st) for x in xs]))
fold('count_nonzero', lambda it, xs, st, node: C(len(true_at(xs))) if true_at(xs) is not None else None)


def _total(it, xs, st, node):
    r = C(0)
    for x in xs:
        r = add(r, x if not (is_const(x) and isinstance(cval(x), bool)) else C(int(cval(x))))
    return r


fold('sum', _total)


@np('mean')
def _mean(it, args, kw, node, st, fr):
    xs = known(it, args, st) if it.concrete else None
    return div(_total(it, xs, st, node), C(len(xs))) if xs else None


@np('arange')
def _arange(it, args, kw, node, st, fr):
    if not it.concrete or not all(is_num(a) for a in args):
        return None
    return vec([C(i) for i in range(*[cval(a) for a in args])])


@np('zeros', 'ones', 'full')
def _zeros(it, args, kw, node, st, fr):
    return None


def filled(v):
    def f(it, args, kw, node, st, fr):
        if not it.concrete or not is_num(args[0]):
            return None
        return vec([v] * cval(args[0]))
    return f


np('zeros')(filled(C(0)))
np('ones')(filled(C(1)))


@np('diff')
def _diff(it, args, kw, node, st, fr):
    xs = known(it, args, st) if it.concrete and len(args) == 1 and not kw else None
    return vec([sub(b, a) for a, b in zip(xs, xs[1:])]) if xs is not None else None


def plain(it, args, st):
    """ the numbers in the first argument, if all of them are known """
    xs = known(it, args, st) if it.concrete and args else None
    return xs if xs is not None and all(is_const(x) and isinstance(cval(x), (int, float)) for x in xs) else None


@np('unique')
def _unique(it, args, kw, node, st, fr):
    xs = plain(it, args, st)
    names = ('return_index', 'return_inverse', 'return_counts')
    if xs is None or len(args) > 1 or set(kw) - set(names) or any(v is not TRUE and v is not FALSE for v in kw.values()):
        return None
    vs = [cval(x) for x in xs]
    u = sorted(set(vs))
    out = [vec([xs[vs.index(v)] for v in u])]
    for n, r in zip(names, ([vs.index(v) for v in u], [u.index(v) for v in vs], [vs.count(v) for v in u])):
        if kw.get(n) is TRUE:
            out.append(vec([C(x) for x in r]))
    return out[0] if len(out) == 1 else mk('tuple', *out)


def ordered(name):
    def f(it, args, kw, node, st, fr):
        xs = plain(it, args, st)
        if xs is None or len(args) > 1 or set(kw) - {'kind', 'stable'} or len(xs) > 16 and not (kw.get('kind') in (C('stable'), C('mergesort')) or name == 'sort'):
            return None
        at = sorted(range(len(xs)), key=lambda i: cval(xs[i]))
        return vec([xs[i] if name == 'sort' else C(i) for i in at])
    np(name)(f)


ordered('sort')
ordered('argsort')


@np('isin', 'in1d')
def _isin(it, args, kw, node, st, fr):
    xs = plain(it, args[:1], st)
    ys = plain(it, args[1:2], st)
    if xs is None or ys is None or kw or len(args) > 2:
        return None
    vs = [cval(y) for y in ys]
    return vec([C(cval(x) in vs) for x in xs])


@np('cumsum')
def _cumsum(it, args, kw, node, st, fr):
    xs = plain(it, args, st)
    if xs is None or len(args) > 1 or kw:
        return None
    out, n = [], 0
    for x in xs:
        n += cval(x)
        out.append(C(n))
    return vec(out)


@np('flip', 'flipud')
def _flip(it, args, kw, node, st, fr):
    xs = known(it, args, st) if it.concrete and len(args) == 1 and not kw else None
    return vec(xs[::-1]) if xs is not None else None


@np('roll')
def _roll(it, args, kw, node, st, fr):
    n = args[1] if len(args) > 1 else kw.get('shift')
    xs = known(it, args, st) if it.concrete and n is not None and is_num(n) and not set(kw) - {'shift'} and len(args) < 3 else None
    if xs is None:
        return None
    k = cval(n) % len(xs) if xs else 0
    return vec(xs[len(xs) - k:] + xs[:len(xs) - k])


@np('take')
def _take(it, args, kw, node, st, fr):
    xs = known(it, args, st) if it.concrete and len(args) == 2 and not kw else None
    at = plain(it, args[1:], st)
    if xs is None or at is None or not all(isinstance(cval(i), int) and -len(xs) <= cval(i) < len(xs) for i in at):
        return None
    return vec([xs[cval(i)] for i in at])


@np('delete')
def _delete(it, args, kw, node, st, fr):
    xs = known(it, args, st) if it.concrete and len(args) == 2 and not kw else None
    at = [args[1]] if len(args) == 2 and is_num(args[1]) else plain(it, args[1:], st)
    if xs is None or at is None or not all(isinstance(cval(i), int) and -len(xs) <= cval(i) < len(xs) for i in at):
        return None
    gone = {cval(i) % len(xs) for i in at}
    return vec([x for i, x in enumerate(xs) if i not in gone])


def compared(name, op):
    def f(it, args, kw, node, st, fr):
        ps = broadcast(it, args[0], args[1], st) if it.concrete and len(args) == 2 and not kw else None
        return vec([op(x, y) for x, y in ps]) if ps is not None else None
    np(name)(f)


for _n, _op in (('equal', eq), ('not_equal', lambda a, b: lnot(eq(a, b))), ('less', lt), ('greater', lambda a, b: lt(b, a)), ('less_equal', lambda a, b: lnot(lt(b, a))),
                ('greater_equal', lambda a, b: lnot(lt(a, b)))):
    compared(_n, _op)


def like(v):
    def f(it, args, kw, node, st, fr):
        xs = known(it, args, st) if it.concrete else None
        fill = v if v is not None else (args[1] if len(args) > 1 else kw.get('fill_value'))
        return vec([fill] * len(xs)) if xs is not None and fill is not None and (is_num(fill) or is_const(fill)) else None
    return f


np('zeros_like')(like(C(0)))
np('ones_like')(like(C(1)))
np('full_like')(like(None))


@np('logical_and', 'logical_or')
def _logical(it, args, kw, node, st, fr):
    return None


def logical(fn):
    def f(it, args, kw, node, st, fr):
        ps = broadcast(it, args[0], args[1], st) if it.concrete else None
        return vec([fn(it.truth(x, st), it.truth(y, st)) for x, y in ps]) if ps is not None else None
    return f


np('logical_and')(logical(land))
np('logical_or')(logical(lor))


@np('logical_not', 'invert')
def _lognot(it, args, kw, node, st, fr):
    xs = known(it, args, st) if it.concrete else None
    return vec([lnot(it.truth(x, st)) for x in xs]) if xs is not None else None


def elementwise(name):
    def f(it, args, kw, node, st, fr):
        if not it.concrete:
            return None
        vs = [x for x in args if x.op == 'vec']
        if vs and len({len(x.args) for x in vs}) == 1 and not kw.keys() & {'out', 'where'} and all(x.op == 'vec' or is_num(x) or x.op in ('sym', 'poly') for x in args):
            ks = tuple(sorted(kw.items()))
            return vec([mk('call', 'numpy.' + name, tuple(x.args[i] if x.op == 'vec' else x for x in args), ks) for i in range(len(vs[0].args))])
        return mk('call', 'numpy.' + name, tuple(args), ())
    np(name)(f)


for _n in ('arctan2', 'arcsin', 'sin', 'cos', 'sqrt', 'clip', 'floor', 'ceil', 'isfinite', 'isnan', 'rad2deg', 'deg2rad', 'arctan', 'arccos', 'asin', 'atan2', 'minimum', 'maximum', 'hypot', 'round', 'around', 'round_', 'rint', 'trunc', 'fix', 'nan_to_num',
           'float16', 'sign', 'copysign', 'fmin', 'fmax', 'fabs', 'tan'):
    elementwise({'asin': 'arcsin', 'atan2': 'arctan2'}.get(_n, _n)) if _n not in ('asin', 'atan2') else None


# ---------------------------------------------------------------- regular expressions on constants

def pattern(v):
    if v.op == 'repat':
        return re.compile(v.args[0], v.args[1])
    if is_const(v) and isinstance(cval(v), (str, bytes)):
        return re.compile(cval(v))
    return None


def rematch(m):
    if m is None:
        return NONE
    return mk('rematch', m.re.pattern, m.re.flags, m.string, m.pos, m.endpos, m.start(), m.end(),
              tuple(m.groups()), tuple(sorted(m.groupdict().items())))


def rx(it, name, p, args, kw, node, st, fr):
    """ re.<name>(p, *args) on constants """
    if p is None:
        return None
    if name == 'sub' and len(args) >= 2 and is_const(args[0]) and is_const(args[1]) and all(is_const(a) for a in args):
        return C(p.sub(cval(args[0]), *[cval(a) for a in args[1:]]))
    if not all(is_const(a) for a in args) or kw:
        return None
    vs = [cval(a) for a in args]
    if name in ('match', 'fullmatch', 'search'):
        return rematch(getattr(p, name)(*vs))
    if name == 'split':
        return mk('tuple', *[C(x) for x in p.split(*vs)])
    if name == 'findall':
        return mk('tuple', *[C(x) if not isinstance(x, tuple) else mk('tuple', *[C(y) for y in x]) for x in p.findall(*vs)])
    if name == 'finditer':
        return mk('tuple', *[rematch(m) for m in p.finditer(*vs)])
    return None


def _re(name):
    old = M.EXT.get('re.' + name)

    def f(it, args, kw, node, st, fr):
        if it.concrete and args and len(args) <= (3 if name == 'sub' else 2):
            r = rx(it, name, pattern(args[0]), args[1:], kw, node, st, fr)
            if r is not None:
                return r
        return old(it, args, kw, node, st, fr) if old is not None else None
    ext('re.' + name)(f)


for _n in ('match', 'fullmatch', 'search', 'sub', 'split', 'findall', 'finditer'):
    _re(_n)

_old_compile = M.EXT.get('re.compile')


@ext('re.compile')
def _compile(it, args, kw, node, st, fr):
    if it.concrete and all(is_const(a) for a in args) and not kw and 1 <= len(args) <= 2:
        return mk('repat', cval(args[0]), cval(args[1]) if len(args) > 1 else 0)
    return _old_compile(it, args, kw, node, st, fr) if _old_compile is not None else None


def re_method(it, r, name, args, kw, node, st, fr):
    if r.op == 'repat':
        return rx(it, name, pattern(r), args, kw, node, st, fr)
    groups, named = r.args[7], dict(r.args[8])
    whole = r.args[2][r.args[5]:r.args[6]]

    def g(k):
        k = cval(k)
        if isinstance(k, str):
            return C(named[k])
        return C(whole if k == 0 else groups[k - 1])
    try:
        if name == 'groups':
            return mk('tuple', *[C(x) for x in groups])
        if name in ('group', '__getitem__'):
            if not args:
                return C(whole)
            return g(args[0]) if len(args) == 1 else mk('tuple', *[g(a) for a in args])
        if name == 'start' and not args:
            return C(r.args[5])
        if name == 'end' and not args:
            return C(r.args[6])
        if name == 'span' and not args:
            return mk('tuple', C(r.args[5]), C(r.args[6]))
    except (KeyError, IndexError):
        it.raise_(st, 'IndexError', node)
        return NONE
    return None


# ---------------------------------------------------------------- command lines

class Cli:
    """ the options of a command line and the values a scenario gives them """

    def __init__(self, given):
        self.given = dict(given)
        self.specs = []

    def add(self, flags, kw):
        self.specs.append((flags, kw))


def add_argument(it, args, kw, node, st):
    it.emit(st, 'add_argument', node, *args, mk('kwargs', M.kwt(it, st, kw)))
    if it.cli is not None:
        it.cli.add([cval(a) if is_const(a) else None for a in args], dict(kw))
    return NONE


def parse_args(it, args, kw, node, st, fr):
    """ the namespace: every option has its default, or the value the scenario gives; by_flag is keyed by flag or position """
    cli = it.cli
    ns = it.new_ref('inst', node, 'namespace')
    it.emit(st, 'parse_args', node, ns)
    for i, (flags, k) in enumerate(cli.specs):
        if any(f is None for f in flags):
            continue
        opt = [f for f in flags if f.startswith('-')]
        dest = cval(k['dest']) if 'dest' in k and is_const(k['dest']) else None
        if dest is None:
            longs = [f for f in opt if f.startswith('--')]
            dest = (longs[0] if longs else opt[0]).lstrip('-').replace('-', '_') if opt else flags[0]
        action = cval(k['action']) if 'action' in k and is_const(k['action']) else 'store'
        key = next((f for f in opt if f in cli.given), None)
        if not opt:
            pos = [n for n, (fl, _k) in enumerate(cli.specs) if fl[0] and not fl[0].startswith('-')].index(i)
            key = pos if pos in cli.given else None
        default = k.get('default')
        if default is None:
            default = {'store_true': FALSE, 'store_false': TRUE, 'store_const': NONE}.get(action, NONE)
        if action in ('help', 'version'):
            continue
        v = default
        if key is not None:
            cli.used = getattr(cli, 'used', set()) | {key}
            if action == 'store_true':
                v = TRUE
            elif action == 'store_false':
                v = FALSE
            elif action == 'store_const':
                v = k.get('const', NONE)
            elif action == 'store':
                v = cli.given[key]
                v = v if isinstance(v, T) else C(v)
                if 'type' in k:
                    v = it.call(k['type'], [v], {}, node, st, fr)
                    if st.dead:
                        return NONE
                if 'choices' in k:
                    ok = it.simp(st, it.in_(v, k['choices'], st))
                    if ok is FALSE:
                        it.raise_(st, 'SystemExit', node)
                        return NONE
        elif is_const(default) and isinstance(cval(default), str) and 'type' in k:
            v = it.call(k['type'], [default], {}, node, st, fr)
        st.cells[('A', ns, dest)] = v
    return ns
