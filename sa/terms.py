"""
Abstract values of the analysis: hash-consed terms that say where a value comes
from (provenance), with normal forms for integer arithmetic, comparisons,
string building and byte building.  Nothing here evaluates repository code.
"""
from fractions import Fraction

_intern = {}


class T:
    """ An interned term.  Equality is identity. """
    __slots__ = ('op', 'args', 'nid', '_sup')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.nid < other.nid

    # interning makes copies unnecessary
    def __deepcopy__(self, memo):
        return self


def _key(a):
    if isinstance(a, T):
        return a
    if isinstance(a, tuple):
        return ('t',) + tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def mk(op, *args):
    key = (op,) + tuple(_key(a) for a in args)
    t = _intern.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.nid = len(_intern)
        t._sup = None
        _intern[key] = t
    return t


def C(v):
    """ constant """
    return mk('const', v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
UNDEF = mk('undef')


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


def is_num(t):
    return t.op == 'const' and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


# ---------------------------------------------------------------- arithmetic

NUMERIC_OPS = {'poly', 'len', 'div', 'floordiv', 'mod', 'lshift', 'rshift', 'bitand', 'bitor',
               'bitxor', 'invert', 'idx', 'tell', 'find', 'pow', 'abs', 'ord', 'int'}


def numeric_kind(t):
    if t.op in NUMERIC_OPS or is_num(t):
        return True
    if t.op == 'unpack':
        return t.args[0] not in ('c', 's')
    if t.op == 'lv':
        return numeric_kind(t.args[3]) if isinstance(t.args[3], T) else False
    if t.op == 'ite':
        return numeric_kind(t.args[1]) and numeric_kind(t.args[2])
    return False


def _frac(v):
    return Fraction(v)


def to_poly(t):
    if is_num(t):
        v = cval(t)
        if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
            return {(t,): Fraction(1)}
        return {(): _frac(v)} if v != 0 else {}
    if t.op == 'const' and isinstance(cval(t), bool):
        return {(): Fraction(int(cval(t)))} if cval(t) else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {(t,): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return C(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return C(int(c)) if c.denominator == 1 else C(float(c))
        if len(m) == 1 and c == 1:
            return m[0]
    items = tuple(sorted(p.items(), key=lambda mc: (len(mc[0]), tuple(x.nid for x in mc[0]))))
    return mk('poly', items)


def add(a, b):
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 400:
        return mk('mul', a, b)
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.nid))
            p[m] = p.get(m, 0) + c1 * c2
    return from_poly(p)


def div(a, b):
    if is_num(b) and cval(b) != 0:
        f = _frac(cval(b))
        return from_poly({m: c / f for m, c in to_poly(a).items()}) if not is_num(a) \
            else C(cval(a) / cval(b))
    return mk('div', a, b)


def poly_map(t, fn):
    """ rebuild a poly with fn applied to its atoms """
    out = C(0)
    for m, c in to_poly(t).items():
        term = C(int(c)) if c.denominator == 1 else C(float(c))
        for x in m:
            term = mul(term, fn(x))
        out = add(out, term)
    return out


# ---------------------------------------------------------------- booleans

_NOT, _AND, _OR = {}, {}, {}


def lnot(c):
    r = _NOT.get(c)
    if r is None:
        r = _NOT[c] = _lnot(c)
        _NOT.setdefault(r, c)
    return r


def land(*cs):
    r = _AND.get(cs)
    if r is None:
        r = _AND[cs] = _land(*cs)
    return r


def lor(*cs):
    r = _OR.get(cs)
    if r is None:
        r = _OR[cs] = _lor(*cs)
    return r


def _lnot(c):
    if c.op == 'const':
        return C(not cval(c))
    if c.op == 'not':
        return c.args[0]
    if c.op == 'and':
        return lor(*[lnot(x) for x in c.args])
    if c.op == 'or':
        return land(*[lnot(x) for x in c.args])
    return mk('not', c)


def _flat(op, cs):
    out = []
    for c in cs:
        if c.op == op:
            out.extend(c.args)
        else:
            out.append(c)
    seen, res = set(), []
    for c in out:
        if c not in seen:
            seen.add(c)
            res.append(c)
    return res


def _land(*cs):
    cs = _flat('and', cs)
    cs = [c for c in cs if not (c.op == 'const' and cval(c))]
    for c in cs:
        if c.op == 'const':
            return FALSE
    s = set(cs)
    for c in cs:
        if lnot(c) in s:
            return FALSE
    if not cs:
        return TRUE
    if len(cs) == 1:
        return cs[0]
    return mk('and', *sorted(cs, key=lambda x: x.nid))


def _lor(*cs):
    cs = _flat('or', cs)
    cs = [c for c in cs if not (c.op == 'const' and not cval(c))]
    for c in cs:
        if c.op == 'const':
            return TRUE
    s = set(cs)
    for c in cs:
        if lnot(c) in s:
            return TRUE
    if not cs:
        return FALSE
    if len(cs) == 1:
        return cs[0]
    # absorption  (a and b) or (a and not b)  ->  a
    changed = True
    cs = list(cs)
    while changed and len(cs) > 1:
        changed = False
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                m = _absorb(cs[i], cs[j])
                if m is not None:
                    rest = [x for k, x in enumerate(cs) if k not in (i, j)]
                    return lor(m, *rest)
    return mk('or', *sorted(cs, key=lambda x: x.nid))


def _lits(c):
    return set(c.args) if c.op == 'and' else {c}


def _absorb(a, b):
    la, lb = _lits(a), _lits(b)
    if la <= lb:
        return a
    if lb <= la:
        return b
    da, db = la - lb, lb - la
    if len(da) == 1 and len(db) == 1:
        (x,), (y,) = da, db
        if lnot(x) is y:
            return land(*(la & lb))
    # x or (not x and rest) -> x or rest
    if len(la) == 1:
        (x,) = la
        if lnot(x) in lb:
            return lor(x, land(*(lb - {lnot(x)})))
    if len(lb) == 1:
        (x,) = lb
        if lnot(x) in la:
            return lor(x, land(*(la - {lnot(x)})))
    return None


def ite(c, a, b):
    if a is b:
        return a
    if c.op == 'const':
        return a if cval(c) else b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    if a.op == 'ite' and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c:
        return ite(c, a, b.args[2])
    return mk('ite', c, a, b)


BOOL_OPS = {'not', 'and', 'or', 'lt', 'eq', 'in', 'is', 'truthy', 'isinstance', 'raised', 'startswith',
            'endswith', 'brk', 'is_type'}


def is_container_like(t):
    return t.op in ('read', 'slice', 'rows', 'list', 'tuple', 'dict', 'strcat', 'utf8', 'bytes', 'enc', 'keys',
                    'items', 'values')


def truthy(t):
    """ condition term for the truth value of t """
    if t.op == 'const':
        return C(bool(cval(t)))
    if t.op in BOOL_OPS:
        return t
    if t.op == 'ite':
        return _bite(t.args[0], truthy(t.args[1]), truthy(t.args[2]))
    if t.op in ('tuple', 'list') and t.op == 'tuple':
        return C(bool(t.args))
    if t.op in ('func', 'class', 'bound', 'ext'):
        return TRUE
    if t.op == 'len':
        return mk('truthy', t.args[0])
    if t.op == 'bool':
        return truthy(t.args[0])
    return mk('truthy', t)


def _bite(c, a, b):
    return lor(land(c, a), land(lnot(c), b)) if not (a.op == 'const' and b.op == 'const') else ite(c, a, b)


_BITS = {'B': 8, 'H': 16, 'I': 32, 'Q': 64, 'L': 32}


def lo_of(t, depth=0):
    """ a lower bound of a numeric term, or None """
    if is_num(t):
        return cval(t)
    if t.op == 'len' or t.op == 'idx':
        return 0
    if t.op == 'unpack':
        return 0 if t.args[0] in _BITS else None
    if t.op == 'find':
        return -1
    if t.op == 'bitand':
        los = [lo_of(x, depth) for x in t.args if isinstance(x, T)]
        return 0 if any(x is not None and x >= 0 for x in los) else None
    if t.op == 'ite' and depth < 8:
        x, y = lo_of(t.args[1], depth + 1), lo_of(t.args[2], depth + 1)
        return None if x is None or y is None else min(x, y)
    if t.op == 'poly' and depth < 8:
        s = 0
        for m, c in t.args[0]:
            if not m:
                s += c
                continue
            if c < 0 and not (len(m) == 1 and hi_of(m[0], depth + 1) is not None):
                return None
            if len(m) == 1:
                b = lo_of(m[0], depth + 1) if c > 0 else hi_of(m[0], depth + 1)
                if b is None:
                    return None
                s += c * b
            else:
                if any((lo_of(x, depth + 1) or -1) < 0 for x in m):
                    return None
        return s
    return None


def hi_of(t, depth=0):
    if is_num(t):
        return cval(t)
    if t.op == 'unpack' and t.args[0] in _BITS:
        return (1 << _BITS[t.args[0]]) - 1
    if t.op == 'bitand':
        his = [hi_of(x, depth) for x in t.args if isinstance(x, T) and (lo_of(x, depth) or 0) >= 0]
        his = [x for x in his if x is not None]
        return min(his) if his else None
    if t.op == 'ite' and depth < 8:
        x, y = hi_of(t.args[1], depth + 1), hi_of(t.args[2], depth + 1)
        return None if x is None or y is None else max(x, y)
    if t.op == 'poly' and depth < 8:
        s = 0
        for m, c in t.args[0]:
            if not m:
                s += c
            elif len(m) == 1:
                b = hi_of(m[0], depth + 1) if c > 0 else lo_of(m[0], depth + 1)
                if b is None:
                    return None
                s += c * b
            else:
                return None
        return s
    return None


def lt(a, b):
    if is_num(a) and is_num(b):
        return C(cval(a) < cval(b))
    if is_num(a) != is_num(b) or (a.op in ('unpack', 'len', 'poly', 'bitand') and
                                  b.op in ('unpack', 'len', 'poly', 'bitand')):
        la, ha, lb, hb = lo_of(a), hi_of(a), lo_of(b), hi_of(b)
        if ha is not None and lb is not None and ha < lb:
            return TRUE
        if la is not None and hb is not None and la >= hb:
            return FALSE
    if is_const(a) and is_const(b):
        try:
            return C(cval(a) < cval(b))
        except TypeError:
            pass
    # len(x) > 0
    if is_num(a) and cval(a) == 0 and b.op == 'len':
        return mk('truthy', b.args[0])
    if is_num(b) and cval(b) == 1 and a.op == 'len':
        return mk('not', mk('truthy', a.args[0]))
    if (numeric_kind(a) or numeric_kind(b)) and (is_num(a) or is_num(b) or (numeric_kind(a) and numeric_kind(b))):
        d = sub(a, b)
        if is_num(d):
            return C(cval(d) < 0)
        p = to_poly(d)
        if all(numeric_kind(x) for m in p for x in m):
            # canonical:  d < 0   written as lt(lhs, rhs) with positive terms on each side
            lhs = {m: c for m, c in p.items() if c > 0}
            rhs = {m: -c for m, c in p.items() if c < 0}
            return mk('lt', from_poly(lhs), from_poly(rhs))
    return mk('lt', a, b)


def le(a, b):
    return lnot(lt(b, a))


def eq(a, b):
    if a is b and a.op not in ('call',):
        if a.op == 'unpack' and a.args[0] in ('f', 'd'):
            return mk('eq', a, b)       # not true for NaN
        return TRUE
    if is_const(a) and is_const(b):
        return C(cval(a) == cval(b))
    if a.op in ('class', 'func') and b.op in ('class', 'func'):
        return FALSE
    if a.op == 'tuple' and b.op == 'tuple':
        return land(*[eq(x, y) for x, y in zip(a.args, b.args)]) if len(a.args) == len(b.args) else FALSE
    for x, y in ((a, b), (b, a)):
        if x is TRUE and y.op in BOOL_OPS:
            return y
        if x is FALSE and y.op in BOOL_OPS:
            return lnot(y)
        if is_num(x) and cval(x) == 0 and y.op == 'len':
            return lnot(truthy(y))
        if is_num(x) and y.op == 'len' and y.args[0].op == 'read' and y.args[0].args[2] is x:
            return lnot(lt(y, x))       # a read returns at most what was asked for
        if x.op == 'const' and cval(x) in ('', b'') and not isinstance(cval(x), bool) and is_container_like(y):
            return lnot(mk('truthy', y))
    for x, y in ((a, b), (b, a)):
        if is_num(x) and not is_const(y):
            l, h = lo_of(y), hi_of(y)
            if l is not None and cval(x) < l or h is not None and cval(x) > h:
                return FALSE
    if a.op == 'ite' and is_const(b):
        return _bite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and is_const(a):
        return eq(b, a)
    if a.nid > b.nid:
        a, b = b, a
    return mk('eq', a, b)


def contains(x, cont):
    """ x in cont """
    if cont.op == 'tuple':
        return lor(*[eq(x, y) for y in cont.args]) if cont.args else FALSE
    if is_const(x) and is_const(cont):
        try:
            return C(cval(x) in cval(cont))
        except TypeError:
            pass
    if is_const(cont) and isinstance(cval(cont), (tuple, frozenset)):
        return lor(*[eq(x, C(v)) for v in cval(cont)])
    if cont.op == 'range' and is_const(x) and all(is_const(a) and isinstance(cval(a), int) for a in cont.args) and cval(cont.args[2]):
        return C(cval(x) in range(*[cval(a) for a in cont.args]))
    if cont.op == 'keys':
        cont = cont.args[0]
    if cont.op == 'read' and is_const(x) and isinstance(cval(x), bytes):
        return lnot(lt(mk('find', cont, x), C(0)))
    return mk('in', x, cont)


# ---------------------------------------------------------------- strings / bytes

def strcat(parts):
    out = []
    for p in parts:
        ps = p.args if p.op == 'strcat' else (p,)
        for q in ps:
            if q.op == 'str' and is_const(q.args[0]):
                q = C(str(cval(q.args[0])))
            if q.op == 'str' and q.args[0].op in ('strcat', 'utf8'):
                q = q.args[0]
            if q.op == 'strcat':
                for r in q.args:
                    _push(out, r)
                continue
            _push(out, q)
    out = [p for p in out if not (is_const(p) and cval(p) == '')]
    if not out:
        return C('')
    if len(out) == 1 and out[0].op in ('const', 'strcat', 'utf8'):
        return out[0]
    return mk('strcat', *out)


def _push(out, q):
    if is_const(q) and not isinstance(cval(q), str):
        q = C(str(cval(q)))
    if q.op not in ('const', 'str', 'fmt', 'join', 'ite', 'utf8'):
        q = mk('str', q)
    if out and is_const(q) and is_const(out[-1]):
        out[-1] = C(cval(out[-1]) + cval(q))
    else:
        out.append(q)


def pyval(t):
    """ the value of a constant container (ValueError if it is not one) """
    if is_const(t):
        return cval(t)
    if t.op in ('list', 'setlit') and all(x.op == 'p_item' for x in t.args):
        v = [pyval(x.args[0]) for x in t.args]
        return v if t.op == 'list' else set(v)
    if t.op == 'tuple':
        return tuple(pyval(x) for x in t.args)
    if t.op == 'dict' and all(x.op == 'p_kv' for x in t.args):
        return {pyval(x.args[0]): pyval(x.args[1]) for x in t.args}
    raise ValueError(t.op)


def tostr(t):
    if is_const(t):
        return C(str(cval(t)))
    if t.op in ('list', 'tuple', 'dict'):
        try:
            return C(str(pyval(t)))
        except ValueError:
            pass
    if t.op == 'pathobj':
        return tostr(t.args[0])
    if t.op in ('strcat', 'utf8', 'fmt', 'str', 'join'):
        return t
    return mk('str', t)


PACK_SIZE = {'b': 1, 'B': 1, 'c': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8,
             'Q': 8, 'f': 4, 'd': 8, 'e': 2}


def bytescat(parts):
    out = []
    for p in parts:
        ps = p.args if p.op == 'bytes' else (p,)
        for q in ps:
            if is_const(q) and cval(q) == b'':
                continue
            if out and is_const(q) and is_const(out[-1]):
                out[-1] = C(bytes(cval(out[-1])) + bytes(cval(q)))
            else:
                out.append(q)
    if not out:
        return C(b'')
    if len(out) == 1 and out[0].op == 'const':
        return out[0]
    return mk('bytes', *out)


def bytes_len(t):
    if is_const(t):
        return C(len(cval(t)))
    if t.op == 'bytes':
        n = C(0)
        for p in t.args:
            n = add(n, bytes_len(p))
        return n
    if t.op == 'pack':
        return C(PACK_SIZE[t.args[0][0]])
    if t.op == 'ite':
        return ite(t.args[0], bytes_len(t.args[1]), bytes_len(t.args[2]))
    if t.op == 'slice':
        base, lo, hi = t.args
        if hi is not NONE and lo is not NONE:
            pass  # may be shorter than hi - lo
    return mk('len', t)


# ---------------------------------------------------------------- traversal

def walk(t):
    """ all sub-terms """
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.args)


def support(t):
    """ leaves (and opaque reads) a term depends on """
    if t._sup is None:
        out = set()
        for x in walk(t):
            if x.op in ('sym', 'lv', 'read', 'elem', 'ref', 'top', 'idx', 'query', 'raised', 'brk', 'col',
                        'mu'):
                out.add(x)
        t._sup = frozenset(out)
    return t._sup


def subst(t, mapping, memo=None):
    """ replace sub-terms (bottom up), re-normalising """
    if memo is None:
        memo = {}
    if t in mapping:
        return mapping[t]
    if t in memo:
        return memo[t]
    new = rebuild(t, lambda x: subst(x, mapping, memo))
    if new in mapping:
        new = mapping[new]
    memo[t] = new
    return new


def _map_arg(a, fn):
    if isinstance(a, T):
        return fn(a)
    if isinstance(a, tuple):
        return tuple(_map_arg(x, fn) for x in a)
    return a


def rebuild(t, fn):
    op = t.op
    if op in ('const', 'sym', 'ref', 'undef', 'top', 'func', 'class', 'ext'):
        return t
    if op == 'poly':
        return poly_map(t, fn)
    args = tuple(_map_arg(a, fn) for a in t.args)
    if args == t.args and all(x is y for x, y in zip(args, t.args) if isinstance(x, T)):
        return t
    return remake(op, args)


PURE_STR = ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'swapcase', 'casefold',
            'isalnum', 'isalpha', 'isdigit', 'isupper', 'islower', 'startswith', 'endswith', 'replace')


def remake(op, args):
    if op == 'ite':
        return ite(*args)
    if op == 'and':
        return land(*args)
    if op == 'or':
        return lor(*args)
    if op == 'not':
        return lnot(args[0])
    if op == 'lt':
        return lt(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'truthy':
        return truthy(args[0])
    if op == 'strcat':
        return strcat(args)
    if op == 'str':
        return tostr(args[0])
    if op == 'bytes':
        return bytescat(args)
    if op == 'len':
        return mklen(args[0])
    if op == 'slice':
        return mkslice(*args)
    if op == 'unpack':
        return mkunpack(*args)
    if op == 'in':
        return contains(*args)
    if op == 'strop' and len(args) == 3 and args[0] in PURE_STR and args[1].op == 'const' and \
            isinstance(args[1].args[0], (str, bytes)) and all(isinstance(a, T) and a.op == 'const' for a in args[2]):
        try:
            return C(getattr(cval(args[1]), args[0])(*[cval(a) for a in args[2]]))
        except Exception:  # pylint: disable=broad-except
            pass
    f = FOLDS.get(op)
    if f is not None and all(isinstance(a, T) and a.op == 'const' for a in args):
        try:
            r = f(*[cval(a) for a in args])
            return C(r) if not isinstance(r, list) else mk('list', *[mk('p_item', C(x)) for x in r])
        except Exception:  # pylint: disable=broad-except
            pass
    return mk(op, *args)


def _fold_is(a, b):
    if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        return a is b
    raise ValueError


FOLDS = {'startswith': lambda a, b: a.startswith(b), 'endswith': lambda a, b: a.endswith(b), 'find': lambda a, b: a.find(b),
         'rfind': lambda a, b: a.rfind(b), 'split': lambda a, *b: a.split(*b), 'replace': lambda a, b, c: a.replace(b, c),
         'bitand': lambda a, b: a & b, 'bitor': lambda a, b: a | b, 'rshift': lambda a, b: a >> b, 'lshift': lambda a, b: a << b,
         'is': _fold_is, 'mod': lambda a, b: a % b, 'floordiv': lambda a, b: a // b, 'abs': abs, 'int': int}


def mklen(x):
    if is_const(x) and hasattr(cval(x), '__len__'):
        return C(len(cval(x)))
    if x.op == 'tuple':
        return C(len(x.args))
    if x.op in ('bytes', 'pack'):
        return bytes_len(x)
    if x.op == 'ite':
        return ite(x.args[0], mklen(x.args[1]), mklen(x.args[2]))
    if x.op == 'slice' and x.args[2] is NONE and is_num(x.args[1]) and False:
        pass
    if x.op in ('keys', 'items', 'values'):
        return mklen(x.args[0])
    return mk('len', x)


def mkslice(base, lo, hi):
    """ base[lo:hi], lo/hi terms or NONE.  Nested slices of bytes are flattened. """
    if lo is NONE:
        lo = C(0)
    if is_const(base) and isinstance(cval(base), (str, bytes, tuple)) and is_num(lo) and (hi is NONE or is_num(hi)):
        return C(cval(base)[cval(lo):(None if hi is NONE else cval(hi))])
    if base.op == 'tuple' and is_num(lo) and (hi is NONE or is_num(hi)):
        return mk('tuple', *base.args[cval(lo):(None if hi is NONE else cval(hi))])
    if is_num(lo) and cval(lo) == 0 and hi is NONE:
        return base
    if base.op == 'ite':
        return ite(base.args[0], mkslice(base.args[1], lo, hi), mkslice(base.args[2], lo, hi))
    if base.op == 'slice':
        b, blo, bhi = base.args
        neg_lo = is_num(lo) and cval(lo) < 0
        neg_hi = hi is not NONE and is_num(hi) and cval(hi) < 0
        if not neg_lo and not neg_hi and not (is_num(blo) and cval(blo) < 0):
            nlo = add(blo, lo)
            if hi is NONE:
                return mk('slice', b, nlo, bhi)
            nhi = add(blo, hi)
            if bhi is NONE:
                return mk('slice', b, nlo, nhi)
            if is_num(nhi) and is_num(bhi):
                return mk('slice', b, nlo, C(min(cval(nhi), cval(bhi))))
            if nhi is bhi:
                return mk('slice', b, nlo, nhi)
    return mk('slice', base, lo, hi)


import struct as _struct  # noqa: E402
UNPACK_HOOK = [None]


def mkunpack(code, base, off):
    """ the scalar of struct code `code` at byte offset `off` of `base` """
    if base.op == 'slice':
        b, lo, hi = base.args
        if not (is_num(lo) and cval(lo) < 0):
            return mkunpack(code, b, add(lo, off))
    if base.op == 'ite':
        return ite(base.args[0], mkunpack(code, base.args[1], off), mkunpack(code, base.args[2], off))
    if base.op == 'const' and isinstance(cval(base), bytes) and is_num(off) and 0 <= cval(off):
        try:
            return C(_struct.unpack_from('<' + code, cval(base), cval(off))[0])
        except _struct.error:
            pass
    t = mk('unpack', code, base, off)
    if UNPACK_HOOK[0] is not None:
        r = UNPACK_HOOK[0](t)
        if r is not None:
            return r
    return t


def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return repr(t)
    if depth < 0:
        return '..'
    d = depth - 1
    op, a = t.op, t.args
    if op == 'const':
        return repr(a[0])
    if op == 'sym':
        return a[0]
    if op == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if op == 'sub':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if op == 'slice':
        return '%s[%s:%s]' % (show(a[0], d), show(a[1], d), '' if a[2] is NONE else show(a[2], d))
    if op == 'poly':
        out = []
        for m, c in a[0]:
            cs = str(c)
            ms = '*'.join(show(x, d) for x in m)
            out.append(cs if not m else (ms if c == 1 else cs + '*' + ms))
        return '(' + ' + '.join(out) + ')'
    if op == 'lt':
        return '(%s < %s)' % (show(a[0], d), show(a[1], d))
    if op == 'eq':
        return '(%s == %s)' % (show(a[0], d), show(a[1], d))
    if op == 'ite':
        return '(%s if %s else %s)' % (show(a[1], d), show(a[0], d), show(a[2], d))
    if op == 'and':
        return '(' + ' and '.join(show(x, d) for x in a) + ')'
    if op == 'or':
        return '(' + ' or '.join(show(x, d) for x in a) + ')'
    if op == 'not':
        return 'not ' + show(a[0], d)
    if op == 'unpack':
        return '%s@%s of %s' % (a[0], show(a[2], d), show(a[1], d))
    if op == 'lv':
        return '~%s' % (a[1],)
    if op == 'ref':
        return '&%s' % (a[0],)
    return '%s(%s)' % (op, ', '.join(show(x, d) for x in a))
