"""
Models of the builtins and library calls the repository uses.  Each maps abstract
arguments to a provenance term and records the effect; nothing is executed.
"""
import codecs
import posixpath
import re
import string
from .terms import *     # pylint: disable=wildcard-import,unused-wildcard-import
from . import terms as TM

# names too common to be resolved by method name alone
COMMON_METHODS = {'append', 'extend', 'get', 'items', 'keys', 'values', 'pop', 'update', 'add', 'read', 'write', 'seek',
                  'tell', 'close', 'open', 'execute', 'executemany', 'executescript', 'fetchone', 'fetchall', 'cursor',
                  'split', 'join', 'format', 'find', 'encode', 'decode', 'replace', 'strip', 'startswith', 'endswith',
                  'sort', 'copy', 'tolist', 'tobytes', 'astype', 'item', 'parse', 'group', 'message', 'save', 'load',
                  'delete', 'initialize', 'index', 'count', 'lower', 'upper', 'clear', 'remove', 'insert', 'reverse',
                  'commit', 'rollback', 'error', 'match', 'fullmatch', 'search', 'groups', 'title', 'create_topic'}

NATIVE_ALIGN = {'b': 1, 'B': 1, 'c': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 8, 'L': 8, 'q': 8, 'Q': 8,
                'f': 4, 'd': 8, 'x': 1, 's': 1, 'e': 2, 'n': 8, 'N': 8}


def parse_fmt(fmt):
    """ struct format -> (list of (code, offset, count), total) or None.  code carries the endianness when it matters """
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order, native = '@', True
    if fmt[:1] in '<>=!@' and fmt[:1]:
        order = fmt[0]
        fmt = fmt[1:]
        native = order == '@'
    big = order in '>!'
    out, off = [], 0
    for cnt, code in re.findall(r'\s*(\d*)([xcbB?hHiIlLqQfdespPnN])', fmt):
        n = int(cnt) if cnt else 1
        size = {'x': 1, 's': 1, 'p': 1}.get(code) or PACK_SIZE.get(code)
        if size is None:
            return None
        if native:
            size = {'l': 8, 'L': 8}.get(code, size)
            al = NATIVE_ALIGN.get(code, 1)
            off = (off + al - 1) // al * al
        if code == 'x':
            off += n
            continue
        if code in 'sp':
            out.append(('s', off, n))
            off += n
            continue
        for _ in range(n):
            name = code
            if code in 'lL' and size == 4:
                name = {'l': 'i', 'L': 'I'}[code]
            if code in 'lL' and size == 8:
                name = {'l': 'q', 'L': 'Q'}[code]
            if size > 1 and big:
                name = name + '>'
            out.append((name, off, size))
            off += size
    if re.sub(r'\s*\d*[xcbB?hHiIlLqQfdespPnN]\s*', '', fmt):
        return None
    return out, off


def kwt(it, st, kw):
    return tuple(sorted(((k, it.freeze(st, v)) for k, v in kw.items()), key=lambda x: x[0]))


def opaque(it, path, args, kw, node, st, emit=True):
    fa = tuple(it.freeze(st, a) for a in args)
    kk = kwt(it, st, kw)
    if emit:
        it.emit(st, 'call', node, C(path), *fa, mk('kwargs', kk))
    return mk('call', path, fa, kk)


def opaque_method(it, recv, name, args, kw, node, st, fr):
    fr_ = recv if recv.op == 'ref' else it.freeze(st, recv)
    fa = tuple(it.freeze(st, a) for a in args)
    kk = kwt(it, st, kw)
    it.emit(st, 'mcall', node, fr_, C(name), mk('tuple', *fa), mk('kwargs', kk))
    if fr_.op == 'attr' and fr_.args[0].op == 'ref' and False:
        pass
    return mk('mcall', fr_, name, fa, kk)


# ---------------------------------------------------------------- struct

def read_len(it, st, base):
    """ the exact length of a byte string when the current facts determine it, else None """
    if is_const(base):
        return len(cval(base))
    if base.op == 'read' and is_num(base.args[2]):
        n = cval(base.args[2])
        f = it.facts(st.pc)
        ln = mk('len', base)
        if is_const(it._simp(lt(ln, C(n)), f)) and not cval(it._simp(lt(ln, C(n)), f)):
            return n
        if cval_true(it._simp(eq(ln, C(n)), f)):
            return n
    if base.op == 'slice' and is_num(base.args[1]) and cval(base.args[1]) >= 0:
        n = read_len(it, st, base.args[0])
        if n is not None:
            hi = n if base.args[2] is NONE else cval(base.args[2]) if is_num(base.args[2]) else None
            if hi is not None and hi >= 0:
                return max(0, min(hi, n) - cval(base.args[1]))
    return None


def cval_true(t):
    return is_const(t) and cval(t) is True


def enough_bytes(it, st, base, off, size, which):
    n = read_len(it, st, base)
    if n is None:
        return False
    return n == size if which == 'unpack' else n - off >= size


def struct_call(it, which, fmt, args, kw, node, st, fr):
    """ fmt: term """
    if fmt.op == 'ite':
        return it.on_alts(fmt, st, lambda f, s: struct_call(it, which, f, args, kw, node, s, fr))
    pf = None
    if is_const(fmt) and isinstance(cval(fmt), (str, bytes)):
        pf = parse_fmt(cval(fmt))
    if which == 'calcsize':
        return C(pf[1]) if pf else mk('calcsize', fmt)
    if which == 'pack':
        it.may(st, 'struct.error', node, mk('packerr', fmt))
        if pf is None:
            return mk('packdyn', fmt, tuple(it.freeze(st, a) for a in args))
        return pack_known(it, pf, args, st)
    if which in ('unpack', 'unpack_from'):
        base = args[0] if args else kw.get('buffer', NONE)
        base = it.bytes_of(base, st)
        off = C(0)
        if which == 'unpack_from':
            off = args[1] if len(args) > 1 else kw.get('offset', C(0))
        if pf is None:
            it.may(st, 'struct.error', node, mk('unpackerr', base, off, fmt))
            return mk('unpackdyn', fmt, base, off)
        if not (is_num(off) and enough_bytes(it, st, base, cval(off), pf[1], which)):
            it.may(st, 'struct.error', node, mk('unpackerr', base, off, C(pf[1]), C(which)))
        if which == 'unpack' and base.op == 'read' and base.args[2] is C(pf[1]):
            it.unpacked.add(base)
        return mk('tuple', *[unpack1(c, base, add(off, C(o)), n) for c, o, n in pf[0]])
    if which == 'pack_into':
        it.may(st, 'struct.error', node, mk('packerr', fmt))
        buf, off = args[0], args[1]
        it.emit(st, 'pack_into', node, buf, off, *[it.freeze(st, a) for a in args[2:]])
        if buf.op == 'ref':
            st.cells[('S', buf)] = (('spread', mk('packed', it.freeze(st, buf), off, fmt,
                                                  tuple(it.freeze(st, a) for a in args[2:]))),)
        return NONE
    if which == 'iter_unpack':
        return mk('iter_unpack', fmt, it.bytes_of(args[0], st))
    return mk('call', 'struct.' + which, (fmt,) + tuple(it.freeze(st, a) for a in args), ())


def unpack1(c, base, off, n):
    if c == 's':
        return mkslice(base, off, add(off, C(n)))
    return mkunpack(c, base, off)


def pack_known(it, pf, args, st):
    codes, total = pf
    vals = []
    for a in args:
        if a.op == 'star':
            n = len(codes) - (len(args) - 1)
            vals.extend(mk('sub', a.args[0], C(i)) for i in range(n))
        else:
            vals.append(it.freeze(st, a))
    out, pos = [], 0
    for (c, off, size), v in zip(codes, vals):
        if off > pos:
            out.append(C(b'\0' * (off - pos)))
        out.append(pack1(c, v, size))
        pos = off + size
    if total > pos:
        out.append(C(b'\0' * (total - pos)))
    if len(vals) != len(codes):
        out.append(mk('top', 'pack arity'))
    return bytescat(out)


def pack1(c, v, size=None):
    if c == 's':
        return mk('packs', v, C(size))
    if is_const(v) and isinstance(cval(v), (int, bool)) and c[0] in 'bBhHiIqQ':
        n = PACK_SIZE[c[0]]
        try:
            return C(int(cval(v)).to_bytes(n, 'big' if c.endswith('>') else 'little', signed=c[0].islower()))
        except OverflowError:
            pass
    return mk('pack', c, v)


# ---------------------------------------------------------------- helpers

def collect(it, src, fn, node, st, fr, kind='list'):
    """ list ref with fn(elem) of every element of src """
    r = it.new_ref(kind, node, 'collect')
    key = ('S', r)
    st.cells[key] = ()
    cell = {}

    def bind(v, s):
        cell['v'] = v

    def body(s):
        x = fn(cell['v'], s)
        if x is not None and not s.dead:
            s.cells[key] = s.cells.get(key, ()) + (('item', x),)
    it.for_over(src, bind, body, st, fr, node)
    return r


KAPPA = mk('sym', 'κ')


def key_term(it, key, node, st, fr):
    """ canonical sort key as a function of κ """
    if key is NONE or key is None:
        return KAPPA
    s = State_(st)
    it.silent += 1
    it.sinks.append([])
    octx = it.ctx
    it.ctx = it.subctx(('key', it.nodeid(node)))
    v = it.call(key, [KAPPA], {}, node, s, fr)
    v = it.freeze(s, v)
    it.ctx = octx
    it.sinks.pop()
    it.silent -= 1
    return v


def State_(st):
    s = st.fork()
    return s


class SortKey:
    """ a value to sort by: constants, and tuples that are told apart by constants """

    def __init__(self, t):
        self.t = t

    def __lt__(self, o):
        x, y = self.t, o.t
        if x is y:
            return False
        if x.op == 'tuple' and y.op == 'tuple':
            for a, b in zip(x.args, y.args):
                if a is not b and not (is_const(a) and is_const(b) and cval(a) == cval(b)):
                    return SortKey(a) < SortKey(b)
            return len(x.args) < len(y.args)
        if not (is_const(x) and is_const(y)):
            raise ValueError
        return cval(x) < cval(y)


def concrete_keys(it, parts, key, node, st, fr):
    try:
        ks = [SortKey(p[1] if key is None or key is NONE else it.call(key, [p[1]], {}, node, st, fr)) for p in parts]
        sorted(ks)
        return ks
    except (ValueError, TypeError):
        return None


def make_sorted(it, src, key, rev, node, st, fr, into=None):
    parts = it.to_parts(src, st) if src.op != 'ref' or it.kind.get(src) != 'dict' else it.iter_parts(src, st)
    kt = key_term(it, key, node, st, fr)
    rv = rev if rev is not None else FALSE
    r = into if into is not None else it.new_ref('list', node, 'sorted')
    if all(p[0] == 'item' for p in parts) and len(parts) <= 1:
        st.cells[('S', r)] = tuple(parts)
    elif it.concrete and is_const(rv) and all(p[0] == 'item' for p in parts) and concrete_keys(it, parts, key, node, st, fr) is not None:
        ks = concrete_keys(it, parts, key, node, st, fr)
        order = sorted(range(len(parts)), key=lambda i: ks[i], reverse=bool(cval(rv)))
        st.cells[('S', r)] = tuple(parts[i] for i in order)
    elif all(p[0] == 'item' and is_const(p[1]) for p in parts) and kt is KAPPA and is_const(rv):
        try:
            vals = sorted([cval(p[1]) for p in parts], reverse=bool(cval(rv)))
            st.cells[('S', r)] = tuple(('item', C(v)) for v in vals)
        except TypeError:
            st.cells[('S', r)] = parts
    elif len(parts) == 1 and parts[0][0] == 'spread':
        st.cells[('S', r)] = (('spread', mk('sorted', parts[0][1], kt, rv)),)
    else:
        fz = mk('list', *[it.fz_part(st, p, 5, ()) for p in parts])
        st.cells[('S', r)] = (('perm', mk('sorted', fz, kt, rv), parts),)
    return r


def str_format(it, fmt, args, kw, st, node):
    parts, auto = [], 0
    try:
        fields = list(string.Formatter().parse(fmt))
    except ValueError:
        return mk('top', 'format')
    for lit, name, spec, conv in fields:
        if lit:
            parts.append(C(lit))
        if name is None:
            continue
        unknown = any(a.op == 'star' for a in args) or '**' in kw
        if not unknown and (name == '' and auto >= len(args) or name.isdigit() and int(name) >= len(args)) and it.fails(st, 'IndexError', node):
            return NONE
        if not unknown and re.fullmatch(r'[A-Za-z_]\w*', name) and name not in kw and it.fails(st, 'KeyError', node):
            return NONE
        if name == '':
            v = args[auto] if auto < len(args) else mk('top', 'format')
            auto += 1
        elif name.isdigit():
            v = args[int(name)] if int(name) < len(args) else mk('top', 'format')
        elif re.fullmatch(r'\w+', name):
            v = kw.get(name, mk('top', 'format'))
        else:
            v = mk('top', 'format')
        v = it.freeze(st, v)
        parts.append(mk('fmt', v, '!r') if conv == 'r' else it.fmt(tostr(v) if conv == 's' else v, (spec or '').lstrip(':') if spec == ':' else spec, st, node))
    return strcat(parts)


STR_FOLD = {'startswith', 'endswith', 'split', 'find', 'rfind', 'index', 'lower', 'upper', 'strip', 'lstrip', 'rstrip',
            'replace', 'title', 'capitalize', 'isdigit', 'isalnum', 'partition', 'rpartition', 'join', 'encode', 'decode',
            'count', 'hex', 'splitlines', 'zfill', 'ljust', 'rjust', 'removesuffix', 'removeprefix', 'rsplit', 'isalpha', 'isspace',
            'isascii', 'isupper', 'islower', 'istitle', 'isnumeric', 'isdecimal', 'isidentifier', 'isprintable', 'swapcase',
            'casefold', 'center', 'expandtabs', 'rindex'}


def fold_str(recv, name, args, kw):
    try:
        v = getattr(cval(recv), name)(*[cval(a) for a in args], **{k: cval(x) for k, x in kw.items()})
    except Exception:   # pylint: disable=broad-exception-caught
        return None
    if isinstance(v, list):
        return mk('tuple', *[C(x) for x in v])
    if isinstance(v, tuple):
        return mk('tuple', *[C(x) for x in v])
    return C(v)


def utf8(it, base, errors, node, st):
    base = it.bytes_of(base, st)
    if is_const(base) and isinstance(cval(base), bytes):
        return C(cval(base).decode('utf-8', 'replace'))
    if base.op == 'enc':
        return base.args[0]
    if errors is C('strict'):
        it.may(st, 'UnicodeDecodeError', node, base)
    elif errors.op == 'ite' or not is_const(errors):
        it.may(st, 'UnicodeDecodeError', node, base)
    return mk('utf8', base, errors)


def enc(s):
    if is_const(s) and isinstance(cval(s), str):
        return C(cval(s).encode('utf-8'))
    if s.op == 'strcat':
        return bytescat([enc(x) for x in s.args])
    if s.op == 'ite':
        return ite(s.args[0], enc(s.args[1]), enc(s.args[2]))
    if s.op == 'join' and s.args[0] is C('') and s.args[1].op == 'list':
        r = enc_parts(s.args[1].args)
        if r is not None:
            return bytescat(r)
    if s.op == 'str' and s.args[0].op not in ('poly', 'len', 'idx', 'unpack'):
        return mk('enc', s.args[0])
    return mk('enc', s)


def enc_parts(ps):
    out = []
    for p in ps:
        if p.op == 'p_item':
            out.append(enc(p.args[0]))
        elif p.op == 'p_each' and len(p.args) > 2:
            r = enc_parts(p.args[2])
            if r is None:
                return None
            out.append(mk('each', p.args[0], p.args[1], bytescat(r)))
        else:
            return None
    return out


def other_codec(b, codec=None, errors=None):
    """ known bytes in an encoding other than UTF-8 """
    if codec is None or not all(isinstance(x, T) and is_const(x) for x in (b, codec) + ((errors,) if errors is not None else ())):
        return None
    if not isinstance(cval(b), bytes) or str(cval(codec)).lower().replace('_', '-') not in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1', 'ascii', 'us-ascii', 'cp1252'):
        return None
    try:
        return C(cval(b).decode(cval(codec), cval(errors) if errors is not None else 'strict'))
    except (UnicodeDecodeError, LookupError):
        return None


def is_utf8(codec):
    return is_const(codec) and str(cval(codec)).lower().replace('_', '-') in ('utf-8', 'utf8')


def encode(s, codec):
    if is_utf8(codec):
        return enc(s)
    if is_const(s) and isinstance(cval(s), str) and cval(s).isascii():
        return enc(s)
    return mk('encode', s, codec)


# ---------------------------------------------------------------- files

def new_file(it, node, st, path, mode, tag=''):
    r = it.new_ref('file', node, tag)
    st.cells[('P', r)] = C(0)
    st.cells[('X', r, 'closed')] = FALSE
    st.cells[('X', r, 'mode')] = mode
    st.cells[('X', r, 'path')] = path
    return r


def is_file(it, v):
    return it.kind.get(v) == 'file'


def file_method(it, h, name, args, kw, node, st):
    pos = st.cells.get(('P', h), C(0))
    if name == 'read':
        n = args[0] if args else kw.get('size', NONE)
        if is_num(n) and cval(n) == -1:
            n = NONE
        t = mk('read', h, pos, n)
        it.emit(st, 'read', node, h, pos, n)
        if n is NONE and pos is C(0) and it.fs and it.fs.get(it.file_path.get(h)) is not None:
            st.cells[('P', h)] = mk('eof', h)
            return C(it.fs[it.file_path[h]])
        st.cells[('P', h)] = add(pos, mk('len', t))
        return t
    if name in ('readlines', '__iter__') and pos is C(0) and it.fs and it.fs.get(it.file_path.get(h)) is not None and not args:
        st.cells[('P', h)] = mk('eof', h)
        r = it.new_ref('list', node, 'lines')
        st.cells[('S', r)] = tuple(('item', C(x)) for x in it.fs[it.file_path[h]].splitlines(True))
        return r
    if name == 'readinto':
        buf = args[0]
        n = mklen(it.freeze(st, buf)) if buf.op == 'ref' else mk('len', buf)
        t = mk('read', h, pos, n)
        it.emit(st, 'read', node, h, pos, n)
        st.cells[('P', h)] = add(pos, mk('len', t))
        if buf.op == 'ref':
            st.cells[('S', buf)] = (('item', t),)
        return mk('len', t)
    if name == 'tell':
        return pos
    if name == 'seek':
        off = args[0] if args else kw.get('offset', C(0))
        wh = args[1] if len(args) > 1 else kw.get('whence', C(0))
        wh = {'os.SEEK_SET': C(0), 'io.SEEK_SET': C(0), 'os.SEEK_CUR': C(1), 'io.SEEK_CUR': C(1), 'os.SEEK_END': C(2),
              'io.SEEK_END': C(2)}.get(wh.args[0], wh) if wh.op == 'ext' else wh
        def target(wh):
            if is_num(wh) and cval(wh) in (0, 1, 2):
                return (off, add(pos, off), add(mk('eof', h), off))[cval(wh)]
            if wh.op == 'ite':
                return ite(wh.args[0], target(wh.args[1]), target(wh.args[2]))
            return mk('top', 'seek')
        new = target(wh)
        it.emit(st, 'seek', node, h, off, wh, new)
        st.cells[('P', h)] = new
        return new
    if name == 'write':
        v = args[0]
        b = it.bytes_of(v, st)
        b = it.freeze(st, b)
        it.emit(st, 'write', node, h, b)
        return mk('len', b)
    if name == 'writelines':
        parts = it.to_parts(args[0], st)
        if all(p[0] == 'item' for p in parts):
            for p in parts:
                it.emit(st, 'write', node, h, it.freeze(st, it.bytes_of(p[1], st)))
            return NONE
        it.emit(st, 'write', node, h, it.parts_bytes(parts))
        return NONE
    if name == 'close':
        it.close(h, st, node)
        return NONE
    if name in ('flush', 'truncate'):
        it.emit(st, name, node, h)
        return NONE
    if name in ('readable', 'writable', 'seekable'):
        return TRUE
    if name == '__enter__':
        return h
    return None


# ---------------------------------------------------------------- sqlite

def db_method(it, r, name, args, kw, node, st, fr):
    k = it.kind[r]
    if name in ('execute', 'executemany', 'executescript'):
        cur = r
        if k == 'conn':
            cur = it.new_ref('cursor', node, 'implicit')
            st.cells[('X', cur, 'conn')] = r
        conn = st.cells.get(('X', cur, 'conn'), r)
        sql = args[0] if args else kw.get('sql', NONE)
        params = args[1] if len(args) > 1 else kw.get('parameters', NONE)
        if name == 'executemany' and params is not NONE:
            pf = mk('list', *[it.fz_part(st, p, 6, ()) for p in it.to_parts(params, st)])
        else:
            pf = it.freeze(st, params)
        sql = it.freeze(st, sql)
        if it.sql_fail is not None and it.sql_fail(name, sql):
            it.raise_(st, 'sqlite3.Error', node)
            return NONE
        it.may(st, 'sqlite3.Error', node, sql)
        it.emit(st, 'sql', node, conn, sql, pf, C(name))
        q = mk('query', sql, pf)
        st.cells[('X', cur, 'last')] = q
        st.cells[('A', cur, 'lastrowid')] = mk('rowid', q, C(it.seqno(node)))
        st.cells[('A', cur, 'rowcount')] = mk('rowcount', q)
        return cur
    if name in ('fetchone', 'fetchall') and k == 'cursor' and it.row_hook is not None:
        v = it.row_hook(st.cells.get(('X', r, 'last'), mk('top', 'noquery')))
        if v is not None:
            return v if name == 'fetchone' else mk('list', mk('p_item', v))
    if name == 'fetchone' and k == 'cursor':
        return mk('row', st.cells.get(('X', r, 'last'), mk('top', 'noquery')))
    if name in ('fetchall',) and k == 'cursor':
        return mk('rows', st.cells.get(('X', r, 'last'), mk('top', 'noquery')))
    if name == 'cursor' and k == 'conn':
        c = it.new_ref('cursor', node)
        st.cells[('X', c, 'conn')] = r
        return c
    if name in ('commit', 'rollback') and k == 'conn':
        it.emit(st, name, node, r)
        return NONE
    if name == 'close':
        it.emit(st, 'dbclose', node, r)
        return NONE
    return None


# ---------------------------------------------------------------- methods

def method(it, recv, name, args, kw, node, st, fr):
    op = recv.op
    if it.meth_hook is not None:
        r = it.meth_hook(recv, name, args, kw, node, st)
        if r is not None:
            return r
    if op == 'ext':
        path = recv.args[0]
        if path.startswith('mod:'):
            return None
        return ext_call(it, path + '.' + name, args, kw, node, st, fr)
    if op == 'structobj':
        return struct_call(it, name, recv.args[0], args, kw, node, st, fr)
    if op == 'pathobj':
        return path_method(it, recv, name, args, kw, node, st, fr)
    if op == 'super':
        return None
    k = it.kind.get(recv)
    if k == 'file':
        r = file_method(it, recv, name, args, kw, node, st)
        if r is not None:
            return r
    if k in ('conn', 'cursor'):
        r = db_method(it, recv, name, args, kw, node, st, fr)
        if r is not None:
            return r
    if op == 'ref':
        if k in ('list', 'set', 'bytearray', 'bytesio'):
            return seq_method(it, recv, k, name, args, kw, node, st, fr)
        if k == 'dict':
            return dict_method(it, recv, name, args, kw, node, st, fr)
        if k == 'hash':
            if name == 'update':
                st.cells[('S', recv)] = st.cells.get(('S', recv), ()) + (('item', it.bytes_of(args[0], st)),)
                it.emit(st, 'hash_update', node, recv, it.bytes_of(args[0], st))
                return NONE
            if name in ('hexdigest', 'digest'):
                return mk(name, recv, it.parts_bytes(st.cells.get(('S', recv), ())))
        if k == 'exitstack':
            if name == 'enter_context':
                v = it.enter(args[0], st, node, fr)
                st.cells[('S', recv)] = st.cells.get(('S', recv), ()) + (('item', args[0]),)
                return v
            if name in ('callback', 'push'):
                st.cells[('S', recv)] = st.cells.get(('S', recv), ()) + (('item', mk('cb', args[0])),)
                return NONE
            if name == 'close':
                it.exit_(recv, st, node, False, fr)
                return NONE
        if k == 'inst':
            return None
    if op == 'vec':
        return vec.method(it, recv, name, args, kw, node, st, fr)
    if op in ('repat', 'rematch'):
        return vec.re_method(it, recv, name, args, kw, node, st, fr)
    if name == 'add_argument':
        return vec.add_argument(it, args, kw, node, st)
    if k == 'argparser':
        if name == 'parse_args':
            return mk('sym', 'args') if it.cli is None else vec.parse_args(it, args, kw, node, st, fr)
        if name in ('add_argument_group', 'add_mutually_exclusive_group'):
            return recv
        if name == 'error':
            it.raise_(st, 'SystemExit', node)
            return NONE
    if name == 'is_integer' and not args and is_num(recv):
        x = cval(recv)
        return C(isinstance(x, int) or x == x and abs(x) != float('inf') and float(x) == int(x))
    if name == 'bit_length' and not args and is_num(recv) and isinstance(cval(recv), int):
        return C(cval(recv).bit_length())
    if name == 'astype' and len(args) == 1 and is_num(recv) and not isinstance(cval(recv), bool):
        ty = str(cval(args[0])) if is_const(args[0]) else (str(args[0].args[0]).split('.')[-1] if args[0].op == 'ext' else '')
        if ty in ('float', 'float64', 'double', 'd', '<f8', 'f8'):
            return C(float(cval(recv)))
        if ty in ('int', 'int64', 'uint64', 'object') and isinstance(cval(recv), int):
            return recv
    if is_const(recv) and isinstance(cval(recv), (str, bytes)):
        return const_str_method(it, recv, name, args, kw, node, st, fr)
    if it.strlike(recv) or it.byteslike(recv, st) or op in ('sub', 'attr', 'elem', 'lv', 'sym', 'mcall', 'slice', 'call',
                                                            'dget', 'split', 'sorted', 'rows', 'callv', 'exc', 'ite'):
        return value_method(it, recv, name, args, kw, node, st, fr)
    if op == 'tuple':
        if name == 'index' or name == 'count':
            return mk('mcall', recv, name, tuple(args), ())
    if op in ('items', 'keys', 'values', 'objdict', 'dict'):
        return value_method(it, recv, name, args, kw, node, st, fr)
    if numeric_kind(recv) and name in ('to_bytes',):
        n = args[0] if args else kw.get('length', C(1))
        bo = args[1] if len(args) > 1 else kw.get('byteorder', C('big'))
        if is_num(n) and cval(n) in (1, 2, 4, 8):
            code = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}[cval(n)]
            if kw.get('signed') is TRUE:
                code = code.lower()
            return pack1(code + ('>' if bo is C('big') and cval(n) > 1 else ''), recv)
    return None


def const_str_method(it, recv, name, args, kw, node, st, fr):
    v = cval(recv)
    args = [it.freeze(st, a) if a.op == 'ref' and it.kind.get(a) == 'bytearray' else a for a in args]
    if isinstance(v, bytes) and name in ('join',):
        return it.parts_bytes(it.to_parts(args[0], st))
    if name == 'join':
        parts = it.to_parts(args[0], st)
        if all(p[0] == 'item' for p in parts):
            out = []
            for i, p in enumerate(parts):
                if i:
                    out.append(recv)
                out.append(it.freeze(st, p[1]))
            if any(is_const(x) and not isinstance(cval(x), str) for x in out) and it.fails(st, 'TypeError', node):
                return NONE
            return strcat(out)
        return mk('join', recv, mk('list', *[it.fz_part(st, p, 5, ()) for p in parts]))
    if name == 'format' and isinstance(v, str):
        return str_format(it, v, args, kw, st, node)
    if name in STR_FOLD and all(is_const(a) for a in args) and all(is_const(a) for a in kw.values()):
        r = fold_str(recv, name, args, kw)
        if r is not None:
            if it.concrete and r.op == 'tuple' and name in ('split', 'rsplit', 'splitlines'):
                l = it.new_ref('list', node, ('split', recv, tuple(args)))
                st.cells[('S', l)] = tuple(('item', x) for x in r.args)
                return l
            return r
        if name == 'index':
            it.may(st, 'ValueError', node)
    return value_method(it, recv, name, args, kw, node, st, fr)


def value_method(it, recv, name, args, kw, node, st, fr):
    """ methods of values known only by provenance """
    fa = [it.freeze(st, a) for a in args]
    if name == 'split' and set(kw) <= {'sep', 'maxsplit'}:
        fa = fa + [it.freeze(st, kw[k]) for k in ('sep', 'maxsplit') if k in kw]
        return mk('split', recv, *fa)
    if name in ('partition', 'rpartition') and len(fa) == 1:
        return mk('tuple', mk('sub', mk('split', recv, fa[0]) if name == 'partition' else mk('rpartition', recv, fa[0]),
                              C(0)), mk('partsep', recv, fa[0], name), mk('partrest', recv, fa[0], name))
    if name in ('find', 'rfind') and len(fa) == 1:
        return mk('find', recv, fa[0]) if name == 'find' else mk('rfind', recv, fa[0])
    if name == 'index' and len(fa) == 1 and (it.byteslike(recv, st) or it.strlike(recv)):
        r = mk('find', recv, fa[0])
        f = it.facts(st.pc)
        if f.get(lt(r, C(0))) is not False and f.get(mk('in', fa[0], recv)) is not True:
            it.may(st, 'ValueError', node)
        return r
    if name == 'startswith' and len(fa) == 1:
        if fa[0].op == 'tuple':
            return lor(*[mk('startswith', recv, x) for x in fa[0].args])
        if recv.op == 'strcat' and is_const(recv.args[0]) and is_const(fa[0]) and \
                len(cval(recv.args[0])) >= len(cval(fa[0])):
            return C(cval(recv.args[0]).startswith(cval(fa[0])))
        return mk('startswith', recv, fa[0])
    if name == 'endswith' and len(fa) == 1:
        if fa[0].op == 'tuple':
            return lor(*[mk('endswith', recv, x) for x in fa[0].args])
        return mk('endswith', recv, fa[0])
    if name == 'encode':
        return encode(recv, args[0] if args else kw.get('encoding', C('utf-8')))
    if name == 'decode':
        if not is_utf8(args[0] if args else kw.get('encoding', C('utf-8'))):
            return other_codec(recv, *(list(args) or [kw.get('encoding')])) or mk('decode', recv, *args)
        if it.byteslike(recv, st) or recv.op in ('slice', 'read', 'enc'):
            errors = args[1] if len(args) > 1 else kw.get('errors', C('strict'))
            return utf8(it, recv, errors, node, st)
        return mk('utf8', recv, args[1] if len(args) > 1 else kw.get('errors', C('strict')))
    if name == 'join' and len(args) == 1:
        parts = it.to_parts(args[0], st)
        return mk('join', recv, mk('list', *[it.fz_part(st, p, 5, ()) for p in parts]))
    if name == 'keys' and not args:
        return mk('keys', recv)
    if name == 'items' and not args:
        return mk('items', recv)
    if name == 'values' and not args:
        return mk('values', recv)
    if name == 'get' and 1 <= len(args) <= 2:
        return mk('dget', recv, fa[0], fa[1] if len(fa) > 1 else NONE)
    if name in ('append', 'add') and len(args) == 1:
        it.emit(st, 'append', node, recv, args[0])
        return NONE
    if name == 'extend' and len(args) == 1:
        it.emit(st, 'extend', node, recv, fa[0])
        return NONE
    if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'isalnum', 'isdigit') and \
            (it.strlike(recv) or recv.op in ('sub', 'attr', 'elem', 'dget', 'sym', 'slice')):
        return mk('strop', name, recv, tuple(fa))
    if name == 'replace' and len(fa) == 2:
        return mk('replace', recv, fa[0], fa[1])
    if name in ('insert', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'pop', 'popitem', 'discard'):
        it.emit(st, name, node, recv, *fa)
        return mk('mcall', recv, name, tuple(fa), kwt(it, st, kw))
    return None


def seq_method(it, r, k, name, args, kw, node, st, fr):
    key = ('S', r)
    parts = st.cells.get(key, ())
    if k == 'bytesio':
        if name == 'write':
            st.cells[key] = parts + (('item', it.bytes_of(args[0], st)),)
            return mk('len', it.bytes_of(args[0], st))
        if name in ('getvalue', 'getbuffer', 'read'):
            return it.parts_bytes(parts)
        return NONE
    if name == 'append':
        v = args[0]
        if k == 'bytearray':
            v = C(bytes([cval(v) & 255])) if is_num(v) else mk('pack', 'B', v)
        st.cells[key] = parts + (('item', v),)
        it.emit(st, 'append', node, r, v)
        return NONE
    if name == 'add' and k == 'set':
        if not any(p[0] == 'item' and p[1] is args[0] for p in parts):
            st.cells[key] = parts + (('item', args[0]),)
        it.emit(st, 'append', node, r, args[0])
        return NONE
    if name == 'extend' or (name == 'update' and k == 'set'):
        for a in args:
            it.seq_extend(r, a, st, node)
        return NONE
    if name == 'insert' and k == 'list':
        if is_num(args[0]) and cval(args[0]) == 0:
            st.cells[key] = (('item', args[1]),) + parts
        elif is_num(args[0]) and all(p[0] == 'item' for p in parts):
            l = list(parts)
            l.insert(cval(args[0]), ('item', args[1]))
            st.cells[key] = tuple(l)
        else:
            st.cells[key] = (('spread', mk('inserted', it.freeze(st, r), args[0], it.freeze(st, args[1]))),)
        it.emit(st, 'insert', node, r, args[0], args[1])
        return NONE
    if name == 'pop' and k in ('list', 'bytearray'):
        it.emit(st, 'pop', node, r, *args)
        i = cval(args[0]) if args and is_num(args[0]) else (-1 if not args else None)
        if i is not None and parts and all(p[0] == 'item' for p in parts) and -len(parts) <= i < len(parts):
            i %= len(parts)
            st.cells[key] = parts[:i] + parts[i + 1:]
            return parts[i][1]
        fz = it.freeze(st, r)
        if i == -1 and parts and parts[-1][0] == 'item':
            st.cells[key] = parts[:-1]
            return parts[-1][1]
        if not parts:
            it.may(st, 'IndexError', node)
        st.cells[key] = (('spread', mk('popped', fz, args[0] if args else C(-1))),)
        return mk('sub', fz, args[0] if args else C(-1))
    if name == 'pop' and k == 'set':
        fz = it.freeze(st, r)
        st.cells[key] = (('spread', mk('popped', fz)),)
        return mk('elem', 'pop', fz)
    if name in ('remove', 'discard'):
        it.emit(st, 'remove', node, r, args[0])
        if name == 'remove' and not (it.concrete and any(p[0] == 'item' and p[1] is args[0] for p in parts)):
            it.may(st, 'ValueError', node)
        if all(p[0] == 'item' and is_const(p[1]) for p in parts) and is_const(args[0]):
            out, done = [], False
            for p in parts:
                if not done and p[1] is args[0]:
                    done = True
                    continue
                out.append(p)
            st.cells[key] = tuple(out)
        else:
            st.cells[key] = (('spread', mk('removed', it.freeze(st, r), it.freeze(st, args[0]))),)
        return NONE
    if name == 'clear':
        st.cells[key] = ()
        it.emit(st, 'clear', node, r)
        return NONE
    if name == 'sort':
        make_sorted(it, r, kw.get('key', NONE), kw.get('reverse', FALSE), node, st, fr, into=r)
        kt = key_term(it, kw.get('key', NONE), node, st, fr)
        it.emit(st, 'sort', node, r, kt, kw.get('reverse', FALSE))
        return NONE
    if name == 'reverse':
        st.cells[key] = tuple(reversed(parts)) if all(p[0] == 'item' for p in parts) else \
            (('spread', mk('reversed', it.freeze(st, r))),)
        it.emit(st, 'reverse', node, r)
        return NONE
    if name == 'copy':
        n = it.new_ref(k, node, 'copy')
        st.cells[('S', n)] = parts
        return n
    if name in ('index', 'count') and it.concrete and all(p[0] == 'item' and is_const(p[1]) for p in parts) and is_const(args[0]) and len(args) == 1:
        vs = [cval(p[1]) for p in parts]
        if name == 'count':
            return C(vs.count(cval(args[0])))
        if cval(args[0]) not in vs:
            it.raise_(st, 'ValueError', node)
            return NONE
        return C(vs.index(cval(args[0])))
    if name in ('index', 'count'):
        return mk('mcall', it.freeze(st, r), name, tuple(it.freeze(st, a) for a in args), ())
    if k == 'bytearray':
        if name in ('find', 'startswith', 'endswith', 'decode', 'split', 'hex'):
            return value_method(it, it.freeze(st, r), name, args, kw, node, st, fr)
    if k == 'set' and name in ('union', 'intersection', 'difference', 'issubset', 'issuperset'):
        return mk('mcall', it.freeze(st, r), name, tuple(it.freeze(st, a) for a in args), ())
    if k == 'set' and name == 'difference_update':
        it.emit(st, 'remove', node, r, it.freeze(st, args[0]))
        return NONE
    return None


def dict_method(it, r, name, args, kw, node, st, fr):
    key = ('D', r)
    items = st.cells.get(key, ())
    allconst = all(p[0] == 'item' and is_const(p[1]) for p in items)
    if name in ('items', 'keys', 'values') and not args:
        return mk(name, r)
    if name == 'get':
        k = args[0]
        d = args[1] if len(args) > 1 else kw.get('default', NONE)
        for p in items:
            if p[0] == 'item' and p[1] is k:
                return p[2]
        if allconst and (is_const(k) or not items):
            return d
        if k.op == 'ite':
            return it.on_alts(k, st, lambda x, s: dict_method(it, r, 'get', [x, d], {}, node, s, fr))
        if allconst and len(items) <= 40 and items:
            if all(p[2].op in ('func', 'bound', 'class', 'ext') for p in items) or \
                    any(p[2].op in ('func', 'bound') for p in items):
                v = d
                for p in reversed(items):
                    v = ite(eq(k, p[1]), p[2], v)
                return v
            return mk('dget', it.freeze(st, r), k, it.freeze(st, d))
        c = it.in_(k, r, st)
        c = it.simp(st, c)
        if is_const(c):
            return mk('sub', r, k) if cval(c) else d
        return ite(c, mk('sub', r, k), d)
    if name == 'setdefault':
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        return dict_default(it, r, k, lambda s: d, node, st)
    if name == 'update':
        for a in args:
            if a.op == 'ref' and it.kind.get(a) == 'dict':
                for p in st.cells.get(('D', a), ()):
                    if p[0] == 'item':
                        it.setitem(r, p[1], p[2], st, node)
                    else:
                        st.cells[key] = st.cells.get(key, ()) + (p,)
                        it.emit(st, 'dupdate', node, r, it.freeze(st, a))
            else:
                parts = it.iter_parts(a, st)
                if all(p[0] == 'item' and p[1].op == 'tuple' for p in parts):
                    for p in parts:
                        it.setitem(r, p[1].args[0], p[1].args[1], st, node)
                else:
                    fz = it.freeze(st, a)
                    st.cells[key] = st.cells.get(key, ()) + (('spread', fz),)
                    it.emit(st, 'dupdate', node, r, fz)
        for k, v in kw.items():
            it.setitem(r, C(k), v, st, node)
        return NONE
    if name == 'pop':
        k = args[0]
        for p in items:
            if p[0] == 'item' and p[1] is k:
                it.del_item(r, k, st, node)
                return p[2]
        it.emit(st, 'delitem', node, r, k)
        if len(args) < 2:
            it.may(st, 'KeyError', node, mk('sub', r, k))
            return mk('sub', r, k)
        if allconst and is_const(k):
            return args[1]
        return ite(mk('in', k, r), mk('sub', r, k), args[1])
    if name == 'popitem':
        it.emit(st, 'popitem', node, r)
        if not items:
            it.may(st, 'KeyError', node, NONE)
        if items and items[-1][0] == 'item' and False:
            st.cells[key] = items[:-1]
            return mk('tuple', items[-1][1], items[-1][2])
        n = it.subctx(('popitem', it.nodeid(node)))
        return mk('tuple', mk('elem', 'pop%d' % n, mk('keys', r)), mk('elem', 'pop%d' % n, mk('values', r)))
    if name == 'clear':
        st.cells[key] = ()
        it.emit(st, 'clear', node, r)
        return NONE
    if name == 'copy':
        n = it.new_ref('dict', node, 'copy')
        st.cells[('D', n)] = items
        return n
    return None


def dict_default(it, r, k, mkdef, node, st):
    """ d[k], inserting a default when absent """
    for p in st.cells.get(('D', r), ()):
        if p[0] == 'item' and p[1] is k:
            return p[2]
    c = it.simp(st, it.in_(k, r, st))
    if is_const(c):
        if cval(c):
            return mk('sub', r, k)
        d = mkdef(st)
        it.setitem(r, k, d, st, node)
        return d
    pc0 = st.pc
    a, b = st.fork((c, True)), st.fork((c, False))
    d = mkdef(b)
    it.setitem(r, k, d, b, node)
    # keep the two arms' contents apart: the heap entry is the new default only when the key was absent
    it.merge_states(st, pc0, [(a.pc, a.cells), (b.pc, b.cells)])
    st.cells[('D', r)] = a.cells.get(('D', r), ())
    return ite(c, mk('sub', r, k), d)


# ---------------------------------------------------------------- calls by path

TYPE_NAMES = {'str', 'int', 'float', 'bytes', 'bytearray', 'list', 'dict', 'set', 'tuple', 'bool', 'frozenset'}


def isinst(it, v, cls, st):
    if cls.op == 'tuple':
        return lor(*[isinst(it, v, c, st) for c in cls.args])
    if v.op == 'ite':
        return lor(land(v.args[0], isinst(it, v.args[1], cls, st)), land(lnot(v.args[0]), isinst(it, v.args[2], cls, st)))
    name = cls.args[0].replace('builtins.', '') if cls.op == 'ext' else None
    if cls.op == 'class':
        cv = it.class_of(v, st)
        if cv is not None:
            return C(cls in it.mro(cv))
        if is_const(v) or it.strlike(v) or it.byteslike(v, st) or numeric_kind(v):
            return FALSE
    if name in TYPE_NAMES:
        if is_const(v):
            ty = {'str': str, 'int': int, 'float': float, 'bytes': bytes, 'bytearray': bytearray, 'list': list,
                  'dict': dict, 'set': set, 'tuple': tuple, 'bool': bool, 'frozenset': frozenset}[name]
            return C(isinstance(cval(v), ty))
        kd = it.kind.get(v)
        if kd in ('list', 'dict', 'set', 'bytearray'):
            return C(kd == name)
        if kd is not None:
            return FALSE
        if v.op == 'tuple':
            return C(name == 'tuple')
        if it.strlike(v):
            return C(name == 'str')
        if it.byteslike(v, st):
            return C(name == 'bytes')
        if v.op == 'unpack':
            if v.args[0][0] in 'fd':
                return C(name == 'float')
            if v.args[0][0] in 'bBhHiIqQ':
                return C(name == 'int')
    if is_const(v) and name and name.startswith('numpy'):
        return FALSE
    return mk('isinstance', v, cls)


NP_SCALARS = {'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'float32', 'float64'}


def np_scalar(name, v):
    """ a number in one of the types of numpy, or None if it does not fit """
    import math
    import struct
    if name == 'float64':
        return float(v)
    if name == 'float32':
        try:
            return struct.unpack('<f', struct.pack('<f', v))[0]
        except OverflowError:
            return None
    if isinstance(v, float) and not math.isfinite(v):
        return None
    v, bits = int(v), int(name.lstrip('uint'))
    lo, hi = (0, 1 << bits) if name[0] == 'u' else (-(1 << bits - 1), 1 << bits - 1)
    return v if lo <= v < hi else None


def unpath(v):
    return v.args[0] if v.op == 'pathobj' else v


PATH_METHODS = {'exists': 'os.path.exists', 'is_file': 'os.path.isfile', 'is_dir': 'os.path.isdir', 'resolve': 'os.path.realpath',
                'absolute': 'os.path.abspath', 'mkdir': 'os.makedirs', 'iterdir': 'os.listdir', 'unlink': 'os.remove', 'expanduser': 'os.path.expanduser'}


def path_attr(it, v, name, st, node, fr):
    """ pathlib.Path in terms of os.path """
    p = unpath(v)
    call = lambda f, x: ext_call(it, 'os.path.' + f, [x], {}, node, st, fr)
    if name == 'name':
        return call('basename', p)
    if name == 'parent':
        return mk('pathobj', call('dirname', p))
    if name in ('stem', 'suffix'):
        return it.index(call('splitext', call('basename', p)), C(0 if name == 'stem' else 1), st, node)
    return None


def path_method(it, v, name, args, kw, node, st, fr):
    p = unpath(v)
    if name in ('resolve', 'absolute', 'expanduser'):
        return mk('pathobj', ext_call(it, PATH_METHODS[name], [p], {}, node, st, fr))
    if name in PATH_METHODS:
        return ext_call(it, PATH_METHODS[name], [p] + args, kw, node, st, fr)
    if name == 'joinpath':
        return mk('pathobj', ext_call(it, 'os.path.join', [p] + [unpath(a) for a in args], {}, node, st, fr))
    if name == 'open':
        return ext_call(it, 'open', [p] + args, kw, node, st, fr)
    if name in ('read_text', 'read_bytes'):
        h = ext_call(it, 'open', [p, C('r' if name == 'read_text' else 'rb')], kw, node, st, fr)
        t = file_method(it, h, 'read', [], {}, node, st)
        file_method(it, h, 'close', [], {}, node, st)
        return t
    if name in ('with_suffix', 'with_name'):
        split = ext_call(it, 'os.path.splitext', [p], {}, node, st, fr)
        if name == 'with_suffix':
            return mk('pathobj', strcat([it.index(split, C(0), st, node), it.freeze(st, args[0])]))
    return None


def ext_call(it, path, args, kw, node, st, fr):
    if it.ext_hook is not None:
        r = it.ext_hook(path, args, kw, node, st, fr)
        if r is not None:
            return r
    if path.startswith(('os.', 'open', 'builtins.open', 'io.open', 'shutil.')) and any(a.op == 'pathobj' for a in args):
        args = [unpath(a) for a in args]
        if path == 'os.fspath':
            return args[0]
    h = EXT.get(path)
    if h is None and path.startswith('builtins.'):
        h = EXT.get(path[9:])
    if h is not None:
        r = h(it, args, kw, node, st, fr)
        if r is not None:
            return r
    name = path.split('.')[-1]
    if path.startswith('numpy.') and name in NP_SCALARS and len(args) == 1 and is_num(args[0]):
        v = np_scalar(name, cval(args[0]))
        return C(v) if v is not None else mk('call', path, (args[0],), ())
    if path.startswith('builtins.') and (name in __import__('sa.engine', fromlist=['x']).EXC_PARENT):
        return mk('call', path, tuple(it.freeze(st, a) for a in args), ())
    if path in ('struct.error',):
        return mk('call', path, tuple(it.freeze(st, a) for a in args), ())
    if path in ('str.join', 'builtins.str.join'):
        return method(it, args[0], 'join', args[1:], kw, node, st, fr)
    m = re.fullmatch(r'(?:builtins\.)?(str|bytes|list|dict|set|int|bytearray)\.(\w+)', path)
    if m and m.group(1) == 'int' and m.group(2) == 'from_bytes':
        return int_from_bytes(it, args, kw, node, st)
    if m and m.group(1) == 'dict' and m.group(2) == 'fromkeys':
        r = it.new_ref('dict', node, 'fromkeys')
        parts = it.iter_parts(args[0], st)
        d = args[1] if len(args) > 1 else NONE
        if all(p[0] == 'item' for p in parts):
            st.cells[('D', r)] = tuple(('item', p[1], d) for p in parts)
        else:
            st.cells[('D', r)] = (('spread', mk('fromkeys', it.freeze(st, args[0]), d)),)
        return r
    if m and args:
        return it.method(args[0], m.group(2), args[1:], kw, node, st, fr)
    return opaque(it, path, args, kw, node, st)


def int_from_bytes(it, args, kw, node, st):
    b = it.bytes_of(args[0], st)
    bo = args[1] if len(args) > 1 else kw.get('byteorder', C('big'))
    sg = kw.get('signed', FALSE)
    n = None
    if b.op == 'slice' and b.args[2] is not NONE:
        d = sub(b.args[2], b.args[1])
        if is_num(d):
            n = cval(d)
    elif b.op == 'read' and is_num(b.args[2]):
        n = cval(b.args[2])
    if n in (1, 2, 4, 8) and is_const(bo):
        code = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}[n]
        if sg is TRUE:
            code = code.lower()
        if cval(bo) == 'big' and n > 1:
            code += '>'
        return mkunpack(code, b, C(0))
    return mk('frombytes', b, bo, sg)


EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


@ext('len')
def _len(it, args, kw, node, st, fr):
    v = args[0]
    if v.op == 'vec':
        return C(len(v.args))
    if it.concrete and v.op == 'ref' and it.kind.get(v) == 'set' and all(p[0] == 'item' and is_const(p[1]) for p in st.cells.get(('S', v), ())):
        return C(len(set(st.cells.get(('S', v), ()))))
    if v.op == 'ite':
        return it.on_alts(v, st, lambda x, s: _len(it, [x], kw, node, s, fr))
    if v.op == 'ref':
        k = it.kind.get(v)
        if k in ('list', 'set', 'dict'):
            parts = st.cells.get(('D' if k == 'dict' else 'S', v), ())
            if all(p[0] == 'item' for p in parts) and k != 'set' and (k == 'list' or all(is_const(p[1]) for p in parts)):
                return C(len(parts))
            if k == 'list' and len(parts) == 1 and parts[0][0] == 'spread':
                return mklen(parts[0][1])
            if k == 'list':
                fz = it.freeze(st, v)
                return mk('len', fz)
            return mk('len', v)
        if k == 'bytearray':
            return bytes_len(it.freeze(st, v))
        m = it.find_method(v, '__len__', st)
        if m is not None:
            return it.call(m, [], {}, node, st, fr)
    return mklen(v)


@ext('print')
def _print(it, args, kw, node, st, fr):
    it.emit(st, 'print', node, mk('tuple', *[it.freeze(st, a) for a in args]), mk('kwargs', kwt(it, st, kw)))
    return NONE


def std_write(stream):
    def f(it, args, kw, node, st, fr):
        if not it.concrete:
            return None
        it.emit(st, 'write', node, mk('ext', 'sys.' + stream), it.freeze(st, args[0]))
        return NONE
    return f


ext('sys.stdout.write')(std_write('stdout'))
ext('sys.stderr.write')(std_write('stderr'))


@ext('open', 'io.open')
def _open(it, args, kw, node, st, fr):
    path = args[0] if args else kw.get('file', NONE)
    mode = args[1] if len(args) > 1 else kw.get('mode', C('r'))
    if is_const(mode) and not (isinstance(cval(mode), str) and set(cval(mode)) <= set('rwxabt+') and len(set(cval(mode))) == len(cval(mode)) and
                               len(set(cval(mode)) & set('rwxa')) == 1 and not {'t', 'b'} <= set(cval(mode))):
        it.raise_(st, 'ValueError', node)
        return NONE
    enc = args[3] if len(args) > 3 else kw.get('encoding', NONE)
    if is_const(enc) and cval(enc) is not None:
        try:
            codecs.lookup(cval(enc))
        except (LookupError, TypeError):
            it.raise_(st, 'LookupError', node)
            return NONE
        if is_const(mode) and 'b' in cval(mode):
            it.raise_(st, 'ValueError', node)
            return NONE
    it.may(st, 'OSError', node, path)
    r = new_file(it, node, st, it.freeze(st, path), mode)
    it.emit(st, 'open', node, r, it.freeze(st, path), mode, mk('kwargs', kwt(it, st, kw)))
    if is_const(path):
        it.file_path[r] = cval(path)
    return r


@ext('io.BytesIO', 'io.StringIO')
def _bytesio(it, args, kw, node, st, fr):
    r = it.new_ref('bytesio', node)
    st.cells[('S', r)] = (('item', it.bytes_of(args[0], st)),) if args else ()
    return r


@ext('struct.pack')
def _pack(it, args, kw, node, st, fr):
    return struct_call(it, 'pack', args[0], args[1:], kw, node, st, fr)


@ext('struct.unpack')
def _unpack(it, args, kw, node, st, fr):
    return struct_call(it, 'unpack', args[0], args[1:], kw, node, st, fr)


@ext('struct.unpack_from')
def _unpack_from(it, args, kw, node, st, fr):
    return struct_call(it, 'unpack_from', args[0], args[1:], kw, node, st, fr)


@ext('struct.pack_into')
def _pack_into(it, args, kw, node, st, fr):
    return struct_call(it, 'pack_into', args[0], args[1:], kw, node, st, fr)


@ext('struct.calcsize')
def _calcsize(it, args, kw, node, st, fr):
    return struct_call(it, 'calcsize', args[0], [], kw, node, st, fr)


@ext('struct.iter_unpack')
def _iter_unpack(it, args, kw, node, st, fr):
    return struct_call(it, 'iter_unpack', args[0], args[1:], kw, node, st, fr)


@ext('struct.Struct')
def _struct(it, args, kw, node, st, fr):
    return mk('structobj', args[0])


@ext('isinstance')
def _isinstance(it, args, kw, node, st, fr):
    return isinst(it, args[0], args[1], st)


@ext('hasattr')
def _hasattr(it, args, kw, node, st, fr):
    v, n = args[0], args[1]
    if v.op == 'ref' and is_const(n):
        if ('A', v, cval(n)) in st.cells:
            return TRUE
        c = it.class_of(v, st)
        if c is not None and it.class_attr(c, cval(n), st) is not None:
            return TRUE
    return mk('hasattr', v, n)


@ext('getattr')
def _getattr(it, args, kw, node, st, fr):
    v, n = args[0], args[1]
    if is_const(n):
        if len(args) > 2 and v.op == 'ref' and ('A', v, cval(n)) not in st.cells:
            c = it.class_of(v, st)
            if c is None or it.class_attr(c, cval(n), st) is None:
                return args[2]
        return it.getattr_(v, cval(n), st, node, fr)
    return mk('attrdyn', it.freeze(st, v), it.freeze(st, n))


@ext('setattr')
def _setattr(it, args, kw, node, st, fr):
    if is_const(args[1]):
        it.setattr_(args[0], cval(args[1]), args[2], st, node)
    else:
        it.emit(st, 'setattrdyn', node, args[0], it.freeze(st, args[1]), it.freeze(st, args[2]))
    return NONE


@ext('delattr')
def _delattr(it, args, kw, node, st, fr):
    if is_const(args[1]):
        st.cells.pop(('A', args[0], cval(args[1])), None)
        it.emit(st, 'delattr', node, args[0], args[1])
    return NONE


@ext('str')
def _str(it, args, kw, node, st, fr):
    if not args:
        return C('')
    if len(args) > 1 or 'encoding' in kw or 'errors' in kw:
        errors = args[2] if len(args) > 2 else kw.get('errors', C('strict'))
        if not is_utf8(args[1] if len(args) > 1 else kw.get('encoding', C('utf-8'))):
            return other_codec(args[0], *args[1:]) or mk('decode', args[0], *args[1:])
        return utf8(it, args[0], errors, node, st)
    return tostr(it.freeze(st, args[0]))


@ext('repr')
def _repr(it, args, kw, node, st, fr):
    return mk('fmt', it.freeze(st, args[0]), '!r')


@ext('format')
def _format(it, args, kw, node, st, fr):
    return it.fmt(it.freeze(st, args[0]), cval(args[1]) if len(args) > 1 and is_const(args[1]) else '', st, node)


@ext('bytes')
def _bytes(it, args, kw, node, st, fr):
    if not args:
        return C(b'')
    v = args[0]
    if len(args) > 1 or 'encoding' in kw:
        return encode(it.freeze(st, v), args[1] if len(args) > 1 else kw['encoding'])
    if is_num(v):
        return C(b'\0' * cval(v)) if cval(v) < 4096 else mk('top', 'bytes')
    if v.op == 'ref' and it.kind.get(v) == 'list':
        parts = st.cells.get(('S', v), ())
        if all(p[0] == 'item' for p in parts):
            return bytescat([pack1('B', p[1]) for p in parts])
        return mk('bytesof', it.freeze(st, v))
    return it.bytes_of(v, st)


@ext('bytearray')
def _bytearray(it, args, kw, node, st, fr):
    r = it.new_ref('bytearray', node)
    if args:
        b = _bytes(it, args, kw, node, st, fr)
        st.cells[('S', r)] = (('item', b),) if b is not C(b'') else ()
    else:
        st.cells[('S', r)] = ()
    return r


@ext('memoryview')
def _memoryview(it, args, kw, node, st, fr):
    return it.bytes_of(args[0], st)


@ext('list', 'tuple', 'frozenset')
def _list(it, args, kw, node, st, fr):
    r = it.new_ref('list', node)
    if not args:
        st.cells[('S', r)] = ()
        return r
    v = args[0]
    if v.op == 'ite':
        return it.on_alts(v, st, lambda x, s: _list(it, [x], kw, node, s, fr))
    if it.byteslike(v, st):
        st.cells[('S', r)] = (('spread', mk('bytelist', it.bytes_of(v, st))),)
    else:
        st.cells[('S', r)] = it.to_parts(v, st)
    return r


@ext('tuple')
def _tuple(it, args, kw, node, st, fr):
    if not args:
        return mk('tuple')
    v = args[0]
    parts = it.to_parts(v, st)
    if all(p[0] == 'item' for p in parts):
        return mk('tuple', *[p[1] for p in parts])
    if len(parts) == 1 and parts[0][0] == 'spread':
        return parts[0][1]
    return mk('astuple', it.freeze(st, v))


@ext('set')
def _set(it, args, kw, node, st, fr):
    r = it.new_ref('set', node)
    if it.concrete and args:
        parts = it.to_parts(args[0], st)
        if all(p[0] == 'item' and is_const(p[1]) for p in parts):
            st.cells[('S', r)] = tuple(dict.fromkeys(parts))
            return r
    st.cells[('S', r)] = it.to_parts(args[0], st) if args else ()
    return r


@ext('dict', 'collections.OrderedDict')
def _dict(it, args, kw, node, st, fr):
    r = it.new_ref('dict', node)
    st.cells[('D', r)] = ()
    if args:
        a = args[0]
        if a.op == 'ref' and it.kind.get(a) == 'dict':
            st.cells[('D', r)] = st.cells.get(('D', a), ())
        else:
            parts = it.iter_parts(a, st)
            if all(p[0] == 'item' and p[1].op == 'tuple' and len(p[1].args) == 2 for p in parts):
                for p in parts:
                    st.cells[('D', r)] = it.dict_put(st.cells[('D', r)], p[1].args[0], p[1].args[1])
            else:
                st.cells[('D', r)] = (('spread', it.freeze(st, a)),)
    for k, v in kw.items():
        st.cells[('D', r)] = it.dict_put(st.cells[('D', r)], C(k), v)
    return r


@ext('collections.defaultdict')
def _defaultdict(it, args, kw, node, st, fr):
    r = it.new_ref('dict', node, 'default')
    st.cells[('D', r)] = ()
    st.cells[('X', r, 'default')] = args[0] if args else NONE
    return r


@ext('int')
def _int(it, args, kw, node, st, fr):
    if not args:
        return C(0)
    v = args[0]
    if is_const(v):
        try:
            return C(int(cval(v), *[cval(a) for a in args[1:]]) if args[1:] else int(cval(v)))
        except Exception:   # pylint: disable=broad-exception-caught
            it.may(st, 'ValueError', node)
            return mk('top', 'int')
    if v.op == 'unpack' and v.args[0][0] in 'bBhHiIqQ?':
        return v
    if v.op in ('len', 'idx', 'find', 'int', 'floordiv_i'):
        return v
    if it.strlike(v) or v.op in ('slice', 'sub', 'split', 'strop'):
        it.may(st, 'ValueError', node, v)
    return mk('int', v)


@ext('float')
def _float(it, args, kw, node, st, fr):
    if is_const(args[0]):
        try:
            return C(float(cval(args[0])))
        except Exception:   # pylint: disable=broad-exception-caught
            return mk('top', 'float')
    return mk('float', args[0])


@ext('bool')
def _bool(it, args, kw, node, st, fr):
    return it.truth(args[0], st) if args else FALSE


@ext('chr')
def _chr(it, args, kw, node, st, fr):
    if is_num(args[0]) and 0 <= cval(args[0]) < 0x110000:
        return C(chr(cval(args[0])))
    if it.concrete and is_num(args[0]) and isinstance(cval(args[0]), int):
        it.raise_(st, 'ValueError', node)
        return NONE
    it.may(st, 'ValueError', node, mk('chrerr', args[0]))
    return mk('chr', args[0])


@ext('ord')
def _ord(it, args, kw, node, st, fr):
    if is_const(args[0]) and len(cval(args[0])) == 1:
        return C(ord(cval(args[0])))
    if args[0].op == 'chr':
        return args[0].args[0]
    return mk('ord', args[0])


@ext('abs')
def _abs(it, args, kw, node, st, fr):
    return C(abs(cval(args[0]))) if is_num(args[0]) else mk('abs', args[0])


@ext('round')
def _round(it, args, kw, node, st, fr):
    return mk('round', *args)


@ext('divmod')
def _divmod(it, args, kw, node, st, fr):
    a, b = args
    if is_num(a) and is_num(b) and cval(b):
        x, y = divmod(cval(a), cval(b))
        return mk('tuple', C(x), C(y))
    return mk('tuple', mk('floordiv', a, b), mk('mod', a, b))


def _minmax(it, args, kw, node, st, fr, mx):
    vals = list(args)
    if len(vals) == 1:
        parts = it.to_parts(vals[0], st)
        if parts and all(p[0] == 'item' for p in parts):
            vals = [p[1] for p in parts]
        elif not parts and 'default' not in kw and (vals[0].op in ('tuple', 'vec') or it.kind.get(vals[0]) in ('list', 'set')) and it.fails(st, 'ValueError', node):
            return NONE
        else:
            return mk('max' if mx else 'min', it.freeze(st, vals[0]), *([kw['default']] if 'default' in kw else []))
    if kw.get('key') and it.concrete:
        ks = concrete_keys(it, tuple(('item', v) for v in vals), kw['key'], node, st, fr)
        if ks:
            return vals[ks.index(max(ks) if mx else min(ks))]
    if kw.get('key'):
        return mk('call', 'max' if mx else 'min', tuple(it.freeze(st, v) for v in vals), kwt(it, st, kw))
    r = vals[0]
    for v in vals[1:]:
        r = ite(lt(r, v), v, r) if mx else ite(lt(v, r), v, r)
    return r


@ext('max')
def _max(it, args, kw, node, st, fr):
    return _minmax(it, args, kw, node, st, fr, True)


@ext('min')
def _min(it, args, kw, node, st, fr):
    return _minmax(it, args, kw, node, st, fr, False)


@ext('sum')
def _sum(it, args, kw, node, st, fr):
    parts = it.to_parts(args[0], st)
    if all(p[0] == 'item' for p in parts):
        r = args[1] if len(args) > 1 else C(0)
        for p in parts:
            r = add(r, p[1])
        return r
    return mk('sum', mk('list', *[it.fz_part(st, p, 5, ()) for p in parts]))


@ext('any')
def _any(it, args, kw, node, st, fr):
    parts = it.to_parts(args[0], st)
    if all(p[0] == 'item' for p in parts):
        return lor(*[it.truth(p[1], st) for p in parts])
    return mk('any', mk('list', *[it.fz_part(st, p, 5, ()) for p in parts]))


@ext('all')
def _all(it, args, kw, node, st, fr):
    parts = it.to_parts(args[0], st)
    if all(p[0] == 'item' for p in parts):
        return land(*[it.truth(p[1], st) for p in parts])
    return lnot(mk('any', mk('list', *[neg_part(it, st, p) for p in parts])))


def neg_part(it, st, p):
    if p[0] == 'item':
        return mk('p_item', lnot(it.truth(p[1], st)))
    if p[0] == 'each':
        return mk('p_each', p[1], p[2], tuple(neg_part(it, st, x) for x in p[3]))
    if p[0] == 'cond':
        return mk('p_cond', p[1], tuple(neg_part(it, st, x) for x in p[2]), tuple(neg_part(it, st, x) for x in p[3]))
    return mk('p_neg', it.fz_part(st, p, 5, ()))


@ext('range')
def _range(it, args, kw, node, st, fr):
    if len(args) == 1:
        return mk('range', C(0), args[0], C(1))
    return mk('range', args[0], args[1], args[2] if len(args) > 2 else C(1))


@ext('enumerate')
def _enumerate(it, args, kw, node, st, fr):
    v = args[0]
    start = args[1] if len(args) > 1 else kw.get('start', C(0))
    if v.op == 'ite':
        return it.on_alts(v, st, lambda x, s: mk('enumerate', x, start))
    return mk('enumerate', snapshot(it, v, node, st), start)


def snapshot(it, v, node, st):
    return v


@ext('zip')
def _zip(it, args, kw, node, st, fr):
    if any(a.op in ('func', 'bound') or is_const(a) and isinstance(cval(a), (int, float, type(None))) for a in args):
        it.raise_(st, 'TypeError', node)
        return NONE
    return mk('zip', *args)


@ext('reversed')
def _reversed(it, args, kw, node, st, fr):
    return mk('reversed', args[0])


@ext('sorted')
def _sorted(it, args, kw, node, st, fr):
    v = args[0]
    return make_sorted(it, v, kw.get('key', NONE), kw.get('reverse', FALSE), node, st, fr)


@ext('iter')
def _iter(it, args, kw, node, st, fr):
    if len(args) == 2:
        return mk('itercall', args[0], args[1])
    return args[0]


@ext('next')
def _next(it, args, kw, node, st, fr):
    v = args[0]
    parts = it.to_parts(v, st)
    d = args[1] if len(args) > 1 else None
    if parts and parts[0][0] == 'item':
        return parts[0][1]
    if not parts and d is not None:
        return d
    if d is None:
        it.may(st, 'StopIteration', node)
    fz = mk('list', *[it.fz_part(st, p, 5, ()) for p in parts])
    if d is None:
        return mk('sub', fz, C(0))
    return ite(mk('truthy', fz), mk('sub', fz, C(0)), d)


@ext('map')
def _map(it, args, kw, node, st, fr):
    f = args[0]
    if len(args) == 2:
        return collect(it, args[1], lambda v, s: it.call(f, [v], {}, node, s, fr), node, st, fr)
    return collect(it, mk('zip', *args[1:]),
                   lambda v, s: it.call(f, [it.index(v, C(i), s, node) for i in range(len(args) - 1)], {}, node, s, fr),
                   node, st, fr)


@ext('filter')
def _filter(it, args, kw, node, st, fr):
    f = args[0]
    r = it.new_ref('list', node, 'filter')
    key = ('S', r)
    st.cells[key] = ()
    cell = {}

    def bind(v, s):
        cell['v'] = v

    def body(s):
        v = cell['v']
        c = it.truth(v if f is NONE else it.call(f, [v], {}, node, s, fr), s)
        c = it.simp(s, c)
        if is_const(c):
            if cval(c):
                s.cells[key] = s.cells.get(key, ()) + (('item', v),)
            return
        pc0 = s.pc
        a, b = s.fork((c, True)), s.fork((c, False))
        a.cells[key] = a.cells.get(key, ()) + (('item', v),)
        it.merge_states(s, pc0, [(a.pc, a.cells), (b.pc, b.cells)])
    it.for_over(args[1], bind, body, st, fr, node)
    return r


@ext('type')
def _type(it, args, kw, node, st, fr):
    if len(args) == 1:
        c = it.class_of(args[0], st)
        if c is not None and args[0].op == 'ref':
            return c
        return mk('type', args[0])
    return None


@ext('callable')
def _callable(it, args, kw, node, st, fr):
    return C(True) if args[0].op in ('func', 'class', 'bound', 'ext') else mk('callable', args[0])


@ext('object')
def _object(it, args, kw, node, st, fr):
    return it.new_ref('inst', node, 'object')


@ext('vars')
def _vars(it, args, kw, node, st, fr):
    return mk('objdict', args[0])


@ext('property', 'staticmethod', 'classmethod')
def _deco(it, args, kw, node, st, fr):
    return args[0]


@ext('slice')
def _slice(it, args, kw, node, st, fr):
    if len(args) == 1:
        return mk('sliceobj', NONE, args[0], NONE)
    return mk('sliceobj', args[0], args[1], args[2] if len(args) > 2 else NONE)


@ext('contextlib.nullcontext')
def _nullctx(it, args, kw, node, st, fr):
    return mk('nullctx', args[0] if args else kw.get('enter_result', NONE))


@ext('contextlib.closing')
def _closing(it, args, kw, node, st, fr):
    return mk('closing', args[0])


@ext('contextlib.suppress')
def _suppress(it, args, kw, node, st, fr):
    return mk('suppress', *args)


@ext('contextlib.ExitStack')
def _exitstack(it, args, kw, node, st, fr):
    r = it.new_ref('exitstack', node)
    st.cells[('S', r)] = ()
    return r


@ext('copy.deepcopy', 'copy.copy')
def _copy(it, args, kw, node, st, fr):
    v = args[0]
    k = it.kind.get(v)
    if v.op == 'ref' and k in ('list', 'set', 'bytearray'):
        n = it.new_ref(k, node, 'copy')
        st.cells[('S', n)] = st.cells.get(('S', v), ())
        return n
    if v.op == 'ref' and k == 'dict':
        n = it.new_ref('dict', node, 'copy')
        st.cells[('D', n)] = st.cells.get(('D', v), ())
        return n
    if v.op == 'ref':
        return mk('copy', it.freeze(st, v))
    return v if v.op in ('const', 'enc', 'utf8', 'bytes', 'strcat') else mk('copy', v)


@ext('functools.partial')
def _partial(it, args, kw, node, st, fr):
    if kw:
        return None
    return mk('partial', *args)


@ext('functools.reduce')
def _reduce(it, args, kw, node, st, fr):
    parts = it.to_parts(args[1], st)
    if all(p[0] == 'item' for p in parts) and (parts or len(args) > 2):
        vals = [p[1] for p in parts]
        acc = args[2] if len(args) > 2 else vals.pop(0)
        for v in vals:
            acc = it.call(args[0], [acc, v], {}, node, st, fr)
        return acc
    return None


@ext('itertools.chain')
def _chain(it, args, kw, node, st, fr):
    r = it.new_ref('list', node, 'chain')
    out = ()
    for a in args:
        out += it.to_parts(a, st)
    st.cells[('S', r)] = out
    return r


@ext('itertools.chain.from_iterable')
def _chainfi(it, args, kw, node, st, fr):
    r = it.new_ref('list', node, 'chain')
    key = ('S', r)
    st.cells[key] = ()
    cell = {}

    def body(s):
        s.cells[key] = s.cells.get(key, ()) + it.to_parts(cell['v'], s)
    it.for_over(args[0], lambda v, s: cell.__setitem__('v', v), body, st, fr, node)
    return r


@ext('heapq.merge')
def _merge(it, args, kw, node, st, fr):
    """ merging lists that are all sorted by the key gives the sorted list of all entries """
    kt = key_term(it, kw.get('key', NONE), node, st, fr)
    rv = kw.get('reverse', FALSE)
    out, ordered = (), True
    for a in args:
        ps = it.to_parts(a, st)
        out += ps
        for p in ps if len(ps) > 1 or not ps else ps[:1]:
            s = p[1] if p[0] in ('perm', 'spread') else None
            ok = len(ps) == 1 and (p[0] == 'item' or isinstance(s, T) and s.op == 'sorted' and s.args[1] is kt and s.args[2] is rv)
            ordered = ordered and ok
    r = it.new_ref('list', node, 'merge')
    fz = mk('list', *[it.fz_part(st, p, 5, ()) for p in out])
    st.cells[('S', r)] = (('perm', mk('sorted' if ordered else 'merged', fz, kt, rv), out),)
    return r


@ext('itertools.count')
def _count(it, args, kw, node, st, fr):
    args = list(args) + [kw[k] for k in ('start', 'step') if k in kw]
    return mk('count', *args) if args else mk('count', C(0))


@ext('operator.itemgetter')
def _itemgetter(it, args, kw, node, st, fr):
    return mk('getter', 'item', *args)


@ext('operator.attrgetter')
def _attrgetter(it, args, kw, node, st, fr):
    return mk('getter', 'attr', *args)


@ext('sys.exit', 'exit', 'quit', 'os._exit')
def _exit(it, args, kw, node, st, fr):
    it.raise_(st, 'SystemExit', node, args[0] if args else None)
    return NONE


def _new_hash(it, alg, args, node, st):
    r = it.new_ref('hash', node)
    st.cells[('S', r)] = (('item', it.bytes_of(args[0], st)),) if args else ()
    it.emit(st, 'hash_new', node, r, alg)
    return r


for _p in ('sha256', 'sha384', 'sha224', 'md5', 'sha1', 'sha512', 'blake2b', 'blake2s', 'sha3_256', 'sha3_512'):
    def _hash(it, args, kw, node, st, fr, _p=_p):
        return _new_hash(it, C(_p), args, node, st)
    EXT['hashlib.' + _p] = _hash


@ext('hashlib.new')
def _hashnew(it, args, kw, node, st, fr):
    return _new_hash(it, it.freeze(st, args[0]) if args else NONE, args[1:], node, st)


@ext('hashlib.file_digest')
def _filedigest(it, args, kw, node, st, fr):
    h = args[0]
    alg = it.freeze(st, args[1]) if len(args) > 1 else NONE
    if alg.op == 'ext':
        alg = C(str(alg.args[0]).split('.')[-1])
    r = _new_hash(it, alg, (), node, st)
    pos = st.cells.get(('P', h), C(0))
    t = mk('read', h, pos, NONE)
    it.emit(st, 'read', node, h, pos, NONE)
    it.emit(st, 'hash_update', node, r, t)
    st.cells[('S', r)] = (('item', t),)
    st.cells[('P', h)] = add(pos, mk('len', t))
    return r


@ext('argparse.ArgumentParser')
def _argparser(it, args, kw, node, st, fr):
    r = it.new_ref('argparser', node)
    it.kind[r] = 'argparser'
    return r


@ext('sqlite3.connect')
def _connect(it, args, kw, node, st, fr):
    r = it.new_ref('conn', node)
    it.may(st, 'sqlite3.Error', node)
    it.emit(st, 'connect', node, r, it.freeze(st, args[0]) if args else NONE, mk('kwargs', kwt(it, st, kw)))
    return r


@ext('typing.cast')
def _cast(it, args, kw, node, st, fr):
    return args[1]


@ext('pathlib.Path', 'pathlib.PurePath')
def _pathobj(it, args, kw, node, st, fr):
    a = [unpath(it.freeze(st, x)) for x in args]
    if not a:
        return mk('pathobj', C('.'))
    return mk('pathobj', a[0] if len(a) == 1 else ext_call(it, 'os.path.join', a, {}, node, st, fr))


@ext('os.path.join')
def _ospathjoin(it, args, kw, node, st, fr):
    if args and all(is_const(a) and isinstance(cval(a), str) for a in args):
        return C(posixpath.join(*[cval(a) for a in args]))
    return mk('call', 'os.path.join', tuple(it.freeze(st, a) for a in args), ())


PATH_FOLD = {'os.path.basename': posixpath.basename, 'os.path.dirname': posixpath.dirname, 'os.path.splitext': posixpath.splitext,
             'os.path.realpath': lambda p: posixpath.normpath(p) if p.startswith('/PKG/') else None,
             'os.path.abspath': lambda p: posixpath.normpath(p) if p.startswith('/PKG/') else None}
for _p in ('os.path.basename', 'os.path.dirname', 'os.path.isdir', 'os.path.isfile', 'os.path.exists', 'os.path.realpath',
           'os.path.abspath', 'os.path.splitext', 'os.listdir', 'os.getcwd', 're.compile', 're.sub', 'numpy.dtype',
           'importlib.metadata.version', 'numpy.where', 'numpy.frombuffer', 'numpy.array_equal', 'numpy.arctan2',
           'numpy.arcsin', 'numpy.searchsorted', 'numpy.count_nonzero', 'numpy.argmax', 'numpy.flatnonzero',
           'numpy.nonzero', 'numpy.sin', 'numpy.cos', 'numpy.diff', 'json.loads', 'lzma.decompress', 'json.dumps'):
    def _pure(it, args, kw, node, st, fr, _p=_p):
        if _p in PATH_FOLD and len(args) == 1 and is_const(args[0]) and isinstance(cval(args[0]), str):
            v = PATH_FOLD[_p](cval(args[0]))
            if v is not None:
                return mk('tuple', *[C(x) for x in v]) if isinstance(v, tuple) else C(v)
        if _p == 'os.listdir' and len(args) == 1 and is_const(args[0]) and it.fs:
            r = it.new_ref('list', node, 'listdir')
            st.cells[('S', r)] = tuple(('item', C(posixpath.basename(f))) for f in sorted(it.fs) if posixpath.dirname(f) == cval(args[0]))
            return r
        if _p in ('os.path.exists', 'os.path.isfile') and len(args) == 1 and is_const(args[0]) and it.fs:
            return C(cval(args[0]) in it.fs)
        if _p == 'numpy.dtype' and args and args[0].op == 'ref':
            it.may(st, 'ValueError', node, mk('sym', 'repeated field name'))
        return opaque(it, _p, args, kw, node, st, emit=_p in ('json.loads', 'lzma.decompress'))
    EXT[_p] = _pure


from . import vec  # noqa: E402  (registers the array models)


def _nan_test(path, name, inner):
    def f(it, args, kw, node, st, fr):
        if it.nan is not None and len(args) == 1 and it.nan(args[0]):
            return C(name == 'isnan')
        if inner is not None:
            r = inner(it, args, kw, node, st, fr)
            if r is not None:
                return r
        return opaque(it, path, args, kw, node, st, emit=False)
    return f


for _m in ('math', 'numpy'):
    for _n in ('isnan', 'isfinite'):
        EXT['%s.%s' % (_m, _n)] = _nan_test('%s.%s' % (_m, _n), _n, EXT.get('%s.%s' % (_m, _n)))
