""" Rules about the writer: what a log written by write_ulog contains """
from .rules_data import *
from .rules_data import same
from .scen import write_run
from .view import _cache
from .rules_frame import pos_after  # noqa: F401

ULOG = mk('sym', 'ulog')
WRITE_TYPES = TYPES_I
KINDS = {'int': ('int32_t', 'i'), 'float': ('float', 'f'), 'nan': ('float', 'f')}


class WriteHook:
    """ the stored type of infos, the type of data fields and the declared fields are these constants """

    def __init__(self, info, field, decl):
        self.info, self.field, self.decl = info, field, decl
        self.pub = {v[0] for k, v in pubmap().items() if v[0]}
        self.fired = set()

    def __call__(self, t):
        if t.op == 'sub' and t.args[0].op == 'attr' and t.args[0].args[0] is ULOG and t.args[0].args[1] not in self.pub \
                and not is_num(t.args[1]):
            self.fired.add('info')
            return C(self.info)
        if t.op == 'attr' and t.args[1] == 'type_str':
            self.fired.add('field')
            return C(self.field)
        if t.op == 'elem' and t.args[1].op == 'attr' and t.args[1].args[1] == 'fields':
            self.fired.add('decl')
            return mk('tuple', *[C(x) for x in self.decl])
        return None


def flag_attrs():
    """ attribute -> offset of the flag bytes it holds """
    if 'flag_attrs' in _cache:
        return _cache['flag_attrs']
    v = mview('B')
    d = need(v.get('def'), 'no definitions section')
    out = {}
    for e in d.effects:
        if e.kind == 'setattr' and e.args[0] is S_SELF:
            val = v.value(d, e.args[2])
            xs = items_of(val) if isinstance(val, T) else None
            if xs and len(xs) == 8 and all(x.op == 'unpack' and is_num(x.args[2]) for x in xs):
                out[e.args[1] if isinstance(e.args[1], str) else cval(e.args[1])] = cval(xs[0].args[2])
    _cache['flag_attrs'] = out
    return out


def wrun(info='char[5]', field='float', decl=('float', 3, 'x'), kind='int', as_path=False):
    key = ('wrun', info, field, decl, kind, as_path)
    if key not in _cache:
        h = WriteHook(info, field, decl)
        r = write_run(as_path, h, kind, [(a, 8) for a in flag_attrs()])
        r.hook = h
        _cache[key] = r
    return _cache[key]


# ------------------------------------------------------------------ canonical names

def canon(t, memo=None):
    """ elements of a container under one name, whatever loop produced them """
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    n = rebuild(t, lambda x: canon(x, memo))
    memo[t] = n = _canon(n)
    return n


def unwrap(x):
    while x.op in ('sorted', 'list', 'tuple', 'copy', 'p_spread', 'spread', 'iter') and x.args and isinstance(x.args[0], T):
        if x.op in ('list', 'tuple') and len(x.args) > 1:
            break
        x = x.args[0]
    return x


MAPS = {'ulog.' + x for x in ('msg_info_dict', 'msg_info_dict_types', 'msg_info_multiple_dict', 'msg_info_multiple_dict_types', 'initial_parameters',
                               'default_parameters', 'message_formats', 'logged_messages_tagged')}


def _canon(n):
    if n.op == 'attr' and n.args[0] is ULOG:
        for pub, v in pubmap().items():
            if v[0] == n.args[1] and not pub.startswith('has_'):
                return mk('sym', 'ulog.' + pub)
        return n
    if n.op == 'elem':
        x = unwrap(n.args[1])
        if x.op == 'values':
            return mk('V', unwrap(x.args[0]))
        if x.op == 'keys':
            return mk('K', unwrap(x.args[0]))
        if x.op == 'items':
            y = unwrap(x.args[0])
            return mk('tuple', mk('K', y), mk('V', y))
        if x.op == 'sym' and x.args[0] in MAPS or x.op == 'V' and x.args[0].op == 'sym' and x.args[0].args[0] == 'ulog.default_parameters':
            return mk('K', x)               # iterating a dict gives its keys
        if x.op in ('V', 'K', 'E', 'sym', 'attr', 'sub'):
            return mk('E', x)
        return mk('elem', '', x) if x is not n.args[1] else n
    if n.op == 'sub':
        b, k = n.args[:2]
        if k.op in ('K',) and k.args[0] is b:
            return mk('V', b)
        if k.op == 'E' and k.args[0] is b:          # iterating a dict gives its keys
            return mk('V', b)
        if k.op == 'idx' and k.args[1] is mklen(b):
            return mk('E', b)
        if b.op == 'tuple' and is_num(k) and 0 <= cval(k) < len(b.args):
            return b.args[cval(k)]
    return n


# ------------------------------------------------------------------ the byte stream

class Part:
    def __init__(self, t, loops, pc, e):
        self.t, self.loops, self.pc, self.e = t, loops, pc, e


class Message:
    """ one message: length field, type byte, payload parts """


def atomic(t, out=None):
    out = [] if out is None else out
    if t.op == 'bytes':
        for x in t.args:
            atomic(x, out)
    elif t.op == 'bytesof':
        atomic(t.args[0], out)
    else:
        out.append(t)
    return out


def size_of(t):
    if t.op == 'bytes':
        return bytes_len(t)
    return bytes_len(t)


def fold(t):
    """ single-part byte strings and wrappers removed, everywhere """
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        n = rebuild(x, go)
        if n.op == 'bytes' and len(n.args) == 1:
            n = n.args[0]
        if n.op == 'bytes' and any(a.op == 'bytes' for a in n.args):
            n = bytescat(n.args)
        if n.op == 'pack' and n.args[0] == 'c' and n.args[1].op == 'pack' and n.args[1].args[0] in 'bB':
            n = n.args[1]
        if n.op == 'len' and n.args[0].op in ('bytes', 'pack', 'const'):
            n = mklen(n.args[0])
        if n.op == 'pack' and n.args[0] in ('b', 'B', 'h', 'H', 'i', 'I', 'q', 'Q', 'b<', 'B<') and is_const(n.args[1]) and \
                isinstance(cval(n.args[1]), int):
            from .models import pack1
            n = pack1(n.args[0], n.args[1])
        memo[x] = n
        return n
    return go(t)


def norm(t):
    return fold(canon(fold(t)))


def lvenvs(r, t, loops):
    """ substitutions for the loop-carried variables of t: first and later iterations """
    idxs = {x for x in walk(t) if x.op == 'idx' and x.args[0] in loops and not x.args[1].op == 'len' and not column(x.args[1])}

    def ends(x):
        i = r.it.loopinfo.get(x.args[0])
        if i is None or x.args[0] not in loops:
            return None
        for k, h in i['head'].items():
            if h is x:
                return i['init'].get(k), i['end'].get(k) if hasattr(i['end'], 'get') else None
        return None

    lvs = {x for x in walk(t) if x.op == 'lv' and ends(x)}
    if not lvs and not idxs:
        return [('', {})]
    inner = {}
    for x in lvs:
        depth = len(r.it.loopinfo[x.args[0]]['loops'])
        inner.setdefault(depth, set()).add(x)
    deepest = max(inner) if inner else 0
    out = []
    for phase in (0, 1):
        env = {x: C(phase) for x in idxs}
        alts = [env]
        for x in lvs:
            vals = [ends(x)[phase]] if x in inner[deepest] else list(ends(x))
            # a value that an enclosing loop carries: whatever that loop starts or goes on with
            final = []
            todo, seen = [v for v in vals if isinstance(v, T)], set()
            while todo:
                v = todo.pop()
                if v in seen:
                    continue
                seen.add(v)
                more = [y for y in walk(v) if y.op == 'lv' and y is not x and ends(y)]
                if v is x:
                    # what an enclosing loop keeps from the last round of this one
                    todo.extend(z for z in ends(x) if isinstance(z, T))
                    continue
                if more and len(seen) < 12:
                    for z in ends(more[0]):
                        if isinstance(z, T) and z is not more[0]:
                            todo.append(subst(v, {more[0]: z}))
                else:
                    final.append(v)
            if final:
                alts = [dict(a, **{}) | {x: v} for a in alts for v in final][:8]
        out.extend((('first', 'later')[phase], a) for a in alts)
    return out


def stream(r):
    """ the written parts in program order, grouped by the loops they are written in """
    groups = []
    for e in r.trace:
        if e.kind != 'write':
            continue
        loops = tuple(l[0] for l in e.loops)
        parts = [Part(x, loops, conj(e.pc), e) for x in atomic(e.args[1])]
        if groups and groups[-1][0] == loops:
            groups[-1][1].extend(parts)
        else:
            groups.append((loops, parts))
    return groups


def explode(groups):
    """ a loop inside one write that produces whole messages is a group of its own """
    out = []
    for loops, parts in groups:
        cur = []
        i = 0
        while i < len(parts):
            p = parts[i]
            if p.t.op == 'each' and (not cur or complete(cur)):
                if cur:
                    out.append((loops, cur))
                    cur = []
                body = p.t.args[-1]
                out.extend(explode([(loops + (p.t.args[0],), [Part(x, loops + (p.t.args[0],), p.pc, p.e)
                                                              for x in atomic(body)])]))
            else:
                cur.append(p)
            i += 1
        if cur:
            out.append((loops, cur))
    return out


def complete(parts):
    """ do these parts end at the end of a message """
    try:
        return messages(None, parts)[1] is None
    except Und:
        return False


def messages(r, parts, header=False, env=None):
    """ split a group into messages; returns (messages, error) """
    ts = [(norm(subst(p.t, env) if env else p.t), p) for p in parts]
    flat = []
    for t, p in ts:
        for x in atomic(t):
            if is_const(x) and isinstance(cval(x), (bytes, bytearray)) and flat and is_const(flat[-1][0]):
                flat[-1] = (C(bytes(cval(flat[-1][0])) + bytes(cval(x))), flat[-1][1])
            else:
                flat.append((x, p))
    out, i = [], 0

    def take(n):
        """ n constant bytes """
        nonlocal i
        if i >= len(flat) or not is_const(flat[i][0]):
            return None
        b = bytes(cval(flat[i][0]))
        if len(b) < n:
            return None
        if len(b) == n:
            i += 1
        else:
            flat[i] = (C(b[n:]), flat[i][1])
        return b[:n]
    if header:
        m = Message()
        m.typ, m.e = 'header', flat[0][1].e
        m.parts, size = [], C(0)
        while i < len(flat):
            if arith(size, C(16)) is True:
                break
            t = flat[i][0]
            if is_const(t) and is_num(size):
                want = 16 - cval(size)
                b = take(min(want, len(cval(t))))
                m.parts.append(C(b))
                size = add(size, C(len(b)))
                continue
            m.parts.append(t)
            size = add(size, size_of(t))
            i += 1
        m.size = size
        out.append(m)
    while i < len(flat):
        m = Message()
        m.e, m.pcs = flat[i][1].e, []
        t = flat[i][0]
        if is_const(t):
            b = take(3)
            if b is None:
                return out, ('header', m.e, show(t, 4))
            m.len, m.typ = C(int.from_bytes(b[:2], 'little')), chr(b[2])
        else:
            if t.op != 'pack' or t.args[0] not in ('H', 'H<'):
                return out, ('header' if not opaque(t) and t.op in ('pack', 'enc') else 'unknown', m.e, show(t, 4))
            m.len = t.args[1]
            i += 1
            b = take(1)
            if b is None:
                x = flat[i][0] if i < len(flat) else None
                if x is not None and x.op == 'pack' and x.args[0] == 'B' and is_num(x.args[1]):
                    b = bytes([cval(x.args[1])])
                    i += 1
                else:
                    return out, ('header', m.e, 'no type byte')
            m.typ = chr(b[0])
        m.parts, size = [], C(0)
        m.ps = []
        done = arith(size, m.len)
        while done is not True and i < len(flat):
            t = flat[i][0]
            if is_const(t) and is_num(size) and is_num(m.len):
                want = cval(m.len) - cval(size)
                if want <= 0:
                    break
                b = take(min(want, len(cval(t))))
                m.parts.append(C(b))
                size = add(size, C(len(b)))
                done = arith(size, m.len)
                continue
            m.parts.append(t)
            m.ps.append(flat[i][1])
            size = add(size, size_of(t))
            i += 1
            done = arith(size, m.len)
        m.size = size
        out.append(m)
        if done is not True:
            bad = opaque(size) or opaque(m.len)
            return out, ('unknown' if bad else 'length', m.e, 'length field %s, payload %s' % (show(m.len, 5), show(size, 5)))
    return out, None


# ------------------------------------------------------------------ expected payloads

def X(op, x):
    return mk(op, x)


def pub(n):
    return mk('sym', 'ulog.' + n)


def encs(*parts):
    from .models import enc
    return bytescat([C(p.encode()) if isinstance(p, str) else enc(p) for p in parts])


def keyed(typ, name):
    k = encs(typ + ' ', name)
    return [mk('pack', 'B', bytes_len(k)), k]


def value_bytes(typ, v):
    if typ in BASIC:
        return mk('pack', BASIC[typ][0], v)
    return encs(v) if typ.startswith('char[') else v


def expected_payload(where, r, info, field, decl, kind, phase):
    """ payload parts of one message made from an element of container `where` """
    P_, V, K, E = pub(where), None, None, None
    if where == 'message_formats':
        f = mk('V', P_)
        typ, n, name = decl
        d = '%s[%d] %s;' % (typ, n, name) if n else '%s %s;' % (typ, name)
        return 'F', [encs(mk('attr', f, 'name'), ':'), ('each', mk('attr', f, 'fields'), [C(d.encode())])]
    if where == 'msg_info_dict':
        return 'I', keyed(info, mk('K', P_)) + [value_bytes(info, mk('V', P_))]
    if where == 'msg_info_multiple_dict':
        return 'M', [C(b'\0' if phase == 'first' else b'\1')] + keyed(info, mk('K', P_)) + \
            [value_bytes(info, mk('E', mk('E', mk('V', P_))))]
    if where == 'initial_parameters':
        t, c = KINDS[kind]
        return 'P', keyed(t, mk('K', P_)) + [mk('pack', c, mk('V', P_))]
    if where == 'default_parameters':
        t, c = KINDS[kind]
        b = mk('V', P_)
        return 'Q', [mk('pack', 'B', mk('lshift', C(1), mk('K', P_)))] + keyed(t, mk('K', b)) + [mk('pack', c, mk('V', b))]
    if where == 'changed_parameters':
        t, c = KINDS[kind]
        e = mk('E', P_)
        return 'P', keyed(t, mk('sub', e, C(1))) + [mk('pack', c, mk('sub', e, C(2)))]
    if where == 'subscriptions':
        e = mk('E', pub('data_list'))
        return 'A', [mk('pack', 'B', mk('attr', e, 'multi_id')), mk('pack', 'H', mk('attr', e, 'msg_id')),
                     encs(mk('attr', e, 'name'))]
    if where == 'logged_messages':
        e = mk('E', P_)
        return 'L', [mk('pack', 'B', mk('attr', e, 'log_level')), mk('pack', 'Q', mk('attr', e, 'timestamp')),
                     encs(mk('attr', e, 'message'))]
    if where == 'logged_messages_tagged':
        e = mk('E', mk('V', P_))
        return 'C', [mk('pack', 'B', mk('attr', e, 'log_level')), mk('pack', 'H', mk('attr', e, 'tag')),
                     mk('pack', 'Q', mk('attr', e, 'timestamp')), encs(mk('attr', e, 'message'))]
    if where == 'dropouts':
        return 'O', [mk('pack', 'H', mk('attr', mk('E', P_), 'duration'))]
    if where == 'data_list':
        e = mk('E', P_)
        f = mk('E', mk('attr', e, 'field_data'))
        v = mk('sub', mk('sub', mk('attr', e, 'data'), mk('attr', f, 'field_name')), mk('sym', 'SAMPLE'))
        c = array_code(field)
        return 'D', [mk('pack', 'H', mk('attr', e, 'msg_id')),
                     ('each', mk('attr', e, 'field_data'), [mk('pack', c, v)])]
    raise Und(where)


ARRAY_CODE = {'int8': 'b', 'uint8': 'B', 'bool': '?', 'bool_': '?'}


def array_code(field):
    """ struct code that keeps every value of the array type the reader uses for a type of field """
    if 'array types' not in _cache:
        from .rules_data import UNIVERSES, reg_view, subscription, publish, dtype_list
        v, _ = reg_view(UNIVERSES[6])
        at = subscription(v, v.get('data'))[2]
        dt = publish(v).get('dtype')
        l = dtype_list(at.get(dt))[0] if isinstance(dt, str) else None
        _cache['array types'] = dict(zip(BASIC, [t for _, t in l[1:]])) if l and len(l) == len(BASIC) + 1 else {}
    c = BASIC[field][0]
    return ARRAY_CODE.get(_cache['array types'].get(field), 'b') if c in 'c?' else c


WRITERS = ['message_formats', 'msg_info_dict', 'msg_info_multiple_dict', 'initial_parameters', 'default_parameters',
           'subscriptions', 'data_list', 'logged_messages', 'logged_messages_tagged', 'dropouts', 'changed_parameters']
OF_TYPE = {'F': ['message_formats'], 'I': ['msg_info_dict'], 'M': ['msg_info_multiple_dict'],
           'P': ['initial_parameters', 'changed_parameters'], 'Q': ['default_parameters'], 'A': ['subscriptions'],
           'D': ['data_list'], 'L': ['logged_messages'], 'C': ['logged_messages_tagged'], 'O': ['dropouts']}
STAMP = {'data_list': lambda: mk('sub', mk('sub', mk('attr', mk('E', pub('data_list')), 'data'), C('timestamp')),
                                 mk('sym', 'SAMPLE')),
         'logged_messages': lambda: mk('attr', mk('E', pub('logged_messages')), 'timestamp'),
         'logged_messages_tagged': lambda: mk('attr', mk('E', mk('V', pub('logged_messages_tagged'))), 'timestamp'),
         'dropouts': lambda: mk('attr', mk('E', pub('dropouts')), 'timestamp'),
         'changed_parameters': lambda: mk('sub', mk('E', pub('changed_parameters')), C(0))}


def column(x):
    """ one column of samples """
    if x.op in ('sub', 'V', 'E') and isinstance(x.args[0], T):
        c = x.args[0]
        return c.op == 'attr' and c.args[1] == 'data'
    return x.op == 'elem' and x.args[1].op in ('values', 'items') and x.args[1].args[0].op == 'attr' and x.args[1].args[0].args[1] == 'data'


def sample_index(t):
    """ the position in a dataset: idx over the length of one of its columns """
    m = {}
    for x in walk(t):
        if x.op == 'idx' and isinstance(x.args[1], T) and x.args[1].op == 'len':
            c = x.args[1].args[0]
            if c.op == 'sub' and c.args[0].op == 'attr' and c.args[0].args[1] == 'data':
                m[x] = mk('sym', 'SAMPLE')
        if x.op == 'idx' and isinstance(x.args[1], T) and column(x.args[1]):
            m[x] = mk('sym', 'SAMPLE')
        # iterating a column itself
        if x.op == 'E' and x.args[0].op == 'sub' and x.args[0].args[0].op == 'attr' and x.args[0].args[0].args[1] == 'data':
            m[x] = mk('sub', x.args[0], mk('sym', 'SAMPLE'))
    return subst(t, m) if m else t


def normal_parts(parts):
    out = []
    for t in parts:
        t = sample_index(t)
        for x in atomic(t):
            if x.op == 'pack' and x.args[0].endswith('<'):
                x = mk('pack', x.args[0][0], x.args[1])
            if out and is_const(x) and is_const(out[-1]):
                out[-1] = C(bytes(cval(out[-1])) + bytes(cval(x)))
            else:
                out.append(x)
    return out


def flag_value(x, want):
    """ a constant that depends on the stored entries """
    from .models import pack1
    if x.op != 'ite':
        if is_const(x):
            return cval(x) == cval(want) or bytes([cval(x)]) == cval(want) if isinstance(cval(x), (int, bool)) and isinstance(
                cval(want), bytes) else cval(x) == cval(want)
        return None
    if any(y.op in ('lv', 'call', 'callv', 'top', 'brk', 'isinstance', 'idx') for y in walk(x.args[0])):
        return None
    a, b = flag_value(x.args[1], want), flag_value(x.args[2], want)
    return False if a is False or b is False else (True if a and b else None)


def bytes_same(actual, exp):
    """ True / False / None, text """
    a = normal_parts(actual)
    e = []
    for x in exp:
        if isinstance(x, tuple):
            e.append(x)
            continue
        for y in atomic(x):
            if e and not isinstance(e[-1], tuple) and is_const(y) and is_const(e[-1]):
                e[-1] = C(bytes(cval(e[-1])) + bytes(cval(y)))
            else:
                e.append(y)
    txt = ' '.join(show(x, 6) for x in a)[:300]
    if len(a) != len(e):
        return (None if any(opaque(x) or x.op in ('ite', 'join', 'top', 'packdyn') for x in a) else False), txt
    for x, y in zip(a, e):
        if isinstance(y, tuple):
            if x.op != 'each':
                return (None if opaque(x) or x.op in ('join', 'ite') else False), txt
            it = unwrap(canon(x.args[1])) if isinstance(x.args[1], T) else None
            if it is not y[1]:
                if it is not None and it.op == 'slice' and it.args[0] is y[1]:
                    return False, 'only part of the fields: ' + txt
                return None, txt
            v, tx = bytes_same(atomic(x.args[-1]), y[2])
            if v is not True:
                return v, tx
            continue
        if x is y:
            continue
        if x.op == 'pack' and y.op == 'pack' and x.args[0] == y.args[0]:
            if x.args[1].op == 'ite' and is_const(y.args[1]):
                return flag_value(x.args[1], y.args[1]), txt
            v = arith(x.args[1], y.args[1]) if x.args[1].op in ('poly', 'len', 'const') or y.args[1].op == 'poly' else None
            if v is True:
                continue
            if v is None:
                v, _ = same(x.args[1], y.args[1])
            if v is not True:
                return (None if v is None or opaque(x) else False), txt
            continue
        if x.op == 'ite' and is_const(y):
            return flag_value(x, y), txt
        unknown = opaque(x) or x.op in ('ite', 'top', 'join', 'packdyn', 'each', 'lv', 'idx')
        return (None if unknown else False), txt
    return True, txt


# ------------------------------------------------------------------ the rules

def all_groups(r):
    g = explode(stream(r))
    if not g:
        raise Und('nothing is written')
    return g


def specs():
    fl = list(BASIC)
    decls = [('float', 3, 'x'), ('uint8_t', 0, 'y'), ('foo', 12, 'z'), ('foo', 1, 'w')]
    for i, info in enumerate(WRITE_TYPES):
        yield dict(info=info, field=fl[i % len(fl)], decl=decls[i % len(decls)], kind=('float', 'int', 'nan')[i % 3])


def source(msg):
    """ the container a message is made from """
    names = {x.args[0][5:] for p in msg.parts for x in walk(p) if x.op == 'sym' and str(x.args[0]).startswith('ulog.')}
    return names


def written(r):
    """ (message, phase, group index) of everything that is written """
    out = []
    errs = []
    for gi, (loops, parts) in enumerate(all_groups(r)):
        whole = mk('bytes', *[p.t for p in parts])
        for phase, env in lvenvs(r, whole, loops):
            ms, err = messages(r, parts, gi == 0, env)
            for m in ms:
                m.phase, m.gi, m.loops, m.group = phase, gi, loops, parts
                out.append(m)
            if err:
                errs.append(err)
    return out, errs


def wname(e):
    return where_ev(e)


@guard
def file_header(R):
    """ the file starts with the magic, the version and the start time, then the flags message """
    r = wrun()
    ms, errs = written(r)
    h = ms[0]
    magic = b'ULog\x01\x12\x35'
    ver = None
    p = normal_parts(h.parts)
    v = arith(h.size, C(16))
    R.decide(v, 'header.size', 'the header has 16 bytes', wname(h.e), 'the header has %s bytes' % show(h.size, 4), 'header.size')
    ok = len(p) == 3 and p[0] is C(magic) and p[1].op == 'pack' and p[1].args[0] == 'B' and p[2].op == 'pack'
    if not ok and len(p) == 2 and is_const(p[0]) and bytes(cval(p[0]))[:7] == magic:
        R.bad('header.layout', 'the version byte written is a constant, not that of the log', wname(h.e), 'header.version')
        return
    R.decide(True if ok else (None if any(opaque(x) for x in p) else False), 'header.layout',
             'the header is magic, version, start time', wname(h.e), 'the header is %s' % ' '.join(show(x, 4) for x in p), 'header.layout')
    if not ok:
        return
    # the version attribute: the one the reader fills from byte 7
    ver = version_attr()
    a = p[1].args[1]
    if ver is not None:
        R.decide(a is mk('attr', ULOG, ver), 'header.version', 'the version of the log is written', wname(h.e),
                 '%s is written as version' % show(a, 4), 'header.version')
    q = canon(p[2])
    R.decide(q.args[0] in ('Q', 'Q<') and q.args[1] is pub('start_timestamp') or None if opaque(q) else
             q.args[0] in ('Q', 'Q<') and q.args[1] is pub('start_timestamp'), 'header.start', 'the start time is written',
             wname(h.e), '%s is written as start time' % show(q, 5), 'header.start')


def version_attr():
    r = run_ctor(['I'])
    for e in r.trace:
        if e.kind == 'setattr' and isinstance(e.args[2], T):
            v = e.args[2]
            if any(x.op == 'unpack' and x.args[0] == 'B' and x.args[2] is C(7) or
                   x.op == 'sub' and x.args[1] is C(7) for x in walk(v)) and e.args[0] is r.self:
                return e.args[1] if isinstance(e.args[1], str) else cval(e.args[1])
    return None


def support_attrs(c):
    return [x for x in walk(c) if x.op in ('sym', 'lv', 'read', 'elem', 'ref', 'top', 'query', 'raised', 'brk', 'attr') and x is not ULOG]


def splice(t):
    """ lists without the conditions that are decided """
    for x in list(walk(t)):
        if x.op == 'list' and any(p.op == 'p_cond' and is_const(p.args[0]) for p in x.args):
            out = []
            for p in x.args:
                if p.op == 'p_cond' and is_const(p.args[0]):
                    out += (p.args[1] if truthy(p.args[0]) is True or p.args[0] is TRUE else p.args[2])
                else:
                    out.append(p)
            t = subst(t, {x: mk('list', *out)})
    if t.op == 'sub' and t.args[0].op == 'list' and is_num(t.args[1]) and all(p.op == 'p_item' for p in t.args[0].args):
        xs = t.args[0].args
        k = cval(t.args[1])
        if k < len(xs):
            return xs[k].args[0]
    return t


@guard
def flag_bits(R):
    """ the second thing in the file are the flags; appended data is no longer announced """
    r = wrun()
    ms, errs = written(r)
    fl = flag_attrs()
    if len(ms) < 2 or sorted(fl.values()) != [0, 8]:
        raise Und('flags not recognised')
    m = ms[1]
    R.decide(m.typ == 'B', 'flags.first', 'the flags message follows the header', wname(m.e),
             'message %s follows the header' % name_of(m.typ), 'flags.first')
    if m.typ != 'B':
        return
    p = normal_parts(m.parts)
    inv = {o: a for a, o in fl.items()}
    n = arith(m.len, C(40))
    R.decide(n, 'flags.size', 'the flags message has 40 bytes', wname(m.e), 'the flags message has %s bytes' % show(m.len, 4), 'flags.size')
    if not (len(p) == 17 and all(x.op == 'pack' and x.args[0] == 'B' for x in p[:16])):
        z = p[-1]
        if is_const(z) and len(p) == 17 and any(cval(z)):
            R.bad('flags.offsets', 'appended offsets %r are written' % cval(z), wname(m.e), 'flags.offsets')
        R.decide(None if any(opaque(x) for x in p) or len(p) < 3 else False, 'flags.layout', 'two times eight flag bytes',
                 wname(m.e), 'the flags message is %s' % ' '.join(show(x, 3) for x in p)[:200], 'flags.layout')
        return
    for i in range(16):
        a = mk('sub', mk('attr', ULOG, inv[0 if i < 8 else 8]), C(i % 8))
        t = p[i].args[1]
        # what else the byte depends on may have either value
        cs = [x.args[0] for x in walk(t) if x.op in ('p_cond', 'ite') and not any(y.op in ('attr', 'sub') and (y is a or y is a.args[0]) for y in walk(x.args[0]))]
        alts = [t]
        for c in list(dict.fromkeys(cs))[:3]:
            if all(x.op == 'attr' and x.args[0] is ULOG for x in support_attrs(c)) and support_attrs(c):
                alts = [splice(subst(x, {c: v})) for x in alts for v in (TRUE, FALSE)]
        for t, val in [(t, val) for t in alts for val in (0, 1, 2, 3, 127, 128, 254, 255)]:
            want = val & 0xFE if i == 8 else val
            try:
                got = numeval(t, {a: val})
            except KeyError as k:
                x = k.args[0]
                if x.op == 'sub' and x.args[0].op == 'attr' and x.args[0].args[0] is ULOG:
                    R.bad('flags.bytes', 'flag byte %d is %s' % (i, show(t, 4)), wname(m.e), 'flags.bytes:%d' % i)
                else:
                    R.und('flags.bytes', 'flag byte %d not understood: %s' % (i, show(t, 5)), wname(m.e))
                break
            if got != want:
                R.bad('flags.bytes', '%s flag byte %d: %d is written as %d' % (
                    'compatible' if i < 8 else 'incompatible', i % 8, val, got), wname(m.e), 'flags.bytes:%d' % i)
                break
        else:
            R.ok('flags.bytes', 'flag byte %d' % i, wname(m.e))
    z = p[16]
    R.decide(is_const(z) and cval(z) == b'\0' * 24, 'flags.offsets', 'no appended data is announced', wname(m.e),
             'appended offsets are written', 'flags.offsets')


@guard
def message_lengths(R):
    """ every message header announces the length of the payload that follows """
    seen = set()
    for s in specs():
        r = wrun(**s)
        ms, errs = written(r)
        for m in ms[1:]:
            seen.add(m.typ)
        for kind, e, txt in errs:
            if kind == 'unknown':
                R.und('length', 'what is written is not understood: %s' % txt, wname(e))
            else:
                R.bad('length', 'messages are not framed: %s' % txt, wname(e), 'length')
        if not errs:
            R.ok('length', 'all messages are framed (%s)' % s['info'])
    R.saw('message types', *sorted(name_of(x) for x in seen))


def where_of_msg(m):
    """ which container a message is made from; None: not understood """
    cands = OF_TYPE.get(m.typ)
    if not cands:
        return None
    names = source(m)
    if m.typ == 'P':
        c = [x for x in cands if x in names]
        return c[0] if len(c) == 1 else None
    return cands[0]


@guard
def payloads(R):
    """ each kind of stored entry is written with the layout the reader expects """
    for s in specs():
        r = wrun(**s)
        ms, errs = written(r)
        for m in ms[1:]:
            if m.typ == 'B':
                continue
            w = where_of_msg(m)
            if w is None:
                if m.typ in OF_TYPE:
                    R.und('payload', 'source of a message %s not understood' % name_of(m.typ), wname(m.e))
                else:
                    R.bad('payload', 'an unknown message %s is written' % name_of(m.typ), wname(m.e), 'payload:%s' % m.typ)
                continue
            for ph in ([m.phase] if m.phase else (['first', 'later'] if w == 'msg_info_multiple_dict' else [''])):
                typ, exp = expected_payload(w, r, s['info'], s['field'], s['decl'], s['kind'], ph)
                v, txt = bytes_same(m.parts, exp)
                lab = '%s (%s)' % (w.replace('_', ' '), {'I': s['info'], 'M': s['info'], 'D': s['field'], 'F': s['decl'][0],
                                                         'P': s['kind'], 'Q': s['kind']}.get(m.typ, m.typ))
                R.saw('payloads', lab)
                R.decide(v, 'payload.%s' % w, 'the payload made from %s is as read' % lab, wname(m.e),
                         'the payload made from %s is %s' % (lab, txt), 'payload:%s' % w)


def iter_ok(r, lid, want):
    i = r.it.loopinfo.get(lid)
    return i is not None


@guard
def complete_log(R):
    """ every entry of every container is written, unconditionally and once """
    for s in list(specs())[:4]:
        r = wrun(**s)
        ms, errs = written(r)
        got = {}
        for m in ms[1:]:
            w = where_of_msg(m)
            if w:
                got.setdefault(w, {})[m.gi] = m
        for w in WRITERS:
            if w not in got:
                unk = [m for m in ms[1:] if m.typ in OF_TYPE and where_of_msg(m) is None]
                R.decide(None if errs or unk else False, 'complete.missing', '%s are written' % w, '',
                         '%s are not written' % w.replace('_', ' '), 'complete:%s' % w)
                continue
            m = list(got[w].values())[0]
            R.decide(len(got[w]) == 1 or None, 'complete.once', '%s are written once' % w, wname(m.e))
            c = calm(norm_cond(r, m))
            c = nonempty(sample_index(c), w)
            R.saw('containers', w)
            cut = {}
            if c is TRUE or tautology(c) is TRUE:
                v = True
            else:
                # the condition may only say that something cannot be written at all (it raises)
                v = None
                at = cond_atoms(c)
                if not any(y.op in ('lv', 'callv', 'call', 'top', 'isinstance', 'brk', 'idx') for x in at for y in walk(x)):
                    v = False
                if all(x.op == 'brk' or any(y.op == 'brk' for y in walk(x)) for x in at):
                    v = False
                if any(x.op in ('in', 'notin') and isinstance(x.args[1], T) and x.args[1].op in ('slice', 'sub', 'call', 'set', 'V') and
                       among_entries(x.args[0], x.args[1]) for y in at for x in walk(y)):
                    v = False           # depends on the other entries
            R.decide(v, 'complete.always', 'every entry of %s is written' % w, wname(m.e),
                     'entries of %s are only written if %s' % (w.replace('_', ' '), show(c, 5)), 'complete:%s' % w)
            for l in m.loops:
                k = merged_by(r, l)
                if k is not None:
                    R.bad('complete.always', 'entries of %s with the same %s are written once' % (w, show(k, 4)), wname(m.e), 'complete:%s' % w)
                i = r.it.loopinfo.get(l)
                it = i['iter'] if i else None
                if isinstance(it, T):
                    x = canon(it)
                    y = x.args[0] if x.op in ('values', 'keys', 'items', 'sorted', 'reversed') else x
                    if y.op in ('slice', 'filter', 'islice'):
                        R.bad('complete.always', 'only part of %s is written: %s' % (w, show(y, 4)), wname(m.e), 'complete:%s' % w)


def merged_by(r, lid):
    """ the key under which entries of the loop are put together, if several may have it """
    k = r.it.merged.get(lid)
    if k is None:
        return None
    i = r.it.loopinfo.get(lid)
    s = i['iter'] if i else None
    if not isinstance(s, T) or opaque(s) and s.op != 'attr':
        return None
    while s.op in ('sorted', 'reversed', 'list', 'tuple') and s.args and isinstance(s.args[0], T):
        s = s.args[0]
    if s.op in ('items', 'keys', 'range', 'enumerate') or any(x.op == 'idx' for x in walk(k)):
        return None
    root = s
    while root.op in ('elem', 'sub', 'values') and isinstance(root.args[-1 if root.op == 'elem' else 0], T):
        root = root.args[-1 if root.op == 'elem' else 0]
    name = str(root.args[1]).lstrip('_') if root.op == 'attr' else None
    if name is None or root is s and name in DICTS or name in ('default_parameters', 'data'):
        return None
    return k


DICTS = ('msg_info_dict', 'msg_info_multiple_dict', 'initial_parameters', 'default_parameters', 'message_formats', 'logged_messages_tagged')


def among_entries(x, y):
    """ is an entry looked for in a part of its own container """
    if y.op != 'slice':
        return False
    e = [z for z in walk(x) if z.op in ('E', 'elem')]
    return any(z.args[-1] is y.args[0] or y.args[0] in z.args for z in e)


def nonempty(c, w):
    """ the container of an entry is not empty """
    name = pub(TOP_OF.get(w, w))
    env = {}
    for x in walk(c):
        if x.op == 'truthy' and is_holder(x.args[0], name) or x.op in ('attr', 'sub', 'sym') and False:
            env[x] = TRUE
        if x.op == 'lt' and x.args[0] is C(0) and x.args[1].op == 'len' and is_holder(x.args[1].args[0], name):
            env[x] = TRUE
        if x.op == 'eq' and C(0) in x.args and any(y.op == 'len' and is_holder(y.args[0], name) for y in x.args):
            env[x] = FALSE
        if x.op == 'is' and NONE in x.args:
            env[x] = FALSE
        if x.op == 'in' and (x.args[0].op == 'K' or x.args[1].op == 'attr' and x.args[1].args[0] is ULOG):
            env[x] = TRUE
    return subst(c, env) if env else c


TOP_OF = {'subscriptions': 'data_list'}


def is_holder(x, name):
    x = unwrap(x)
    while x.op in ('V', 'E', 'items', 'values', 'keys'):
        x = x.args[0]
    return x is name


def norm_cond(r, m):
    c = lor(*[p.pc for p in m.group])
    base = conj(())
    return canon(c)


@guard
def order(R):
    """ definitions come before data, data in order of time """
    r = wrun()
    ms, errs = written(r)
    pos = {}
    for i, m in enumerate(ms):
        w = where_of_msg(m) or m.typ
        pos.setdefault(w, (i, m))
    A = pos.get('subscriptions')
    if A is None:
        raise Und('subscriptions not recognised')
    for w in ['message_formats', 'msg_info_dict', 'msg_info_multiple_dict', 'initial_parameters', 'default_parameters']:
        if w in pos:
            R.decide(pos[w][0] < A[0], 'order.definitions', '%s come before the subscriptions' % w, wname(pos[w][1].e),
                     '%s come after the subscriptions, where the definitions end' % w.replace('_', ' '), 'order:%s' % w)
    for w in STAMP:
        if w not in pos:
            continue
        i, m = pos[w]
        R.decide(i > A[0], 'order.data', '%s come after the subscriptions' % w, wname(m.e),
                 '%s come before the subscriptions' % w.replace('_', ' '), 'order:%s' % w)
        # time order: an enclosing loop over a list sorted by time stamp
        v, why = time_ordered(r, m, w)
        R.decide(v, 'order.time', '%s are written in order of time' % w, wname(m.e), '%s are not written in order of time: %s' % (
            w.replace('_', ' '), why), 'time:%s' % w)


def bound_key(key, item):
    """ value of a sort key for one item """
    for x in walk(key):
        if x.op == 'sym' and x.args[0] == 'κ' or x.op == 'kappa':
            return subst(key, {x: item})
    return None


def time_ordered(r, m, w):
    loops = [r.it.loopinfo.get(l) for l in m.loops]
    its = [i['iter'] for i in loops if i and isinstance(i['iter'], T)]
    srt = [x for x in its if x.op == 'sorted']
    if any(x.op == 'merged' for x in its):
        return False, 'lists that are not sorted by time are merged'
    shared = [x for x in srt if any(y.op == 'tuple' for y in walk(x.args[0])) or x.args[0].op not in ('attr', 'sym')]
    if not shared:
        if its and all(not opaque(x) or x.op in ('attr', 'values', 'keys', 'items', 'sorted', 'elem') for x in its) and \
                not any(x.op in ('call', 'callv') for y in its for x in walk(y)):
            return False, 'written in the order of the containers'
        return None, ''
    s = shared[0]
    whole = {x for p in m.group for x in walk(p.t)}
    if len(s.args) > 2 and s.args[2] is TRUE:
        return False, 'descending'
    want = STAMP[w]()
    for t in walk(s.args[0]):
        if t.op != 'tuple' or len(t.args) < 2:
            continue
        src = {x.args[0][5:] for x in walk(canon(t)) if x.op == 'sym' and str(x.args[0]).startswith('ulog.')}
        if w not in src:
            continue
        key = s.args[1]
        val = bound_key(key, t) if isinstance(key, T) and key is not NONE else None
        if val is None:
            if key is NONE or key is None:
                return False, 'sorted by the whole entry'
            return None, show(key, 4)
        val = sample_index(canon(fold(val)))
        if val is want:
            return True, ''
        return (None if opaque(val) or val.op == 'ite' else False), 'sorted by %s' % show(val, 5)
    return None, ''


@guard
def write_resources(R):
    """ only the file asked for is written, and it is closed on every way out """
    for as_path in (True, False):
        r = write_run(as_path)
        lab = 'path' if as_path else 'file object'
        ops = [e for e in r.trace if e.kind == 'open']
        h = {r.h}
        if as_path:
            if not ops:
                R.und('write.open', 'opening of the file not recognised')
                continue
            h = set()
            for e in ops:
                m = open_modes(e)
                good = [x in ('wb', 'bw', 'wb+', 'w+b', 'bw+') for x in m]
                cut = any(x.kind == 'truncate' for x in r.trace)
                R.saw('opens', where_ev(e))
                hs = [a for a in e.args if isinstance(a, T) and r.it.kind.get(a) == 'file']
                h |= set(hs)
                R.decide(True if all(good) else (False if not cut and any(x is not None and not g for x, g in zip(m, good)) else None), 'write.mode',
                         'the file is created for binary writing', where_ev(e), 'the file is opened with mode %s' % m, 'write.mode')
                args = [a for a in e.args if isinstance(a, T) and a not in hs and not is_const(a)]
                R.decide(True if r.h in args else (False if args and not any(opaque(a) for a in args) else None), 'write.path',
                         'the file asked for is opened', where_ev(e), 'another file is opened: %s' % ', '.join(show(a, 4) for a in args),
                         'write.path')
            if not h:
                h = {k[1] for k in r.st.cells if k[0] == 'P'}
        elif ops:
            for e in ops:
                R.bad('write.other', 'a file is opened although a file object was given', where_ev(e), 'write.other')
        ws = [e for e in r.trace if e.kind == 'write']
        for e in ws:
            if e.args[0] not in h:
                R.decide(None if e.args[0].op not in ('ref', 'sym') else False, 'write.target', 'everything is written to the file asked for',
                         where_ev(e), 'something is written to %s' % show(e.args[0], 3), 'write.target')
        closes = [e for e in r.trace if e.kind == 'close' and e.args[0] in h]
        if not as_path:
            moves = [e for e in r.trace if e.kind in ('seek', 'truncate') and e.args[0] in h and conj(e.pc) is not FALSE]
            moves = [e for e in moves if not (e.kind == 'seek' and (e.args[1].op in ('tell', 'pos') or
                                                                     e.args[2:3] and cval(e.args[2]) == 1 and e.args[1] is C(0)))]
            odd = [e for e in moves if e.kind == 'seek' and not is_num(e.args[1])]
            R.decide(None if odd else not moves, 'write.position', 'a file object of the caller is written to where it is', where_ev(moves[0]) if moves else '',
                     'the file object of the caller is %s before it is written to' % ('cut' if moves and moves[0].kind == 'truncate' else 'moved'),
                     'write.position')
            R.decide(not closes, 'write.keep', 'a file object of the caller stays open', where_ev(closes[0]) if closes else '',
                     'the file object of the caller is closed', 'write.keep')
            continue
        close_ways(R, r, next(iter(h)) if len(h) == 1 else None, closes, 'path', 'write.close')


def key_fails(src, key):
    """ in which case a sort key cannot be taken of the entries of an information container """
    if src.op != 'items' or src.args[0].op != 'attr':
        return None
    depth = {'msg_info_dict': 1, 'msg_info_multiple_dict': 3}.get(str(src.args[0].args[1]).lstrip('_'))
    if depth is None or not isinstance(key, T):
        return None

    def level(x):
        """ how deep inside the value of an entry, None if elsewhere """
        n = 0
        while x.op in ('sub', 'elem') and is_num(x.args[1]) and x.op == 'sub':
            last, x, n = x.args[1], x.args[0], n + 1
        return n if n and x.op in ('sym', 'kappa') and x.args[:1] == ('κ',) and cval(last) in (1, -1) else None
    for x in walk(key):
        if x.op in ('len', 'iter', 'slice') and level(x.args[0]) == depth:
            return 'a value is a number'
    if key.op == 'sub' and level(key) == depth or key.op == 'tuple' and any(level(x) == depth for x in key.args):
        return 'some values are numbers and others text'
    return None


@guard
def write_accepts(R):
    """ writing is refused only for parameters that are neither integer nor floating point """
    for s in specs():
        r = wrun(**s)
        for x in r.escapes:
            if x[0] != 'explicit':
                continue
            c = canon(conj(x[2]))
            R.decide(True if c is FALSE else (None if any(opaque(a) or a.op in ('brk', 'lv', 'in') for a in cond_atoms(c)) else False),
                     'write.accept', 'a well-formed log is not refused', wh(None, x) if x[4] is not None else '',
                     'writing raises %s if %s' % (x[1], show(c, 5)), 'write.accept')
        for lid, i in r.it.loopinfo.items():
            it = i['iter'] if i else None
            for x in walk(it) if isinstance(it, T) else ():
                if x.op == 'sorted' and len(x.args) > 1:
                    bad = key_fails(x.args[0], x.args[1])
                    if bad:
                        R.bad('write.accept', 'writing fails if %s' % bad, 'pyulog/core.py', 'write.accept:key')
        R.saw('value types', s['info'], s['field'], s['kind'])
        R.ok('write.accept', 'info %s, field %s, parameter %s' % (s['info'], s['field'], s['kind']))
