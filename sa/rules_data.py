""" Rules about the parser: subscriptions, data records, time, types, recovery, resources """
import ast
import os
from .rules_frame import *
from .rules_frame import same
from .scen import REPO
from .engine import Func

UNIVERSES = [
    {'foo': [('uint64_t', 0, 'timestamp'), ('float', 2, 'x'), ('uint8_t', 3, '_padding0')]},
    {'foo': [('uint64_t', 0, 'timestamp'), ('uint8_t', 0, 'a')]},
    {'foo': [('float', 0, 'before'), ('uint64_t', 0, 'timestamp'), ('int16_t', 4, 'arr'), ('uint8_t', 2, '_padding0')]},
    {'foo': [('uint64_t', 0, 'timestamp'), ('bar', 0, 'n'), ('bar', 2, 'm'), ('uint8_t', 4, '_padding0')],
     'bar': [('int32_t', 0, 'i'), ('uint8_t', 4, '_padding0'), ('double', 2, 'd')]},
    {'foo': [('uint64_t', 0, 'timestamp'), ('bar', 2, 'n'), ('bool', 0, 'z')],
     'bar': [('baz', 2, 'k'), ('char', 3, 'c')], 'baz': [('int8_t', 0, 'v'), ('uint16_t', 2, 'w')]},
    {'foo': [('bar', 0, 'n'), ('uint64_t', 0, 'timestamp'), ('uint8_t', 1, '_padding0'), ('uint8_t', 7, '_padding1')],
     'bar': [('uint64_t', 0, 'timestamp'), ('float', 0, 'q')]},
    {'foo': [('uint64_t', 0, 'timestamp')] + [(t, 0, 'f%d' % i) for i, t in enumerate(BASIC)]},
    {'foo': [('uint64_t', 0, 'timestamp'), ('uint8_t', 2, '_padding0'), ('float', 0, 'x'), ('uint8_t', 2, '_padding1')]},
    {'foo': [('uint64_t', 0, 'timestamp'), ('bar', 1, 'n'), ('uint8_t', 1, 'one')], 'bar': [('uint8_t', 1, '_padding0')]},
    {'foo': [('uint64_t', 0, 'timestamp'), ('bar', 0, 'n'), ('bar', 2, 'm'), ('uint8_t', 0, 'b')],
     'bar': [('uint8_t', 0, 'a'), ('uint8_t', 0, '_padding0'), ('float', 0, 'f'), ('uint8_t', 3, '_padding1')]},
    {'foo': [('uint64_t', 0, 'timestamp'), ('bar', 0, 'n'), ('bar', 2, 'm')],
     'bar': [('uint64_t', 0, 'timestamp'), ('float', 0, 'timestamp_x')]},
    {'foo': [('uint64_t', 0, 'timestamp_sample'), ('uint64_t', 0, 'timestamp'), ('uint64_t', 2, 'timestamps'), ('uint8_t', 2, 'padding0')]},
    {'foo': [('uint64_t', 0, 'timestamp'), ('a', 2, 'a'), ('c', 0, 'c')], 'a': [('b', 0, 'b'), ('b', 2, 'b2')], 'b': [('c', 2, 'c'), ('bool', 0, 'B')],
     'c': [('int64_t', 0, 'timestamp'), ('uint8_t', 1, '_pad')]},
    {'foo': [('uint64_t', 0, 'timestamp'), ('Bar_T', 2, 'SubN'), ('Bar_T', 0, 'S'), ('float', 2, 'X_y'), ('uint8_t', 0, '_Last')],
     'Bar_T': [('BAZ', 0, 'In'), ('float', 0, 'V'), ('int16_t', 2, 'fooTimestamp')], 'BAZ': [('bool', 0, 'B_PADDING'), ('uint8_t', 1, 'b')]},
    {'foo': [('uint32_t', 0, 'hw_timestamp'), ('double', 0, 'Timestamp'), ('uint64_t', 0, 'timestamp_'), ('uint64_t', 0, 'timestamp'), ('uint64_t', 0, 'xtimestamp')]},
    {'foo': [('uint64_t', 0, 'timestamp'), ('int16_t', 104, 'big'), ('bar', 11, 'n')], 'bar': [('uint8_t', 0, 'v')]},
    {'foo': [('uint64_t', 0, 'timestamp')] + [(t, n, '%s%d' % (w, i)) for n, w in ((1, 'one'), (2, 'two')) for i, t in enumerate(BASIC)]},
    {'foo': [('uint64_t', 0, 'timestamp'), ('char', 10, 'text'), ('uint8_t', 12, 'raw'), ('uint8_t', 1, '_padding0')]},
]
NUMPY = {'int8_t': 'int8', 'uint8_t': 'uint8', 'int16_t': 'int16', 'uint16_t': 'uint16', 'int32_t': 'int32',
         'uint32_t': 'uint32', 'int64_t': 'int64', 'uint64_t': 'uint64', 'float': 'float32', 'double': 'float64',
         'bool': ('int8', 'bool', 'bool_', 'uint8'), 'char': ('int8', 'uint8')}
NPSIZE = {'int8': 1, 'uint8': 1, 'bool': 1, 'bool_': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'int64': 8, 'uint64': 8,
          'float32': 4, 'float64': 8}


def flatten_format(u, name=None, prefix=''):
    out = []
    for typ, n, f in u[name or next(iter(u))]:
        for p in ([prefix + f] if n == 0 else ['%s%s[%d]' % (prefix, f, i) for i in range(n)]):
            if typ in BASIC:
                out.append((p, typ))
            else:
                out.extend(flatten_format(u, typ, p + '.'))
    return out


def expected_fields(u):
    fs = flatten_format(u)
    full = sum(BASIC[t][1] for _, t in fs)
    while fs and fs[-1][0].startswith('_padding'):
        fs = fs[:-1]
    return fs, sum(BASIC[t][1] for _, t in fs), full


def dview(u):
    h = hook(FormatHook, u)
    return view('D', ['F', 'A', 'D'], value_hook=h), h


def subscription(v, s):
    """ (container, effect, attributes) of the object registered by an 'A' message """
    for e in s.effects:
        if e.kind == 'setitem' and e.args[2].op == 'ref':
            at = inst_attrs(calm_value(v.value(s, e.args[2])))
            if at and any(x.op == 'utf8' or x.op == 'strop' and is_decoded(x.args[1]) for x in at.values() if isinstance(x, T)):
                return e.args[0], e, at
    raise Und('registration of subscriptions not recognised')


def reg_view(u):
    h = hook(FormatHook, u)
    return view('A', ['F', 'A', 'D'], value_hook=h), h


def dtype_list(t):
    """ [(name, numpy type)] and byte order of a dtype term """
    bo = None
    if t.op == 'mcall' and t.args[1] == 'newbyteorder':
        a = t.args[2]
        a = a.args[0] if isinstance(a, T) else a[0]
        bo = cval(a) if is_const(a) else '?'
        t = t.args[0]
    if t.op == 'call' and t.args[0] == 'numpy.dtype':
        xs = items_of(t.args[1][0]) if not isinstance(t.args[1], T) else items_of(t.args[1].args[0])
        if xs is None:
            return None, bo
        out = []
        for x in xs:
            y = items_of(x)
            if y is None or len(y) != 2 or not is_const(y[0]):
                return None, bo
            if y[1].op == 'ext':
                out.append((cval(y[0]), y[1].args[0].replace('numpy.', '')))
            elif is_const(y[1]) and isinstance(cval(y[1]), str):
                out.append((cval(y[0]), cval(y[1])))
            else:
                return None, bo
        return out, bo
    return None, bo


def field_pair(x):
    at = inst_attrs(x)
    if at is None:
        y = items_of(x)
        vals = y if y else []
    else:
        vals = list(at.values())
    cs = [cval(z) for z in vals if isinstance(z, T) and is_const(z) and isinstance(cval(z), str)]
    return cs


def sub_state(cont, key, known):
    """ what holds when an id is (not) subscribed; the entries are objects, never None """
    g, x = mk('dget', cont, key, NONE), mk('sub', cont, key)
    out = {mk('in', key, cont): C(known), mk('truthy', g): C(known), mk('is', NONE, g): C(not known), mk('is', g, NONE): C(not known)}
    out.update({mk('is', NONE, x): FALSE, mk('is', x, NONE): FALSE, mk('truthy', x): TRUE})
    return out


def sub_env(cont, key, at):
    """ attributes of the subscription a data record refers to """
    sub_ = mk('sub', cont, key)
    return sub_, at


def resolve_attrs(t, subs, at):
    """ replace attributes of `subs` by their known content; sizes of dtypes by numbers """
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x in memo:
            return memo[x]
        if x.op == 'attr' and x.args[0] in subs and x.args[1] in at:
            a = at[x.args[1]]
            if a.op in ('attr', 'poly', 'len') and not (a.op == 'attr' and a.args[0] in subs):
                a = go(a)
            r = a if is_const(a) and not isinstance(cval(a), bytes) or a.op == 'mcall' or a.op == 'call' else x
        elif x.op == 'attr' and x.args[1] == 'itemsize':
            b = go(x.args[0])
            l, _ = dtype_list(b)
            r = x
            if l is not None:
                try:
                    r = C(sum(NPSIZE[n] for _, n in l))
                except KeyError:
                    r = x
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


@guard
def flattening(R):
    """ fields of a subscribed topic: nested formats and arrays flattened, trailing padding removed """
    for u in UNIVERSES:
        v, h = reg_view(u)
        s = need(v.get('data'), 'no data section')
        cont, e, at = subscription(v, s)
        if not h.fired:
            R.und('flatten', 'the fields of a format were not found', e.where)
            continue
        lab = 'format %s' % '; '.join('%s%s %s' % (t, '[%d]' % n if n else '', f) for t, n, f in next(iter(u.values())))[:120]
        R.saw('format universes', lab)
        want, used, full = expected_fields(u)
        # what is published of the subscription
        pub = publish(v)
        fa = pub.get('field_data')
        name = fa if isinstance(fa, str) else None
        fd = at.get(name) if name else None
        xs = items_of(fd) if fd is not None else None
        if xs is None:
            R.und('flatten.fields', '%s: list of fields not understood' % lab, e.where)
        else:
            got = [field_pair(x) for x in xs]
            if any(len(g) != 2 for g in got):
                R.und('flatten.fields', '%s: fields not understood' % lab, e.where)
            else:
                w2 = [list(x) for x in want]
                ok = got == w2 or [g[::-1] for g in got] == w2
                R.decide(ok, 'flatten.fields', '%s: fields %s' % (lab, [x for x, _ in want]), e.where,
                         '%s: has fields %s instead of %s' % (lab, ['%s %s' % tuple(g[::-1]) for g in got],
                                                              ['%s %s' % (b, a) for a, b in want]), 'flatten.fields')
        ti = at.get(pub.get('timestamp_idx')) if isinstance(pub.get('timestamp_idx'), str) else None
        names = [n for n, _ in want]
        if ti is None or not is_num(ti):
            R.und('flatten.timestamp', '%s: index of the timestamp not understood' % lab, e.where)
        else:
            R.decide(cval(ti) == names.index('timestamp'), 'flatten.timestamp', '%s: timestamp is field %d' % (lab, names.index('timestamp')),
                     e.where, '%s: timestamp is said to be field %s' % (lab, cval(ti)), 'flatten.timestamp')
        # the record layout used to decode the buffer
        dt = at.get(pub.get('dtype')) if isinstance(pub.get('dtype'), str) else None
        l, bo = dtype_list(dt) if dt is not None else (None, None)
        if l is None:
            R.und('flatten.dtype', '%s: record layout not understood' % lab, e.where)
        else:
            ok = [n for n, _ in l] == names and all(
                t in (NUMPY[ft] if isinstance(NUMPY[ft], tuple) else (NUMPY[ft],)) for (_, t), (_, ft) in zip(l, want))
            R.decide(ok, 'flatten.dtype', '%s: record layout matches the fields' % lab, e.where,
                     '%s: record layout is %s' % (lab, l), 'flatten.dtype')
            R.decide(bo == '<' or (None if bo == '?' else False), 'flatten.endian', '%s: decoded as little endian' % lab, e.where,
                     '%s: decoded in %s byte order' % (lab, bo or 'host'), 'flatten.endian')


@guard
def identified(R):
    """ a data set has the name, instance and message id of its subscription """
    for u in UNIVERSES[:2]:
        v, _h = reg_view(u)
        s = need(v.get('data'), 'no data section')
        _cont, e, at = subscription(v, s)
        pub = publish(v)
        R.saw('subscriptions', where_ev(s.node))
        for pa, exp in (('msg_id', mkunpack('H', BODY, C(1))), ('multi_id', mkunpack('B', BODY, C(0))),
                        ('name', text(C(3)))):
            src = pub.get(pa)
            val = at.get(src) if isinstance(src, str) else None
            if val is None:
                R.und('identified.%s' % pa, 'origin of %s not understood' % pa, e.where)
            else:
                r = same(val, exp)
                R.decide(r[0], 'identified.%s' % pa, '%s of a topic comes from its subscription' % pa, e.where,
                         '%s of a topic is %s' % (pa, r[1]), 'identified.%s' % pa)


def publish(v):
    """ which attribute of the subscription each attribute of a published topic comes from """
    out = {}
    for e in v.r.trace:
        if e.kind == 'append' and subst(e.args[0], v.names) is S('data_list') and e.args[1].op == 'ref':
            ref = e.args[1]
            out['__effect__'] = e
            for f in v.r.trace:
                if f.kind == 'setattr' and f.args[0] is ref:
                    x = f.args[2]
                    if x.op == 'attr':
                        out[cval(f.args[1])] = x.args[1]
                        out['__source__'] = x.args[0]
                    else:
                        out.setdefault(cval(f.args[1]), x)
    for e in v.r.trace:
        for a in e.args:
            if isinstance(a, T):
                for x in walk(a):
                    if x.op == 'call' and x.args[0] == 'numpy.frombuffer':
                        out['__frombuffer__'] = x
                        pos = list(x.args[1]) if not isinstance(x.args[1], T) else list(x.args[1].args)
                        kw = dict(x.args[2]) if not isinstance(x.args[2], T) else {}
                        if len(pos) > 1:
                            kw['dtype'] = pos[1]
                        if pos and pos[0].op == 'attr':
                            out['buffer'] = pos[0].args[1]
                        d = kw.get('dtype')
                        if d is not None and d.op == 'attr':
                            out['dtype'] = d.args[1]
                        out['__extra__'] = [k for k in kw if k != 'dtype']
    return out


@guard
def data_records(R):
    """ which data records are accepted and what of them is kept """
    for u in UNIVERSES:
        v, h = dview(u)
        va, _ = reg_view(u)
        s = need(v.get('data'), 'no data section')
        sa = va.get('data')
        cont, e0, at = subscription(va, sa)
        pub = publish(v)
        key = mkunpack('H', BODY, C(0))
        subs = {mk('sub', cont, key), mk('dget', cont, key, NONE)}
        names, used, full = expected_fields(u)
        toff = 0
        for n, t in names:
            if n == 'timestamp':
                break
            toff += BASIC[t][1]
        lab = 'record of %d..%d bytes' % (used, full)
        buf = pub.get('buffer')
        known = mk('in', key, cont)
        writes = []
        other = []
        for e in s.effects:
            if not e.args or not isinstance(e.args[0], T):
                continue
            c = e.args[0]
            if e.kind == 'setattr' and c in subs:
                writes.append((e, cval(e.args[1]), e.args[2]))
            elif e.kind in ('extend', 'append', 'insert', 'setitem', 'clear', 'pop') and c.op == 'attr' and c.args[0] in subs:
                writes.append((e, c.args[1], e.args[1] if len(e.args) > 1 else None))
        if not writes or buf is None:
            R.und('data.keep', '%s: no update of the subscription found' % lab, where_ev(s.node))
            continue
        base_env = sub_state(cont, key, True)
        sizes = sorted({0, 1, 2, used + 1, used + 2, used + 3, full + 2, full + 3, full + 1, 65535})
        # the id may have belonged to a topic that was filtered out before: it is subscribed now
        filt = filter_container(va, sa, cont)
        was = mk('in', key, filt) if filt is not None else None
        both = was is not None and any(was in walk(resolve_attrs(quiet(e.cond), subs, at)) for e in s.effects) and \
            not any(e.args and e.args[0] is filt and e.kind not in ('append', 'setitem') for e in sa.effects)
        for n, fe in [(n, f) for n in sizes for f in ([{was: FALSE}, {was: TRUE}] if both else [{}])]:
            want = used + 2 <= n <= full + 2
            env = dict(base_env)
            env.update(fe)

            def guard_of(e):
                g = resolve_attrs(quiet(e.cond), subs, at)
                g = assign(g, env)
                r = decide_num(g, {SIZE: n, POS: 1000})
                if r is None:
                    # whatever is there already
                    full_of = [x for x in walk(g) if x.op == 'len' and any(y.op == 'attr' and y.args[1] == buf for y in walk(x))]
                    rs = [decide_num(g, {SIZE: n, POS: 1000, **{x: m for x in full_of}}) for m in (0, 1, 100, 10 ** 5, 10 ** 7, 1 << 33)] if full_of else []
                    if rs and None not in rs:
                        return (not want) if (not want) in rs else want
                    # whatever the record contains
                    rs = [decide_num(g, {SIZE: n, POS: 1000, BODY: (b * n)[:n]}) for b in (b'\0', b'\xff', b'\x80', b'\0\1', b'\x7f\x80')]
                    if None not in rs:
                        return (not want) if (not want) in rs else want
                return r
            kept = []
            if want and before_matters([e for e, a, _ in writes if a == buf], subs, at, env, n, buf):
                R.bad('data.accept', '%s: whether a data message is kept depends on the contents of those before' % lab, writes[0][0].where,
                      'data.before')
                continue
            for e, a, val in writes:
                if a != buf:
                    continue
                g = guard_of(e)
                if g is None:
                    R.und('data.accept', '%s: condition not understood' % lab, e.where)
                    kept = None
                    break
                if g:
                    kept.append((e, val))
            if kept is None:
                continue
            R.saw('record sizes', '%s: %d' % (lab, n))
            if bool(kept) != want:
                R.bad('data.accept', '%s: a data message with %d bytes of content is %s' %
                      (lab, n - 2, 'kept' if kept else 'dropped'), writes[0][0].where, 'data.accept')
                continue
            R.ok('data.accept', '%s: %d bytes of content are %s' % (lab, n - 2, 'kept' if kept else 'dropped'), writes[0][0].where)
            # corruption flag
            fl = [e for e in s.effects if e.kind == 'setattr' and e.args[0] is S_SELF and
                  v.inv.get(cval(e.args[1])) == 'file_corruption']
            marked = []
            for e in fl:
                g = resolve_attrs(quiet(e.cond), subs, at)
                marked.append(decide_num(assign(g, env), {SIZE: n, POS: 1000}) and e.args[2] is TRUE)
            if n >= 2:
                R.decide(None if None in marked and not any(marked) else any(marked) != want, 'data.report',
                         '%s: %d bytes of content are%s reported as corruption' % (lab, n - 2, ' not' if want else ''),
                         writes[0][0].where, '%s: %d bytes of content are%s reported as corruption' % (lab, n - 2, '' if want else ' not'),
                         'data.report')
            if want:
                if len(kept) != 1:
                    R.und('data.keep', '%s: several updates' % lab)
                    continue
                e, val = kept[0]
                check_buffer(R, e, val, subs, at, env, n, used, lab, buf)
    check_publish(R)


def before_matters(es, subs, at, env, n, buf):
    """ a record of this size is not kept when something holds of the records before """
    gs = []
    loose = set()
    for e in es:
        g = assign(resolve_attrs(quiet(e.cond), subs, at), env)
        for a in cond_atoms(g):
            r = decide_num(a, {SIZE: n, POS: 1000})
            if r is not None:
                g = assign(g, {a: C(r)})
            else:
                loose.add(a)
        gs.append(g)
    if not loose or len(loose) > 4:
        return False
    for a in loose:
        if a.op not in ('eq', 'in', 'endswith', 'startswith') or not any(
                y.op == 'attr' and y.args[1] == buf for x in walk(a) if x.op in ('slice', 'attr') for y in walk(x)) or \
                any(x.op in ('len', 'top', 'havoc', 'lv') for x in walk(a) if x is not SIZE and BODY not in x.args):
            return False
    for vals in itertools.product((TRUE, FALSE), repeat=len(loose)):
        if assign(lor(*gs), dict(zip(loose, vals))) is FALSE:
            return True
    return False


def numval(g, env):
    """ value of a term, with the sizes of parts of the payload """
    if SIZE in env:
        env = dict(env)
        for x in walk(g):
            if x.op == 'len' and x.args[0].op == 'slice' and x.args[0].args[0] is BODY:
                lo, hi = (None if b is NONE else cval(b) if is_num(b) else b for b in x.args[0].args[1:3])
                if not isinstance(lo, T) and not isinstance(hi, T):
                    env[x] = len(range(env[SIZE])[lo:hi])
    return numeval(g, env)


def decide_num(g, env):
    """ True / False / None of a condition over numbers """
    if is_const(g):
        return bool(cval(g))
    try:
        return bool(numval(g, env))
    except KeyError:
        return None


def check_buffer(R, e, val, subs, at, env, n, used, lab, buf):
    v = settle(resolve_attrs(val, subs, at), env)
    # settle conditionals on the size
    cs = {}
    for c in all_conds(v):
        b = decide_num(c, {SIZE: n})
        if b is not None:
            cs[c] = C(b)
    v = settle(v, cs) if cs else v
    if e.kind == 'setattr':
        if v.op == 'bytes' and len(v.args) == 2 and v.args[0].op == 'attr' and v.args[0].args[1] == buf:
            piece = v.args[1]
        else:
            R.und('data.keep', '%s: kept content not understood: %s' % (lab, show(v, 5)), e.where)
            return
    elif e.kind in ('extend', 'append'):
        piece = v
    else:
        R.und('data.keep', '%s: kept content not understood' % lab, e.where)
        return
    if piece.op == 'slice' and piece.args[0] is BODY:
        lo, hi = piece.args[1], piece.args[2]
        try:
            l = numeval(lo, {SIZE: n}) if lo is not NONE else 0
            hh = n if hi is NONE else numeval(hi, {SIZE: n})
        except KeyError:
            R.und('data.keep', '%s: kept content not understood: %s' % (lab, show(piece, 5)), e.where)
            return
        R.decide(l == 2 and min(hh, n) == 2 + used, 'data.keep', '%s: exactly the declared fields are kept' % lab, e.where,
                 '%s: bytes %s..%s of %d are kept' % (lab, l, hh, n), 'data.keep')
    else:
        R.decide(None if opaque(piece) else False, 'data.keep', '%s: kept content' % lab, e.where,
                 '%s: %s is kept' % (lab, show(piece, 5)), 'data.keep')


CHOICES = {'numpy.' + x for x in ('argsort', 'lexsort', 'unique', 'where', 'nonzero', 'flatnonzero', 'diff')}


def flat(p):
    for x in p if isinstance(p, tuple) else (p,):
        if isinstance(x, tuple):
            yield from flat(x)
        else:
            yield x


def check_publish(R):
    v, h = dview(UNIVERSES[0])
    pub = publish(v)
    e = pub.get('__effect__')
    if e is None or '__frombuffer__' not in pub:
        R.und('publish', 'publication of the topics not recognised')
        return
    w = where_ev(e)
    R.decide(not pub['__extra__'], 'publish.all', 'all records of a topic are published', w,
             'records are left out: %s' % pub['__extra__'], 'publish.all')
    src = pub.get('__source__')
    R.decide(True if src is not None and any(x.op == 'values' or x.op == 'sub' or x.op == 'items' for x in walk(src)) else None,
             'publish.topics', 'every subscribed topic is published', w)
    # condition
    c = conj(e.pc)
    at = [a for a in cond_atoms(c) if any(x.op == 'attr' and x.args[0] is src for x in walk(a))] if src is not None else []
    buf = [a for a in at if a.op == 'truthy' and a.args[0].op == 'attr' and a.args[0].args[1] == pub.get('buffer')]
    extra, unknown = [], []
    for a in at:
        if a in buf:
            continue
        ln = [x for x in walk(a) if x.op == 'len' and x.args[0].op == 'attr' and x.args[0].args[1] == pub.get('buffer')]
        if ln:
            size = [x for x in walk(a) if x.op == 'attr' and x.args[1] == 'itemsize']
            for n in (1, 8, 24):
                for k in (1, 2, 5000):
                    try:
                        ok = bool(numeval(a, dict([(ln[0], n * k)] + [(x, n) for x in size])))
                    except (KeyError, Und):
                        ok = None
                        if a not in unknown:
                            unknown.append(a)
                    g = assign(c, {a: C(bool(ok))}) if ok is not None else None
                    if g is FALSE and a not in extra:
                        extra.append(a)
        else:
            extra.append(a)
    R.decide((None if unknown else True) if not extra else (None if any(opaque_c(a) for a in extra) else False), 'publish.condition',
             'a topic with at least one record is published', w,
             'a topic is published only if %s' % ', '.join(show(a, 5) for a in extra), 'publish.condition')
    # columns
    cols = [f for f in v.r.trace if f.kind == 'setitem' and any(x is pub['__frombuffer__'] for x in walk(f.args[2]))]
    ok = None
    for f in cols:
        k, x = f.args[1], f.args[2]
        if x.op == 'sub' and x.args[0] is pub['__frombuffer__'] and x.args[1] is k:
            it = k.args[1] if k.op == 'elem' else None
            if it is not None and it.op == 'attr' and it.args[1] == 'names':
                ok = True
        elif x.op == 'sub' and x.args[0] is pub['__frombuffer__']:
            ok = False
    R.decide(ok, 'publish.columns', 'every field becomes the column of its name', w,
             'columns are stored under other names', 'publish.columns')
    # nothing is chosen from the columns, and they keep their order
    held = {f.args[0] for f in cols}
    attr = {cval(f.args[1]) for f in v.r.trace if f.kind == 'setattr' and f.args[2] in held}
    made = [(f, f.args[2]) for f in cols]
    for f in v.r.trace:
        if f.kind == 'setattr' and cval(f.args[1]) in attr and f.args[2] not in held and f.args[0] is e.args[1]:
            d = v.r.st.cells.get(('D', f.args[2]), ()) if f.args[2].op == 'ref' else ()
            made += [(f, y) for p in d for y in flat(p) if isinstance(y, T)]
    for f, x in made:
        pick = [y for y in walk(x) if y.op in ('sub', 'slice') and y.args[0] is not pub['__frombuffer__'] and
                any(z is pub['__frombuffer__'] or z.op == 'attr' and z.args[1] in attr and z.args[0] is e.args[1] or z in held for z in walk(y.args[0])) and
                any(z.op == 'call' and str(z.args[0]) in CHOICES for w2 in y.args[1:] if isinstance(w2, T) for z in walk(w2))]
        if pick:
            R.bad('publish.all', 'the records are chosen or ordered by %s' % show(pick[0].args[1], 3), where_ev(f), 'publish.all')
            break
    # sorted
    held = {subst(f.args[0], {}) for f in v.r.trace if f.kind == 'append' and subst(f.args[0], v.names) is S('data_list')}
    st = [f for f in v.r.trace if f.kind in ('sort', 'lsort') and subst(f.args[0], v.names) is S('data_list')]
    good = None
    for f in st:
        key = f.args[1]
        ks = items_of(key) if isinstance(key, T) else None
        if ks and [x.args[1] if x.op == 'attr' else None for x in ks][:2] == ['name', 'multi_id'] and \
                (len(f.args) < 3 or f.args[2] is FALSE):
            good = True
        elif isinstance(key, T) and not opaque(key):
            good = False
    if good is None and not st:
        # a sorted copy takes the place of the list
        for f in v.r.trace:
            new = f.args[2] if f.kind == 'setattr' else None
            if new is not None and f.args[0] is v.r.self and is_const(f.args[1]) and v.inv.get(cval(f.args[1])) == 'data_list' and \
                    new.op == 'ref' and new not in held:
                ps = v.r.st.cells.get(('S', new), ())
                x = ps[0][1] if len(ps) == 1 and ps[0][0] in ('perm', 'spread') else None
                if x is None:
                    continue
                st = [f]
                if x.op == 'sorted':
                    ks = items_of(x.args[1]) if isinstance(x.args[1], T) else None
                    good = bool(ks) and [y.args[1] if y.op == 'attr' else None for y in ks][:2] == ['name', 'multi_id'] and x.args[2] is FALSE
                    good = good if good or not opaque(x.args[1]) else None
    R.decide(good if st else False, 'publish.order', 'topics are sorted by name and instance', where_ev(st[0]) if st else w,
             'topics are not sorted by name and instance', 'publish.order')


@guard
def unknown_ids(R):
    """ data without subscription is reported unless its topic was filtered out """
    v, h = dview(UNIVERSES[0])
    va, _ = reg_view(UNIVERSES[0])
    s, sa = need(v.get('data'), 'no data section'), va.get('data')
    cont, e0, at = subscription(va, sa)
    filt = filter_container(va, sa, cont)
    key = mkunpack('H', BODY, C(0))
    subs = {mk('sub', cont, key), mk('dget', cont, key, NONE)}
    got = mk('dget', cont, key, NONE)
    absent = sub_state(cont, key, False)
    for filtered in (False, True):
        if filt is None:
            R.und('unknown.filtered', 'topics filtered out are not remembered')
            return
        env = dict(absent)
        env[mk('in', key, filt)] = C(filtered)
        fl = [e for e in s.effects if e.kind == 'setattr' and e.args[0] is S_SELF and
              v.inv.get(cval(e.args[1])) == 'file_corruption']
        at2 = set()
        for e in fl:
            cond_atoms(assign(quiet(e.cond), env), at2)
        for n in (2, 10, 1000):
            res = []
            for e in fl:
                g = assign(resolve_attrs(quiet(e.cond), subs, at), env)
                # the remaining conditions must not matter
                r = None
                outs = set()
                at3 = sorted(cond_atoms(g), key=lambda x: x.nid)[:8]
                for vals in itertools.product((TRUE, FALSE), repeat=len(at3)):
                    outs.add(decide_num(assign(g, dict(zip(at3, vals))), {SIZE: n, POS: 1000}))
                res.append(outs.pop() if len(outs) == 1 else None)
            m = True if any(x is True for x in res) else (None if None in res else False)
            R.decide(None if m is None else m != filtered, 'unknown.report', 'data of a%s topic is%s reported as corruption' %
                     (' filtered' if filtered else 'n unknown', ' not' if filtered else ''), where_ev(s.node),
                     'data of a%s topic is%s reported as corruption' % (' filtered' if filtered else 'n unknown',
                                                                       '' if filtered else ' not'), 'unknown.report')
        for e in s.effects:
            if e.kind in ('append', 'extend', 'setitem', 'setattr') and isinstance(e.args[0], T):
                p = v.public(e.args[0])
                if p in TRACKED or e.kind == 'setattr' and e.args[0] is S_SELF and \
                        v.inv.get(cval(e.args[1])) in ('last_timestamp', 'start_timestamp'):
                    g = assign(resolve_attrs(quiet(e.cond), subs, at), env)
                    g = decide_num(g, {SIZE: 10, POS: 1000})
                    if g and e.kind == 'setattr':
                        val = settle(resolve_attrs(e.args[2], subs, at), env)
                        try:
                            kept = all(numval(val, {LAST: x, SIZE: 10, POS: 1000}) == x for x in (0, 5, 1 << 63))
                        except KeyError:
                            kept = False
                        R.decide(True if kept else None, 'unknown.effect', 'data without subscription changes %s' % p, e.where)


def filter_container(va, sa, cont):
    """ where the ids of topics that are filtered out are kept """
    for e in sa.effects:
        if e.kind in ('append', 'setitem') and e.args[0] is not cont and len(e.args) > 1 and \
                e.args[1] is mkunpack('H', BODY, C(1)):
            return e.args[0]
    return None


FILTERS = [(None, True), (('foo',), True), (('bar', 'foo'), True), ((), False), (('fo',), False), (('foobar',), False),
           (('bar', 'FOO', 'f', 'oo'), False), (('', ' foo', 'foo '), False)]


@guard
def subscribing(R):
    """ a subscription counts if and only if its topic is asked for, whatever was known before """
    for names, want in FILTERS:
        h = hook(FormatHook, UNIVERSES[1])
        v = view('A', ['F', 'A', 'D'], value_hook=h, filt=NONE if names is None else mk('tuple', *[C(x) for x in names]))
        s = need(v.get('data'), 'no data section')
        lab = 'with%s' % ('out a filter' if names is None else ' the filter %s' % list(names))
        key = mkunpack('H', BODY, C(1))
        kept, left = [], []
        for e in s.effects:
            if e.kind == 'setitem' and e.args[2].op == 'ref' and inst_attrs(calm_value(v.value(s, e.args[2]))):
                kept.append(e)
            elif e.kind in ('append', 'setitem') and len(e.args) > 1 and e.args[1] is key:
                left.append(e)
        w = where_ev(s.node)
        R.saw('filters', str(names))
        for es, exp, what, rule in ((kept, want, 'kept', 'filter.select'), (left, not want, 'remembered as filtered out',
                                                                       'filter.remember')):
            g = lor(*[quiet(e.cond) for e in es]) if es else FALSE
            for topic in ('foo', 'Foo') if names else ('foo',):
                yes = exp if topic == 'foo' else (topic in names) == (what == 'kept')
                for known in (False, True):
                    env = {}
                    for a in cond_atoms(g):
                        if a.op == 'in' and a.args[0] is key:
                            env[a] = C(known)
                        elif a.op in ('is', 'truthy'):
                            for x in a.args:
                                if x.op == 'dget' and x.args[1] is key:
                                    env[a] = C(known) if a.op == 'truthy' else C(not known)
                    got = grid_outcomes(assign(assign(g, {text(C(3)): C(topic)}), env))
                    ok = None if got is None else got == {yes}
                    lk = '%s a topic named %s is %s%s' % (lab, topic, '' if yes else 'not ', what)
                    R.decide(ok, rule, '%s (id %s)' % (lk, 'known' if known else 'new'), es[0].where if es else w,
                             '%s a topic named %s is %s%s%s (id %s)' % (lab, topic, 'not ' if yes else '', 'always ' if yes else '', what,
                                                                      'known' if known else 'new'), rule)


@guard
def subscriptions_kept(R):
    """ a subscription lasts until the end of the file or until its message id is used again, and its data is kept then """
    v = view('A', ['A', 'B', 'P'])
    key = mkunpack('H', BODY, C(1))
    secs = [s for s in v.sections if any(e.kind == 'setitem' and e.args[1] is key for e in s.effects)]
    if not secs:
        R.und('subscription.kept', 'the place where topics are subscribed is not recognised')
        return
    held = {e.args[0] for s in secs for e in s.effects if e.kind == 'setitem' and e.args[1] is key and e.args[2].op == 'ref'}
    named = {k[2] for k, x in v.r.st.cells.items() if k[0] == 'A' and k[1] is v.r.self and isinstance(x, T) and subst(x, v.names) in held}
    inner = {s.loops[-1][0] for s in v.sections}
    for s in secs:
        R.saw('data sections', where_ev(s.node))
        if len(s.loops) > 1:
            outer = s.loops[0][0]
            bad = [e for e in v.r.trace if any(l[0] == outer for l in e.loops) and not any(l[0] in inner for l in e.loops) and
                   (e.kind in ('pop', 'popitem', 'clear', 'delitem') and subst(e.args[0], v.names) in held or
                    e.kind == 'setattr' and e.args[0] in (v.r.self, S_SELF) and is_const(e.args[1]) and cval(e.args[1]) in named)]
            R.decide(not bad, 'subscription.kept', 'records in appended data belong to the subscriptions made before', where_ev(bad[0]) if bad else where_ev(s.node),
                     'the subscriptions are given up at the end of each part, so that the records of the next part are dropped', 'subscription.parts')
        new = [e for e in s.effects if e.kind == 'setitem' and e.args[1] is key and e.args[2].op == 'ref']
        out = [e for e in v.r.trace if any(l[0] == s.loops[-1][0] for l in e.loops) and e.kind in ('append', 'extend') and subst(e.args[0], v.names) is S('data_list')]
        over = []
        for e in new:
            g = quiet(e.cond)
            env = {a: TRUE for a in cond_atoms(g) if a.op == 'in' and a.args[0] is key}
            if assign(g, env) is not FALSE:
                over.append(e)
        R.decide(bool(out) or not over, 'subscription.kept', 'the data of a message id that is used again is kept', (over or new)[0].where,
                 'a message id that is used again loses the data it had so far', 'subscription.again')
    names = {show(x, 6) for x in held}
    for t in ALL_TYPES:
        if t == 'A':
            continue
        w = mview(t)
        for s in w.sections:
            if s.kind != 'data':
                continue
            out = any(e.kind in ('append', 'extend') and subst(e.args[0], w.names) is S('data_list') for e in s.effects)
            bad = [e for e in s.effects if e.kind in ('pop', 'popitem', 'clear', 'delitem') and show(e.args[0], 6) in names or
                   e.kind == 'setattr' and e.args[0] is S_SELF and is_const(e.args[1]) and cval(e.args[1]) in named]
            bad = [e for e in bad if calm(e.cond) is not FALSE]
            R.decide(out or not bad, 'subscription.kept', '%r messages end no subscription' % t, bad[0].where if bad else where_ev(s.node),
                     'a %r message removes a subscription, and the data it had so far is lost' % t, 'subscription.others')


@guard
def reused_ids(R):
    """ a message id that is used again ends the topic before, whatever the filter """
    v = view('A', ['A', 'B', 'P'])
    key = mkunpack('H', BODY, C(1))
    secs = [s for s in v.sections if any(e.kind == 'setitem' and e.args[1] is key for e in s.effects)]
    held = {e.args[0] for s in secs for e in s.effects if e.kind == 'setitem' and e.args[1] is key and e.args[2].op == 'ref'}
    for s in secs:
        out = [e for e in v.r.trace if any(l[0] == s.loops[-1][0] for l in e.loops) and e.kind in ('append', 'extend') and subst(e.args[0], v.names) is S('data_list')]
        # whether the topic that gets the id is asked for or not
        f = v.r.filt
        env = {mk('is', NONE, f): FALSE, mk('is', f, NONE): FALSE, mk('truthy', f): TRUE, mk('in', text(C(3)), f): FALSE}
        env.update({mk('in', key, h): TRUE for h in held})
        gone = [e for e in s.effects if e.kind in ('delitem', 'pop') and len(e.args) > 1 and e.args[1] is key and e.args[0] in held]
        for es, what in ((gone, 'its records are added to the topic before'), (out, 'the data of the topic before are not there')):
            cs = [assign(quiet(v.tr(s, conj(e.pc)) if es is out else e.cond), env) for e in es]
            if cs:
                R.decide(not all(c is FALSE for c in cs), 'subscription.kept', 'an id that is used again ends the topic before, whatever the filter', where_ev(es[0]) if es is out else es[0].where,
                         'where an id is used again for a topic that is left out, %s' % what, 'subscription.again')


@guard
def topic_filter(R):
    """ the filter selects topics by name, nothing else """
    va, _ = reg_view(UNIVERSES[0])
    s = need(va.get('data'), 'no data section')
    cont, e, at = subscription(va, s)
    f = va.r.filt
    nm = text(C(3))
    isn = {mk('is', NONE, f), mk('is', f, NONE)}
    inn = mk('in', nm, f)
    for none, inside, want in ((True, False, True), (False, True, True), (False, False, False)):
        env = {x: C(none) for x in isn}
        env[inn] = C(inside)
        env[mk('truthy', f)] = C(not none)
        g = assign(quiet(e.cond), env)
        if is_const(g):     # other forms: see subscribing
            R.decide(cval(g) == want, 'filter.select', 'filter %s: topic is %s' %
                 ('none' if none else ('names it' if inside else 'does not name it'), 'kept' if want else 'left out'), e.where,
                 'with %s a topic is %s' % ('no filter' if none else 'a filter that %s it' % ('names' if inside else 'does not name'),
                                            'left out' if want else 'kept'), 'filter.select')
    R.decide(same(e.args[1], mkunpack('H', BODY, C(1)))[0], 'filter.key', 'subscriptions are kept by message id', e.where,
             'subscriptions are kept under %s' % show(e.args[1], 5), 'filter.key')
    # what is asked for does not change while the log is read
    for s2 in va.sections:
        carried = {}
        for k, h in s2.info['head'].items():
            if isinstance(h, T) and h.op == 'lv' and len(h.args) > 3 and isinstance(h.args[3], T) and any(x is f for x in walk(h.args[3])):
                carried[k] = h
        used = {x for e2 in s2.effects if e2.kind == 'setitem' for x in walk(e2.cond) if x.op == 'lv'}
        for k, h in carried.items():
            new = [t for pc, cells in s2.backs if calm(pc) is not FALSE for t in [cells.get(k)] if isinstance(t, T) and t is not h]
            if h in used and any(x is BODY or x.op in ('read', 'append') for t in new for x in walk(va.tr(s2, t))):
                R.bad('filter.change', 'the topics that are asked for change while the log is read, depending on the messages before', e.where,
                      'filter.change')
        for e2 in s2.effects:
            if e2.kind in ('remove', 'discard', 'clear', 'append', 'extend', 'pop', 'insert', 'delitem', 'add', 'update') and e2.args and \
                    isinstance(e2.args[0], T) and (e2.args[0] is f or e2.args[0].op == 'lv' and e2.args[0] in carried.values()):
                R.bad('filter.change', 'the topics that are asked for are changed while the log is read', e2.where, 'filter.change')
    R.ok('filter.change', 'the topics that are asked for stay the same')
    # an empty filter list is a filter
    empty = [a for a in cond_atoms(quiet(e.cond)) if a is mk('truthy', f)]
    R.decide(not empty, 'filter.empty', 'an empty filter selects nothing', e.where,
             'an empty filter is treated like no filter', 'filter.empty')
    # messages of other types do not look at the filter
    for ch in ALL_TYPES:
        if ch in 'DA':
            continue
        v = mview(ch)
        for s2 in v.sections:
            for p, e2 in pub_effects(v, s2):
                if quiet(e2.cond) is not FALSE:
                    R.decide(not any(x is v.r.filt for a in list(e2.args) + [quiet(e2.cond)] if isinstance(a, T) for x in walk(a)),
                             'filter.other', 'the filter has no influence on %s messages' % name_of(ch), e2.where,
                             'the topic filter has influence on %s messages' % name_of(ch), 'filter.other')


@guard
def time_reached(R):
    """ last_timestamp is the largest timestamp of the accepted data so far, starting with the start time """
    a = attr_of('last_timestamp')
    if a is None:
        raise Und('last_timestamp not found')
    named = [x for x in UNIVERSES if x['foo'][0][2] in ('hw_timestamp', 'timestamp_sample', 'n')]
    for u in [UNIVERSES[0], UNIVERSES[2]] + named:
        v, h = dview(u)
        va, _ = reg_view(u)
        s, sa = need(v.get('data'), 'no data section'), va.get('data')
        cont, e0, at = subscription(va, sa)
        key = mkunpack('H', BODY, C(0))
        got = mk('dget', cont, key, NONE)
        subs = {mk('sub', cont, key), got}
        names, used, full = expected_fields(u)
        toff = 0
        for n, t in names:
            if n == 'timestamp':
                break
            toff += BASIC[t][1]
        ts = mkunpack('Q', BODY, C(2 + toff))
        present = sub_state(cont, key, True)
        st = start_time(v)
        evs = [e for e in s.effects if e.kind == 'setattr' and e.args[0] is S_SELF and cval(e.args[1]) == a]
        if not evs:
            R.decide(False, 'time.data', 'data advances the time', where_ev(s.node), 'data never advances last_timestamp', 'time.data')
            continue
        w = evs[0].where
        for n, acc in ((used + 2, True), (full + 2, True), (used + 1, False), (full + 3, False)):
            # time reached, time of the data, start of the log
            for L, T_, S_ in ((5, 3, 5), (5, 3, 2), (5, 5, 5), (5, 5, 2), (5, 9, 5), (5, 9, 2), (0, 0, 0), (0, 1, 0), (1 << 63, (1 << 64) - 1, 9),
                              (1 << 63, 9, 1 << 63), ((1 << 64) - 1, 7, 0), (5, 1 << 63, 5), (5, (1 << 63) + 5, 2), (1000, 3000000000000, 1000)):
                cur = L
                bad = False
                for e in evs:
                    env = {LAST: cur, SIZE: n, ts: T_, POS: 1000, S('start_timestamp'): S_}
                    if st is not None and not is_const(st):
                        env[st] = S_
                    cnd = assign(resolve_attrs(quiet(e.cond), subs, at), present)
                    val = settle(resolve_attrs(e.args[2], subs, at), present)
                    # other parts of the message have values of their own
                    for x in list(walk(val)) + list(walk(cnd)):
                        if x.op == 'unpack' and x.args[1] is BODY and x is not ts and x is not key and is_num(x.args[2]):
                            env[x] = 77 + 1000 * cval(x.args[2])
                    g = decide_num(cnd, env)
                    if g is None:
                        bad = True
                        break
                    if g:
                        try:
                            cur = numval(val, env)
                        except KeyError:
                            bad = True
                            break
                if bad:
                    R.und('time.data', 'update of last_timestamp not understood', w)
                    break
                want = max(L, T_) if acc else L
                R.decide(cur == want, 'time.data', 'accepted data advances last_timestamp to the maximum' if acc else
                         'rejected data does not advance last_timestamp', w,
                         'with last_timestamp %d, %s data stamped %d sets it to %d' % (L, 'accepted' if acc else 'rejected', T_, cur),
                         'time.data')
    # nothing else moves it
    for ch in ALL_TYPES + [FOREIGN, CORRUPT]:
        if ch == 'D':
            continue
        v = mview(ch)
        for s in v.sections:
            for e in s.effects:
                if e.kind == 'setattr' and e.args[0] is S_SELF and cval(e.args[1]) == a and quiet(e.cond) is not FALSE:
                    val = v.value(s, e.args[2])
                    R.decide(None if opaque(val) else False, 'time.other', '%s messages do not change last_timestamp' % name_of(ch),
                             e.where, 'a %s message sets last_timestamp' % name_of(ch), 'time.other')
    v = mview('P')
    d = need(v.get('def'), 'no definitions')
    init = d.info['init'].get(('A', v.r.self, a))
    stt = start_time(v)
    R.decide(True if init is stt else (None if init is None or stt is None or opaque(init) else False), 'time.start',
             'last_timestamp starts with the start time', where_ev(d.node),
             'last_timestamp starts with %s' % (show(init, 5) if init is not None else '?'), 'time.start')
    # the start time is set once
    sa_ = attr_of('start_timestamp')
    for ch in ALL_TYPES:
        v = mview(ch)
        for s in v.sections:
            for e in s.effects:
                if e.kind == 'setattr' and e.args[0] is S_SELF and cval(e.args[1]) == sa_ and quiet(e.cond) is not FALSE:
                    R.bad('time.start', 'a %s message changes start_timestamp' % name_of(ch), e.where, 'time.start.changed')


@guard
def recovery(R):
    """ corrupt headers advance by one byte or to behind the next sync; unknown types are skipped """
    for ch in (FOREIGN, CORRUPT):
        v = mview(ch)
        for s in v.sections:
            if s.kind == 'app':
                continue
            w = where_ev(s.node)
            what = 'type %s in the %s section' % (name_of(ch), SECT[s.kind])
            inner = [(lid, i) for lid, i in v.r.it.loopinfo.items() if lid != s.lid and i.get('loops') and
                     any(l[0] == s.lid for l in i['loops'])]
            gates = set()
            for e in s.effects:
                if e.kind == 'read' and s.bodies and mk('read', *e.e.args) not in (s.hdr, s.bodies[0][0]):
                    gates |= {a for a in cond_atoms(quiet(e.cond)) if a.op == 'truthy'}
            for n in (0, 1, 7, 8, 100, 9999, 10000, 10001, 65535):
                corrupt = ch == CORRUPT or n == 0 or n > 10000
                R.saw('header sizes', '%s size %d' % (what, n))
                for c, cells in s.backs:
                    pos = prune(limit_ok(given(calm_value(v.pos(s, cells)), quiet(c))))
                    conds = {}
                    rest = []
                    for a in sorted(all_conds(pos), key=lambda x: x.nid):
                        r = decide_num(a, {SIZE: n})
                        if r is None:
                            rest.append(a)
                        else:
                            conds[a] = C(r)
                    if len(rest) > 8:
                        R.und('recovery.next', '%s: not understood' % what, w)
                        continue
                    for vals in itertools.product((TRUE, FALSE), repeat=len(rest)):
                        env = dict(conds)
                        env.update(zip(rest, vals))
                        p = settle(pos, env)
                        ok = resume(p, s, v, corrupt, n, inner)
                        R.decide(ok[0], 'recovery.next', '%s, size %d: %s' % (what, n, ok[1]), w,
                                 '%s, size %d: parsing continues %s' % (what, n, ok[1]),
                                 'recovery.next:%s:%s' % (s.kind, 'corrupt' if corrupt else 'unknown'))
                # corruption flag
                fl = [e for e in s.effects if e.kind == 'setattr' and e.args[0] is S_SELF and
                      v.inv.get(cval(e.args[1])) == 'file_corruption' and e.args[2] is TRUE]
                nofind = {a: FALSE for e in fl for a in cond_atoms(e.cond) if a.op == 'brk'}
                res = [decide_num(assign(quiet(e.cond), nofind), {SIZE: n, mk('truthy', S('file_corruption')): False}) for e in fl]
                for g in gates:
                    pass
                m = True if any(x is True for x in res) else (None if None in res else False)
                R.decide(None if m is None else m == corrupt, 'recovery.report', '%s, size %d: %sreported as corruption' %
                         (what, n, '' if corrupt else 'not '), w, '%s, size %d: %sreported as corruption' %
                         (what, n, 'not ' if corrupt else ''), 'recovery.report:%s' % s.kind)
                # bytes skipped to get behind a sync inside of a message of an unknown type
                if not corrupt and n >= 8 and gates:
                    res = [skipped_marks(v, e, gates, n) for e in s.effects if e.kind == 'setattr' and e.args[0] is S_SELF and
                           v.inv.get(cval(e.args[1])) == 'file_corruption']
                    R.decide(True if any(x is True for x in res) else (None if None in res else False), 'recovery.skipped',
                             '%s, size %d: bytes skipped to get behind a sync are reported as corruption' % (what, n), w,
                             '%s, size %d: a sync inside of the message is found, but the skipped bytes are not reported as corruption' %
                             (what, n), 'recovery.skipped:%s' % s.kind)
                # a failed search in a payload does not switch off recovery
                for e in s.effects:
                    if e.kind == 'setattr' and e.args[0] is S_SELF and e.args[2] is FALSE:
                        attrs = {x for g in gates for x in walk(g)}
                        name = cval(e.args[1])
                        if not any(name in str(x.args) for x in attrs):
                            continue
                        at = cond_atoms(quiet(e.cond))
                        g = assign(quiet(e.cond), {a: TRUE for a in at if a in gates})
                        g = assign(g, {a: FALSE for a in cond_atoms(g) if a.op == 'brk'})
                        g = decide_num(g, {SIZE: n})
                        if not corrupt:
                            R.decide(None if g is None else not g, 'recovery.search', '%s: a payload without sync does not end recovery' % what,
                                     e.where, '%s: a payload without sync switches recovery off' % what, 'recovery.search')
            # the search loops
            for lid, i in inner:
                if not any(e.kind in ('read', 'seek') and e.e.loops and e.e.loops[-1][0] == lid for e in s.effects) and \
                        not any(('P', v.r.h) in c for _, c in i['back']):
                    continue
                search_loop(R, v, s, lid, i)
                if ch == CORRUPT:
                    search_end(R, v, lid, i)
            if s.kind == 'data':
                # a corrupt header starts a search right behind its first byte
                st = [e for e in s.effects if e.kind == 'read' and s.bodies and mk('read', *e.e.args) not in (s.hdr, s.bodies[0][0])
                      and len(e.e.loops) == len(s.loops)]
                for e in st:
                    off, n = e.args[1], e.args[2]
                    if n is SIZE:
                        R.decide(arith(off, add(POS, C(3))), 'recovery.payload', 'the payload of unknown messages is searched', e.where,
                                 'the search in the payload starts at %s' % show(off, 5), 'recovery.payload')
                    else:
                        d = sub(off, POS)
                        R.decide((1 <= cval(d) <= 1) if is_num(d) else None, 'recovery.start', 'the search starts behind the first byte', e.where,
                                 'the search starts at %s' % show(off, 5), 'recovery.start')
                if not st:
                    R.decide(None, 'recovery.start', 'no search for a sync found', w)


def skipped_marks(v, e, gates, n):
    """ this assignment marks the log as corrupt if a sync was found inside of a message """
    env = {SIZE: n, S('file_corruption'): 0, mk('truthy', S('file_corruption')): False}

    def settled(t):
        at = cond_atoms(t)
        return assign(t, {a: C(finds(v, a)) if a.op == 'brk' else TRUE for a in at if a in gates or a.op == 'brk'})
    g = decide_num(settled(quiet(e.cond)), env)
    if g is not True:
        at = [a for a in cond_atoms(quiet(e.cond)) if a.op == 'brk']
        return None if at and not any(finds(v, a) for a in at) else g
    val = e.args[2]
    conds = {}
    for a in all_conds(val):
        r = decide_num(settled(a), env)
        if r is not None:
            conds[a] = C(r)
    val = settle(val, conds)
    try:
        return bool(numeval(val, env))
    except KeyError:
        return decide_num(val, env)


def finds(v, a):
    """ this way out of a search loop is the one that is taken when something was found """
    lid, j = a.args[0], a.args[1]
    i = v.r.it.loopinfo.get(cval(lid) if isinstance(lid, T) else lid)
    if i is None:
        return True
    j = cval(j) if isinstance(j, T) else j
    ways = i['exits'] if isinstance(j, str) else i['brk']
    k = int(j[1:]) if isinstance(j, str) else j
    if k >= len(ways):
        return True
    for c, b in ways[k][0][len(i['pc']):]:
        f = [x for x in walk(c) if x.op == 'find']
        hit, miss = [decide_num(c, {x: n for x in f}) for n in (3, -1)] if f else (None, None)
        if f and hit is not None and bool(hit) == b and bool(miss) != b:
            return True
    return False


def resume(p, s, v, corrupt, n, inner):
    """ (verdict, text) for the position parsing continues at """
    one = add(POS, C(1))
    finds = [x for x in walk(p) if x.op == 'find']
    if finds:
        f = finds[0]
        if f.args[1] is not C(SYNC):
            return False, 'behind a search for %s' % show(f.args[1], 3)
        rd = f.args[0]
        if rd.op != 'read':
            return None, 'behind a search in %s' % show(rd, 3)
        d = sub(p, add(f, rd.args[1]))
        if is_num(d):
            return cval(d) == len(SYNC), 'behind the sync bytes' if cval(d) == len(SYNC) else \
                '%s bytes behind the start of the sync bytes' % cval(d)
        return (None if any(x.op in OPAQUE for x in walk(d)) else False), 'at %s' % show(p, 6)
    exp = one if corrupt else END
    r = arith(p, exp)
    if r is None or r is False and not is_num(sub(subst(p, {SIZE: C(n)}), POS)):
        return None, 'at %s' % show(p, 6)
    if r is False and arith(subst(p, {SIZE: C(n)}), subst(exp, {SIZE: C(n)})) is True:
        r = True
    return r, ('one byte later' if corrupt else 'behind its payload') if r else 'at %s' % show(p, 6)


def search_loop(R, v, s, lid, i):
    h = v.r.h
    w = 'pyulog/core.py:%s' % getattr(i['node'], 'lineno', '?')
    keys = [c for _, cells in i['back'] for c in cells]
    for pc, cells in i['back']:
        c = v.tr(s, conj(pc[len(i['pc']):]))
        p1 = cells.get(('P', h))
        p0 = i['head'].get(('P', h))
        if p0 is None or p1 is None:
            R.und('recovery.step', 'search loop not understood', w)
            continue
        # position of the chunk searched in this round and in the next one
        now = [x.args[0] for x in walk(conj(pc[len(i['pc']):])) if x.op == 'find' and x.args[0].op == 'read']
        nxt = [x for k, x in cells.items() if isinstance(x, T) and x.op == 'read' and x.args[0] is h]
        if not now:
            R.und('recovery.step', 'search loop not understood', w)
            continue
        q = now[0].args[1]
        ln = mk('len', now[0])
        cand = [x for x in nxt if x.args[1] is not q and any(y is ln or y is q for y in walk(x.args[1]))]
        if cand:
            q2 = cand[0].args[1]
        else:
            q2 = p1
        for L in (8, 9, 100, 512):
            d = subst(sub(q2, q), {ln: C(L)})
            if not is_num(d):
                R.und('recovery.step', 'step of the search not understood: %s' % show(d, 4), w)
                break
            d = cval(d)
            R.decide(0 < d <= L - (len(SYNC) - 1), 'recovery.step', 'chunks overlap so that no sync is missed (chunk of %d)' % L, w,
                     'after a chunk of %d bytes the search advances by %d: a sync across the border is missed' % (L, d)
                     if d > 0 else 'the search does not advance', 'recovery.step')
    # a hit ends the search
    for pc, cells in i['brk'] + i['exits']:
        pass


def search_end(R, v, lid, i):
    """ a search goes on while there is something to search, however far it gets """
    w = 'pyulog/core.py:%s' % getattr(i['node'], 'lineno', '?')
    flags = [i['head'].get(k) for k, x in i['init'].items() if isinstance(x, T) and (x is TRUE or x is FALSE)]
    pos = [x for x in i['head'].values() if isinstance(x, T) and x.op == 'lv' and x.args[0] == lid and x not in flags]
    base = len(i['pc'])
    for pc, _cells in i['exits'] + i['brk']:
        c = conj(pc[base:])
        for at in (10 ** 3, 10 ** 5, 10 ** 7, 10 ** 9):
            env = {}
            for x in walk(c):
                if x.op == 'find':
                    env[x] = -1
                elif x in pos:
                    env[x] = at
                elif x in flags:
                    pass
                elif x.op == 'lv' or x.op == 'tell' and x is not POS:
                    env[x] = 500
                elif x.op == 'unpack':
                    env[x] = 0
                elif x.op == 'len' and x.args[0].op == 'read':
                    env[x] = cval(x.args[0].args[2]) if is_num(x.args[0].args[2]) else 0
            if decide_num(c, env) is True:
                R.bad('recovery.give_up', 'the search for a sync ends before the end of the file', w, 'recovery.give_up')
                return
    R.ok('recovery.give_up', 'the search for a sync goes on to the end of the file', w)
    # the last chunk of the file is searched however short it is
    for n in (len(SYNC), len(SYNC) + 1):
        for pc, _cells in i['exits'] + i['brk']:
            c = conj(pc[base:])
            res = []
            for hit in (0, -1):
                env = {}
                for x in walk(c):
                    if x.op == 'find':
                        env[x] = hit
                    elif x in flags:
                        pass
                    elif x.op == 'lv' or x.op == 'tell' and x is not POS:
                        env[x] = 500
                    elif x.op == 'unpack':
                        env[x] = 0
                    elif x.op == 'len':
                        env[x] = n
                res.append(decide_num(c, env))
            if res == [True, True]:
                R.bad('recovery.last_bytes', 'a sync in the last %d bytes of the file is not looked for' % n, w, 'recovery.last_bytes')
                return
    R.ok('recovery.last_bytes', 'the last bytes of the file are searched', w)


@guard
def progress(R):
    """ every round of a message loop moves forward in the file """
    for ch in ALL_TYPES + [FOREIGN, CORRUPT]:
        v = mview(ch)
        for s in v.sections:
            w = where_ev(s.node)
            what = '%s in the %s section' % (name_of(ch), SECT[s.kind])
            for c, cells in s.backs:
                pos = prune(limit_ok(v.pos(s, cells)))
                live = {x for x in all_conds(pos)}
                outs = set()
                at = sorted(live, key=lambda x: x.nid)
                if len(at) > 12:
                    R.und('progress', '%s: not understood' % what, w)
                    continue
                for vals in itertools.product((TRUE, FALSE), repeat=len(at)):
                    env = dict(zip(at, vals))
                    if not consistent(env):
                        continue
                    outs.add(settle(pos, env))
                for p in outs:
                    d = sub(p, POS)
                    f = [x for x in walk(p) if x.op == 'find']
                    if f:
                        R.ok('progress', '%s: moves behind a sync' % what, w)
                        continue
                    lo = lo_of(d)
                    if lo is not None and lo >= 1:
                        R.ok('progress', '%s: moves on by at least %d' % (what, lo), w)
                    elif is_num(d):
                        R.bad('progress', '%s: parsing does not move forward (%s bytes)' % (what, cval(d)), w, 'progress:%s' % s.kind)
                    else:
                        dd = subst(d, {SIZE: C(0)})
                        if is_num(dd) and cval(dd) <= 0:
                            R.bad('progress', '%s: parsing does not move forward for an empty payload' % what, w,
                                  'progress:%s' % s.kind)
                        else:
                            R.und('progress', '%s: continues at %s' % (what, show(p, 5)), w)


def file_env(terms, env, F):
    """ lengths of reads from a file of F bytes; nothing is found in what was read """
    todo = sorted({x for t in terms for x in walk(t) if x.op == 'find' or x.op == 'len' and x.args[0].op == 'read'}, key=lambda x: x.nid)
    for x in todo:
        try:
            if x.op == 'find':
                env[x] = -1
            else:
                rd = x.args[0]
                at, n = numeval(rd.args[1], env), numeval(rd.args[2], env)
                env[x] = max(0, min(n if n >= 0 else F, F - at))
                env[rd] = bytes(env[x])
        except KeyError:
            pass
    return env


@guard
def search_progress(R):
    """ a search inside of the file moves on until the end of the file """
    for ch in (FOREIGN, CORRUPT):
        v = mview(ch)
        secs = {s.lid for s in v.sections}
        for lid, i in v.r.it.loopinfo.items():
            if lid in secs or not i['back'] or not any(e.kind == 'read' and e.loops and e.loops[-1][0] == lid for e in v.r.trace):
                continue
            w = 'pyulog/core.py:%s' % getattr(i['node'], 'lineno', '?')
            if not (isinstance(i.get('iter'), T) and i['iter'].op == 'while' or i.get('iter') is None or str(show(i['iter'])).startswith('while')):
                R.ok('search', 'a search over a given number of parts ends', w)
                continue
            R.saw('searches', w)
            base = i['pc']
            for pc, cells in i['back']:
                n = 0
                while n < len(base) and n < len(pc) and base[n] == pc[n]:
                    n += 1
                c = conj(pc[n:])
                mine = [k for k, x in i['head'].items() if isinstance(x, T) and x.op == 'lv' and x.args[0] == lid and k in cells and
                        any(y.op == 'read' and x in list(walk(y.args[1])) for t in [c] + list(cells.values()) if isinstance(t, T) for y in walk(t))]
                if not mine:
                    R.und('search.progress', 'position of a search not recognised', w)
                    continue
                k = mine[0]
                sym, nxt = i['head'][k], cells[k]
                stuck, und = None, False
                for F in (1000, 5000):
                    for rem in list(range(0, 24)) + [500, 511, 512, 513, 519, 520, 999]:
                        p0 = F - rem
                        env = file_env([c, nxt], {sym: p0}, F)
                        cc = [a for a in cond_atoms(c)]
                        g = assign(c, {a: C(b) for a in cc for b in [decide_num(a, env)] if b is not None})
                        if g is FALSE:
                            continue
                        try:
                            p1 = numeval(nxt, env)
                        except KeyError:
                            und = True
                            continue
                        if p1 <= p0:
                            stuck = stuck or (rem, p1 - p0)
                if stuck:
                    R.bad('search.progress', 'a search does not move on (%d bytes) with %d bytes left in the file' % (stuck[1], stuck[0]), w, 'search.progress')
                else:
                    R.decide(None if und else True, 'search.progress', 'every round of a search moves on', w)


def open_modes(e):
    """ the modes a file may be opened with; None for one that is not understood """
    out, todo = [], [e.args[2]]
    while todo:
        t = todo.pop()
        if t.op == 'ite':
            todo += t.args[1:]
        else:
            out.append(cval(t) if is_const(t) and isinstance(cval(t), str) else None)
    return out


WRITING = ('os.remove', 'os.unlink', 'os.rename', 'os.replace', 'shutil.move', 'shutil.rmtree', 'os.truncate', 'os.chmod', 'os.utime')


@guard
def reads_only(R):
    """ reading a log opens it for reading only and applies nothing to it that changes files """
    for as_path in (False, True):
        r = run_ctor(['I', 'F', 'A', 'D', 'P', 'B', 'L'], as_path=as_path, header_only=FALSE)
        lab = 'reading a log by %s' % ('name' if as_path else 'its file')
        ops = [e for e in r.trace if e.kind == 'open']
        if as_path and not ops:
            R.und('reading', 'the place where the log is opened is not recognised')
        for e in ops:
            R.saw('opens', where_ev(e))
            m = open_modes(e)
            bad = [x for x in m if x is not None and set(x) & set('wax+')]
            R.decide(False if bad else (None if None in m else True), 'reading', '%s: it is opened for reading' % lab, where_ev(e), '%s: it is opened with mode %r' % (lab, bad[:1]), 'reading.mode')
        n = 0
        for e in r.trace:
            if e.kind in ('write', 'truncate', 'writelines') or e.kind == 'call' and called(e) in WRITING:
                if e.kind == 'write' and e.args[0].op == 'ext':
                    continue
                n += 1
                R.bad('reading', '%s: it is changed' % lab, where_ev(e), 'reading.write')
        if not n:
            R.ok('reading', '%s: nothing is written' % lab)


def called(e):
    a = e.args[0]
    return a if isinstance(a, str) else (cval(a) if is_const(a) else (a.args[0] if a.op == 'ext' else ''))


@guard
def resources(R):
    """ the file is opened for reading only and closed on every way out """
    for as_path in (False, True):
        for ho in (FALSE, TRUE):
            r = run_ctor(['I', 'F', 'A', 'D', 'P', 'B', 'L'], as_path=as_path, header_only=ho)
            lab = '%s%s' % ('path' if as_path else 'file object', ', header only' if ho is TRUE else '')
            h = r.h
            if as_path:
                ops = [e for e in r.trace if e.kind == 'open']
                if not ops:
                    R.und('resources.open', 'opening of the file not recognised')
                    continue
                for e in ops:
                    m = open_modes(e)
                    R.saw('opens', where_ev(e))
                    R.decide(set(m) == {'rb'} if None not in m else (None if all(x in ('rb', None) for x in m) else False), 'resources.mode', 'the log is opened for binary reading',
                             where_ev(e), 'the log is opened with mode %s' % m, 'resources.mode')
                    hs = [a for a in e.args if isinstance(a, T) and r.it.kind.get(a) == 'file']
                    h = hs[0] if hs else None
                if h is None:
                    cells = [k[1] for k in r.st.cells if k[0] == 'P']
                    h = cells[0] if cells else None
                if h is None:
                    R.und('resources.open', 'handle of the opened file not recognised')
                    continue
            for e in r.trace:
                if e.kind in ('write', 'truncate', 'writelines', 'remove', 'unlink', 'rename') or e.kind == 'call' and \
                        isinstance(e.args[0], (str, T)) and str(e.args[0] if isinstance(e.args[0], str) else
                                                               cval(e.args[0]) if is_const(e.args[0]) else '') in \
                        ('os.remove', 'os.unlink', 'os.rename', 'shutil.move', 'shutil.rmtree', 'os.truncate'):
                    R.bad('resources.readonly', 'parsing writes to a file', where_ev(e), 'resources.readonly')
            closes = [e for e in r.trace if e.kind == 'close' and e.args[0] is h]
            c = lor(*[conj(e.pc) for e in closes]) if closes else FALSE
            # every way out: normal end and all escaping exceptions
            end = conj(r.st.pc) if hasattr(r.st, 'pc') else TRUE
            close_ways(R, r, h, closes, lab, 'resources.close')


def close_ways(R, r, h, closes, lab, rule):
    """ the file is closed on every way out: at the normal end and at every escaping exception """
    ops = [e.node for e in r.trace if e.kind == 'open']
    cs = [conj(e.pc) for e in closes]
    seen = set()
    end = conj(r.st.pc) if hasattr(r.st, 'pc') else TRUE
    for lab2, x, cells, node in [('normal end', end, r.st.cells, None)] + [(e[1], conj(e[2]), e[3], e[4]) for e in r.escapes]:
        st = cells.get(('X', h, 'closed')) if cells else None
        if node is not None and any(node is n for n in ops):
            continue            # the opening itself failed
        if st is TRUE:
            ok = True
        elif st is FALSE:
            ok = False
        else:
            ok = closed_on(x, cs, r, lab2)
            if not ok and st is not None:
                ok = None
        if (lab2, ok) in seen:
            continue
        seen.add((lab2, ok))
        R.decide(ok, rule, '%s: closed at %s' % (lab, lab2), where_ev(closes[0]) if closes else '',
                 '%s: the file stays open at %s' % (lab, lab2), '%s:%s' % (rule, lab2.split('.')[0]))


def closed_on(exit_cond, closes, r, lab):
    """ is one of the closes executed on this way out """
    lits = set(facts_of(exit_cond))
    for c in closes:
        cl = set(facts_of(c))
        if cl <= lits:
            return True
    # compatible in some assignment?
    any_c = lor(*closes) if closes else FALSE
    if any_c is FALSE:
        return False
    for c in closes:
        both = land(exit_cond, c)
        if both is not FALSE:
            return True
    return False


@guard
def header_only(R):
    """ parsing only the header stops where the data would begin """
    for types in (['P'], ['F', 'A', 'D'], ['B', 'P'], ['L'], ['Q'], ['I'], ['M', 'O']):
        r = run_ctor(types, header_only=TRUE)
        full = run_ctor(types)
        rd = [e for e in r.trace if e.kind == 'read' and e.args[0] is r.h and e.loops and e.args[2] is C(3)]
        loops = []
        for e in rd:
            if e.loops[-1][0] not in loops:
                loops.append(e.loops[-1][0])
        live = [e for e in rd if conj(e.pc) is not FALSE]
        R.decide(len({e.loops[-1][0] for e in live}) == 1 if live else None, 'header_only.stop',
                 'with header only, only the definitions are read (%s)' % '/'.join(types), where_ev(live[-1]) if live else '',
                 'with header only, the data section is read too', 'header_only.stop')
        # the definitions are handled alike
        def effects(run):
            v = View(run, types[0])
            d = v.get('def')
            return v, d, [(e.kind, tuple(show(a, 12) if isinstance(a, T) else str(a) for a in e.args), show(quiet(e.cond), 12)) for e in d.effects]
        import re
        norm = lambda l: [re.sub(r"&([a-z]+)\d+|[LtSf]\d+", r"&\1", str(x)) for x in l]
        undone_after(R, View(r, types[0]), r, types)
        v1, d1, a = effects(r)
        v2, d2, b = effects(full)
        R.decide(norm(a) == norm(b) or None, 'header_only.same', 'the definitions are handled as in a full parse (%s)' % '/'.join(types),
                 where_ev(d1.node))


ROOTED = ('sub', 'attr', 'elem', 'lv', 'havoc')


def undone_after(R, v, r, types):
    """ what the definitions gave is left alone after them """
    d = v.get('def')
    if d is None or not any(l[0] == d.lid for e in r.trace for l in e.loops):
        return
    last = max(i for i, e in enumerate(r.trace) if any(l[0] == d.lid for l in e.loops))
    mine = {cval(e.args[1]) for e in d.effects if e.kind == 'setattr' and e.args[0] is S_SELF}
    mine |= {e.args[0].args[0][5:] for e in d.effects if e.kind in ('setitem', 'append', 'extend') and e.args[0].op == 'sym' and
             str(e.args[0].args[0]).startswith('self.')}
    mine |= {a for a, p in v.inv.items() if p in mine}
    for e in r.trace[last + 1:]:
        c = conj(e.pc)
        if c is FALSE or not e.args or not isinstance(e.args[0], T):
            continue
        x = subst(e.args[0], v.names)
        a = None
        if e.kind == 'setattr' and x is S_SELF:
            a = cval(e.args[1])
        elif e.kind in ('setitem', 'delitem', 'append', 'extend', 'insert', 'pop', 'clear', 'remove'):
            while x.op in ('sub', 'elem') or x.op == 'attr' and x.args[0] is not r.self and not x.args[0] is S_SELF:
                if x.op == 'attr' and x.args[1] in mine:
                    break
                x = x.args[0] if x.op != 'elem' else x.args[1]
                if not isinstance(x, T):
                    break
            if isinstance(x, T):
                a = x.args[1] if x.op == 'attr' else (x.args[0][5:] if x.op == 'sym' and str(x.args[0]).startswith('self.') else
                                                      (x.args[2] if x.op == 'lv' and len(x.args) > 2 else None))
        if a not in mine:
            m = re_attr(e.args[0], mine) if e.kind != 'setattr' else None
            a = m or a
        if a in mine:
            R.decide(False, 'header_only.after', '', where_ev(e), 'with header only, %s is changed after the definitions were read' %
                     str(a).lstrip('_'), 'header_only.after:%s' % str(a).lstrip('_'))
    R.ok('header_only.after', 'what the definitions gave is not changed afterwards (%s)' % '/'.join(types))


def re_attr(t, mine):
    """ attribute a container is the content of, if it is one of these """
    if t.op == 'lv' or t.op == 'havoc':
        for x in t.args:
            if isinstance(x, tuple) and len(x) == 3 and x[0] == 'A' and x[2] in mine:
                return x[2]
            if isinstance(x, str) and x.rsplit('.', 1)[-1] in mine:
                return x.rsplit('.', 1)[-1]
    return None


@guard
def types_agree(R):
    """ struct codes, sizes and numpy types of the basic types agree """
    it, st = new_interp('pyulog.core')
    for typ, (code, size) in BASIC.items():
        r = func_like(it, st, typ)
        R.saw('basic types', typ)
        R.decide(None if r is None or not is_num(r) else cval(r) == size, 'types.size', '%s has %d bytes' % (typ, size), 'pyulog/core.py',
                 'get_field_size gives %s for %s' % (show(r, 3) if r is not None else None, typ), 'types.size')
    # decoding of single values and dtype sizes: UNIVERSES[6] has a field of every type
    u = UNIVERSES[6]
    v, h = reg_view(u)
    s = need(v.get('data'), 'no data section')
    cont, e, at = subscription(v, s)
    pub = publish(v)
    dt = at.get(pub.get('dtype')) if isinstance(pub.get('dtype'), str) else None
    l, bo = dtype_list(dt) if dt is not None else (None, None)
    fs = flatten_format(u)
    if l is None or len(l) != len(fs):
        R.und('types.numpy', 'record layout not understood', e.where)
    else:
        for (n, np_), (_, t) in zip(l, fs):
            ok = np_ in (NUMPY[t] if isinstance(NUMPY[t], tuple) else (NUMPY[t],))
            R.decide(ok, 'types.numpy', '%s is decoded as numpy %s' % (t, np_), e.where, '%s is decoded as numpy %s' % (t, np_),
                     'types.numpy:%s' % t)
    sizes = [x for x in at.values() if isinstance(x, T) and is_num(x)]
    full = sum(BASIC[t][1] for _, t in fs)
    R.decide(True if any(cval(x) == full for x in sizes) else None, 'types.total', 'size of a record is the sum of its fields', e.where)


def func_like(it, st, typ):
    try:
        r, _ = it.run('pyulog.core', 'ULog.get_field_size', [C(typ)], {}, st=st.fork())
        return r
    except AnalysisError:
        return None


MUTATORS = {'add', 'append', 'extend', 'insert', 'update', 'pop', 'popitem', 'clear', 'remove', 'discard', 'sort', 'reverse', 'setdefault',
            'fill', 'put', 'resize', 'difference_update', 'intersection_update', 'symmetric_difference_update'}
FRESH = {'set', 'dict', 'list', 'bytearray', 'deque', 'defaultdict', 'OrderedDict', 'Counter', 'array', 'zeros', 'empty'}


def _mutable(n):
    if isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(n, ast.Call):
        f = n.func
        return (f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else '') in FRESH
    return False


def _targets(n):
    if isinstance(n, (ast.Tuple, ast.List)):
        return [y for x in n.elts for y in _targets(x)]
    return [n]


def _alias_of(v, names):
    """ can the expression be the object of one of the names """
    if isinstance(v, ast.Name):
        return v.id in names
    if isinstance(v, ast.BoolOp):
        return any(_alias_of(x, names) for x in v.values)
    if isinstance(v, ast.IfExp):
        return _alias_of(v.body, names) or _alias_of(v.orelse, names)
    if isinstance(v, ast.NamedExpr):
        return _alias_of(v.value, names)
    return False


def changes_of(tree):
    """ (expression, node) pairs: objects changed in place by the statements of a tree """
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            yield n.func.value, n
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.AnnAssign)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in [y for x in ts for y in _targets(x)]:
                if isinstance(t, ast.Subscript):
                    yield t.value, n
                elif isinstance(n, ast.AugAssign):
                    yield t, n


@guard
def defaults_shared(R):
    """ no default argument is an object that calls change or keep and change later """
    for mod in ('pyulog/core.py', 'pyulog/px4.py', 'pyulog/db.py'):
        try:
            with open(os.path.join(REPO, mod)) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            continue
        changed = {x.attr: n for x, n in changes_of(tree) if isinstance(x, ast.Attribute)}
        for fn in ast.walk(tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            a = fn.args
            pairs = list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y]
            for arg, d in pairs:
                R.saw('default arguments', '%s:%s.%s' % (mod, fn.name, arg.arg))
                if not _mutable(d):
                    continue
                names, more = {arg.arg}, True
                while more:
                    more = False
                    for n in ast.walk(fn):
                        if isinstance(n, ast.Assign) and _alias_of(n.value, names):
                            for t in n.targets:
                                if isinstance(t, ast.Name) and t.id not in names:
                                    names.add(t.id)
                                    more = True
                where = '%s:%d (%s)' % (mod, fn.lineno, fn.name)
                hit = [n for x, n in changes_of(fn) if _alias_of(x, names)]
                kept = [t.attr for n in ast.walk(fn) if isinstance(n, ast.Assign) and _alias_of(n.value, names)
                        for t in n.targets if isinstance(t, ast.Attribute) and t.attr in changed]
                R.decide(not hit and not kept, 'defaults.shared', 'the default of %s is never changed' % arg.arg, where,
                         'the default of %s is one object for all calls, and it is changed (line %d)' %
                         (arg.arg, (hit[0] if hit else changed[kept[0]] if kept else fn).lineno), 'instances.shared:%s' % arg.arg)
            R.ok('defaults.shared', 'defaults of %s:%s are not shared' % (mod, fn.name))


@guard
def instances(R):
    """ what one log parsed is not visible in another one """
    seen = 0
    for types in (['I', 'M', 'P', 'Q', 'F', 'A', 'D', 'L', 'C', 'O', 'S', 'B'],):
        r = run_ctor(types)
        st0 = r.it.start()
        attrs = {}
        for k, x in r.st.cells.items():
            if k[0] == 'A' and k[1] is r.self and isinstance(x, T) and x.op == 'ref':
                attrs[x] = k[2]
        fresh = {e.args[1] for e in r.trace if e.kind == 'new' and len(e.args) > 1 and isinstance(e.args[1], T)}
        for e in r.trace:
            if e.kind not in ('setattr', 'setitem', 'append', 'extend', 'insert', 'delitem', 'delattr', 'pop', 'popitem', 'clear',
                              'dupdate', 'remove', 'sort', 'lsort', 'discard', 'setglobal', 'setvar'):
                continue
            c = e.args[0]
            if not isinstance(c, T):
                continue
            root = c
            while root.op in ('sub', 'attr', 'elem'):
                root = root.args[0] if root.op != 'elem' else root.args[1]
            seen += 1
            if root.op in ('class', 'mod', 'module') or root.op == 'sym' and root.args[0] not in ('log_file', 'filter'):
                nm = '%s.%s' % (show(c, 3), cval(e.args[1]) if e.kind == 'setattr' and is_const(e.args[1]) else '')
                R.bad('instances.shared', 'parsing changes %s, which all logs share' % nm, where_ev(e),
                      'instances.shared:%s' % (cval(e.args[1]) if e.kind == 'setattr' and is_const(e.args[1]) else show(c, 2)))
            elif root.op == 'ref' and is_shared(r, root):
                R.bad('instances.shared', 'parsing changes an object that all logs share', where_ev(e),
                      'instances.shared:%s' % attrs.get(root, 'container'))
    R.saw('updates', str(seen))
    if seen:
        R.ok('instances.shared', '%d updates examined' % seen)


def is_shared(r, ref):
    """ was the object created before the constructor ran (class or module level) """
    e = [x for x in r.st.cells if len(x) > 1 and x[0] == 'A' and x[1].op in ('class', 'mod') and r.st.cells[x] is ref]
    return bool(e)


@guard
def strings(R):
    """ undecodable text is tolerated unless the caller asks for errors """
    r = run_ctor(['I', 'P', 'F', 'L', 'C', 'M', 'A', 'Q'], strexc=TRUE)
    bad = [x for x in r.escapes if x[1] == 'UnicodeDecodeError']
    R.decide(not bad, 'strings.tolerate', 'undecodable text does not stop parsing', wh(None, bad[0]) if bad else '',
             'undecodable text stops parsing', 'strings.tolerate')
    r2 = run_ctor(['I', 'P', 'F', 'L'], strexc=FALSE)
    bad2 = [x for x in r2.escapes if x[1] == 'UnicodeDecodeError']
    R.decide(True if bad2 else None, 'strings.strict', 'undecodable text raises if the caller asks for it')
