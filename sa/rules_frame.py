""" Rules about the parser: positions, framing, truncation, errors, recovery """
from .rules_parse import *
from .rules_parse import same

MAGIC = b'\x55\x4c\x6f\x67\x01\x12\x35'
SYNC = bytes([0x2F, 0x73, 0x13, 0x20, 0x25, 0x0C, 0xBB, 0x12])
END = add(add(POS, C(3)), SIZE)
KNOWN_DEF = ['I', 'M', 'F', 'P', 'Q', 'B']
KNOWN_DATA = ['I', 'M', 'P', 'Q', 'A', 'L', 'C', 'D', 'O', 'S']


def facts_of(c):
    """ literals of a conjunction """
    return list(c.args) if c.op == 'and' else [c]


def fact_subst(t, c):
    """ replace lengths pinned by the condition """
    env = {}
    for x in facts_of(c):
        if x.op == 'not' and x.args[0].op == 'lt' and x.args[0].args[0].op == 'len' and \
                x.args[0].args[0].args[0].op == 'read' and x.args[0].args[0].args[0].args[2] is x.args[0].args[1]:
            env[x.args[0].args[0]] = x.args[0].args[1]
        if x.op == 'eq':
            a, b = x.args
            if is_const(a) and not is_const(b):
                env[b] = a
            elif is_const(b) and not is_const(a):
                env[a] = b
    return subst(t, env) if env else t


def pos_after(t, H=None):
    return t


def where_ev(e):
    return where_of(e)


@guard
def header_check(R):
    """ nothing but the header is read unless it is 16 bytes with the right magic """
    v = mview('P')
    r = v.r
    reads = [e for e in r.trace if e.kind == 'read' and e.args[0] is r.h and not e.loops]
    if not reads:
        raise Und('no read of the file header')
    e0 = reads[0]
    R.saw('header reads', where_ev(e0))
    R.decide(truth(eq(e0.args[1], C(0))), 'header.start', 'the header is read from the start of the file', where_ev(e0))
    d = v.get('def')
    if d is None:
        raise Und('no definitions section')
    pc = conj(d.info['pc'])
    hdrs = [mk('read', *e.args) for e in reads]
    # length and magic on the way to the definitions
    start = fact_subst(d.info['init'].get(('P', r.h), NONE), pc)
    n = sum(cval(e.args[2]) for e in reads if is_num(e.args[2]) and cval(e.args[2]) > 0)
    h = hdrs[0]
    if len(hdrs) == 1:
        L = mk('len', h)
        lits = facts_of(pc)
        # try lengths 0..16: only the full header may get through
        for k in range(0, 17):
            env = {L: C(k)}
            g = subst(pc, env)
            g2 = g
            for a in cond_atoms(g):
                if a.op in ('eq', 'startswith') and any(x is h for x in walk(a)):
                    g2 = subst(g2, {a: TRUE})
            if k < 16:
                R.decide(True if g2 is FALSE else (None if opaque(g2) or not is_const(g2) else False), 'header.length',
                         'a file of %d bytes is rejected' % k, where_ev(e0),
                         'a file with a header of only %d bytes is parsed' % k, 'header.length')
            else:
                R.decide(False if g2 is FALSE else (True if g2 is TRUE else None), 'header.length',
                         'a complete header is accepted', where_ev(e0))
        good = MAGIC + b'\x01' + bytes(range(1, 9))
        for what, b, want in [('the magic', good, True), ('another version', MAGIC + b'\x00' + bytes(8), True)] + \
                [('byte %d of the magic changed' % i, good[:i] + bytes([good[i] ^ x]) + good[i + 1:], False)
                 for i in range(7) for x in (1, 0x80, 0xff)]:
            g = subst(pc, {h: C(b)})
            R.decide(bool(cval(g)) == want if is_const(g) else None, 'header.magic', 'a header with %s is %s' %
                     (what, 'accepted' if want else 'rejected'), where_ev(e0), 'a header with %s is %s' %
                     (what, 'rejected' if want else 'accepted'), 'header.magic')
    else:
        R.und('header.length', 'header read in pieces')
    R.decide(truth(eq(start, C(16))), 'header.end', 'the definitions start at offset 16', where_ev(e0),
             'the definitions start at %s' % show(start, 5))
    # what is taken from it
    got = {p: e for p, e in top_setattr(v)}
    ts = start_time(v)
    if ts is not None and same(ts, mkunpack('Q', h, C(8)))[0] is not True:
        for x in (bytes(range(1, 9)), bytes(range(0xf1, 0xf9)), b'\xff' * 8, bytes(8), b'\0' * 7 + b'\x80', b'\x80' + b'\0' * 7):
            c = subst(ts, {h: C(MAGIC + b'\x01' + x)})
            if not is_const(c):
                break
            if cval(c) != int.from_bytes(x, 'little'):
                ts = c
                break
        else:
            ts = mkunpack('Q', h, C(8))
    R.decide(None if ts is None else same(ts, mkunpack('Q', h, C(8)))[0], 'header.timestamp',
             'the start time is the 8 byte little-endian integer at offset 8', where_ev(e0),
             'the start time is taken from %s' % (show(ts, 5) if ts is not None else '?'), 'header.timestamp')
    fv = d.info['init'].get(('A', v.r.self, '_file_version'))
    if fv is not None and len(hdrs) == 1:
        for k in (0, 1, 2, 127, 128, 200, 255):
            g = subst(fv, {h: C(MAGIC + bytes([k]) + bytes(range(1, 9)))})
            R.decide(cval(g) == k if is_const(g) else None, 'header.version', 'the version is byte 7 (%d)' % k, where_ev(e0),
                     'the version of a file with %d in byte 7 is %s' % (k, show(g, 4)), 'header.version')
    # failing means raising
    exps = [x for x in r.escapes if x[0] == 'explicit']
    R.decide(True if exps else False, 'header.raise', 'an invalid header raises', where_ev(e0),
             'an invalid header does not raise', 'header.raise')
    # data read only under the same conditions
    for e in r.trace:
        if e.kind == 'read' and e.loops and e.args[0] is r.h:
            c = conj(e.pc)
            for x in facts_of(pc):
                if x not in facts_of(c):
                    R.und('header.guard', 'a read of messages is not guarded by the header check', where_ev(e))


def top_setattr(v):
    for e in v.r.trace:
        if e.kind == 'setattr' and not e.loops and e.args[0] is v.r.self and cval(e.args[1]) in v.inv:
            yield v.inv[cval(e.args[1])], e


def start_time(v):
    """ value of start_timestamp when the definitions begin """
    d = v.get('def')
    a = attr_of('start_timestamp')
    return d.info['init'].get(('A', v.r.self, a))


def truth(t):
    """ True / False / None of a boolean term """
    return cval(t) if is_const(t) else None


def arith(a, b):
    """ are two positions equal """
    if a is b:
        return True
    d = eq(a, b)
    if is_const(d):
        return cval(d)
    g = grid_equal(a, b)[0]
    if g is not None:
        return g
    if opaque_pos(a):
        return None
    return False if a.op in ('poly', 'const', 'unpack', 'tell') else None


def opaque_pos(a):
    return any(x.op in OPAQUE and x is not POS for x in walk(a))


def under(c, env):
    """ condition with the position limit etc. settled """
    return assign(c, env)


@guard
def framing(R):
    """ the next message starts right behind the payload of this one """
    for ch in ALL_TYPES + [FOREIGN]:
        v = mview(ch)
        if len(v.sections) < 2:
            R.und('framing', 'message loops not recognised for %s' % name_of(ch))
            continue
        for s in v.sections:
            if s.kind == 'app':
                continue
            what = '%s in the %s section' % (name_of(ch), SECT[s.kind])
            w = where_ev(s.node)
            R.saw('message kinds', '%s/%s' % (name_of(ch), s.kind))
            R.decide(truth(eq(v.tr(s, s.hdr.args[1]), POS)), 'framing.header', '%s: header read at the message start' % what, w,
                     '%s: the header is read at %s' % (what, show(v.tr(s, s.hdr.args[1]), 5)), 'framing.header')
            if not s.bodies:
                # a payload that is not read has to be passed over
                ends = [prune(limit_ok(given(calm_value(v.pos(s, cells)), quiet(c)))) for c, cells in s.backs if quiet(c) is not FALSE]
                for p in ends:
                    R.decide(arith(p, END), 'framing.next', '%s: next message behind the payload' % what, w,
                             '%s: parsing continues at %s' % (what, show(p, 6)), 'framing.next:%s' % s.kind)
                if not ends:
                    R.und('framing.body', '%s: payload read not recognised' % what, w)
                continue
            b, eb = s.bodies[0]
            o = arith(v.tr(s, b.args[1]), add(POS, C(3)))
            R.decide(o, 'framing.body', '%s: payload follows the header' % what, where_ev(eb),
                     '%s: the payload is read at %s' % (what, show(v.tr(s, b.args[1]), 5)), 'framing.body')
            o = same(v.tr(s, b.args[2]), SIZE)
            R.decide(o[0], 'framing.size', '%s: payload has the size of the header' % what, where_ev(eb),
                     '%s: %s bytes are read for the payload' % (what, o[1]), 'framing.size')
            known = KNOWN_DEF if s.kind == 'def' else KNOWN_DATA
            if ch in known or (s.kind == 'data' and ch in ('F', 'B', 'R') or s.kind == 'def' and ch in ('R', 'D', 'O', 'S')):
                plain = ch in known
                for c, cells in s.backs:
                    for lab, cc, pos in (('', quiet(c), calm_value(v.pos(s, cells))),
                                         (' (malformed)', raisedc(c) if any(x.op == 'raised' for x in cond_atoms(c)) else quiet(c),
                                          raisedv(v.pos(s, cells)))):
                        if cc is FALSE or not plain:
                            continue
                        pos = prune(limit_ok(given(pos, cc)))
                        o = arith(pos, END)
                        if o is None:
                            ends = ite_leaves(pos)
                            found = [x for x in ends if any(y.op == 'find' for y in walk(x)) and any(y.op == 'read' for y in walk(x))]
                            if found:
                                o, pos = False, found[0]
                        R.decide(o, 'framing.next', '%s%s: next message behind the payload' % (what, lab), w,
                                 '%s%s: parsing continues at %s' % (what, lab, show(pos, 6)),
                                 'framing.next:%s' % s.kind)
                if plain:
                    left = [c for c, cells in s.brks + s.exits if quiet(c) is not FALSE]
                    R.decide(True if not left else (None if any(opaque(c) for c in left) else False), 'framing.stay',
                             '%s does not end the section' % what, w,
                             '%s ends the section' % what, 'framing.stay:%s:%s' % (s.kind, ch))
            if s.kind == 'def' and ch in ('A', 'L', 'C'):
                hit = [(c, cells) for c, cells in s.brks + s.exits if quiet(c) is not FALSE]
                if not hit:
                    R.decide(None if any(opaque(c) for c, _ in s.backs) else False, 'framing.switch',
                             '%s ends the definitions' % what, w, '%s does not end the definitions' % what,
                             'framing.switch')
                for c, cells in hit:
                    R.decide(True if quiet(c) is TRUE else None, 'framing.switch', '%s ends the definitions' % what, w)
                    p = v.pos(s, cells)
                    R.decide(arith(p, POS), 'framing.switch', '%s is left for the data section' % what, w,
                             '%s: the data section starts at %s' % (what, show(p, 6)), 'framing.switch')
        # nothing moves the position between the sections
        for e in v.r.trace:
            if e.kind in ('seek', 'read') and not e.loops and e.args[0] is v.r.h and v.get('def') and \
                    v.r.trace.index(e) > v.r.trace.index(v.get('def').node):
                R.bad('framing.between', 'the file position is moved between the sections', where_ev(e), 'framing.between')


def ite_leaves(t):
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if x.op == 'ite':
            todo += x.args[1:]
        elif x not in out:
            out.append(x)
    return out


def raisedc(c):
    env = {x: TRUE for x in cond_atoms(c) if x.op == 'raised'}
    c2 = assign(c, env) if env else FALSE
    return quiet(c2) if c2 is not FALSE else c2


def raisedv(t):
    env = {x: TRUE for x in walk(t) if x.op == 'raised'}
    return settle(t, env) if env else t


def limit_ok(t):
    env = {x: FALSE for x in all_conds(t) if x.op == 'lt' and any(y is POS for y in walk(x)) and
           not any(y.op == 'tell' and y is not POS for y in walk(x))}
    return settle(t, env) if env else t


@guard
def truncation(R):
    """ an incomplete message ends the section without contributing anything """
    for ch in ALL_TYPES + [FOREIGN]:
        v = mview(ch)
        for s in v.sections:
            if s.kind == 'app' or not s.bodies:
                continue
            what = '%s in the %s section' % (name_of(ch), SECT[s.kind])
            b, eb = s.bodies[0]
            base = s.info['pc']
            short_body = {}
            short_hdr = {}

            def cond(pc):
                n = 0
                while n < len(base) and n < len(pc) and base[n] == pc[n]:
                    n += 1
                return conj(pc[n:])
            hl, bl = mk('len', s.hdr), mk('len', b)
            sz = b.args[2]
            conds = [cond(e.e.pc) for e in s.effects] + [cond(pc) for pc, _ in s.info['back'] + s.info['brk'] +
                                                         s.info['exits']]
            atoms = set()
            for c in conds:
                cond_atoms(c, atoms)

            def env_of(hn, bn, n):
                env = {}
                vals = {hl: hn, truthy(s.hdr): hn > 0, eq(s.hdr, C(b'')): hn == 0}
                if bn is not None:
                    vals.update({bl: bn, sz: n, truthy(b): bn > 0, eq(b, C(b'')): bn == 0})
                for a in atoms:
                    if not any(x in vals for x in walk(a)):
                        continue
                    try:
                        env[a] = C(bool(numeval(a, vals)))
                    except KeyError:
                        pass
                return env
            for lab, env in (('header cut', env_of(0, None, 0)), ('header cut', env_of(2, None, 0)),
                             ('payload cut', env_of(3, 6, 7)), ('payload cut', env_of(3, 0, 60000))):
                hdr_cut = lab == 'header cut'
                stops = False
                for c, cells in [(cond(pc), x) for pc, x in s.info['brk'] + s.info['exits']]:
                    if assign(c, env) is TRUE:
                        stops = True
                raises = False
                if hdr_cut and not stops:
                    # decoding a short header raises and that ends the loop
                    for e in s.effects:
                        if e.kind == 'may' and cval(e.args[0]) in ('struct.error', 'IndexError') and \
                                any(x is s.hdr for a in e.e.args if isinstance(a, T) for x in walk(a)) and \
                                assign(cond(e.e.pc), env) is TRUE:
                            raises = e
                            break
                    if raises:
                        stops = leaves(v, s, raises)
                if stops is False:
                    # does an iteration go on?
                    goes = [c for c in (assign(cond(pc), env) for pc, _ in s.info['back']) if c is not FALSE]
                    R.decide(None if not goes or all(opaque_c(v.tr(s, c)) for c in goes) else False, 'truncation.stop',
                             '%s: parsing ends at an incomplete message (%s)' % (what, lab), where_ev(eb),
                             '%s: parsing goes on after an incomplete message (%s)' % (what, lab),
                             'truncation.stop:%s' % s.kind)
                else:
                    R.decide(stops, 'truncation.stop', '%s: parsing ends at an incomplete message (%s)' % (what, lab),
                             where_ev(eb))
                # effects
                names = TRACKED
                clean = True
                for i, e in enumerate(s.effects):
                    if raises and e is raises:
                        break
                    c = e.args[0] if e.args and isinstance(e.args[0], T) else None
                    if c is None or e.kind in ('read', 'new', 'may', 'handler', 'print', 'seek'):
                        continue
                    if e.kind == 'setattr':
                        p = v.inv.get(cval(e.args[1])) if c is S_SELF else None
                    else:
                        p = v.public(c)
                    if p is None and v.public(c) is None or p == 'file_corruption':
                        continue
                    g = assign(cond(e.e.pc), env)
                    g = assign(g, {a: FALSE for a in cond_atoms(g) if a.op == 'raised'})
                    if g is FALSE:
                        continue
                    clean = False
                    R.decide(None if opaque_c(v.tr(s, g)) else False, 'truncation.effect', '%s: incomplete message (%s) ignored' % (what, lab),
                             e.where, '%s: an incomplete message (%s) still updates the log (%s)' % (what, lab, p or show(c, 3)),
                             'truncation.effect:%s:%s' % (s.kind, ch))
                if clean:
                    R.ok('truncation.effect', '%s: incomplete message (%s) contributes nothing' % (what, lab), where_ev(eb))


S_SELF = mk('sym', 'self')


def opaque_c(c):
    return any(opaque(a) for a in cond_atoms(c))


def leaves(v, s, e):
    """ does the exception raised at e end the loop (caught outside of it or escaping) """
    for h in v.r.trace:
        if h.kind == 'handler' and cval(e.args[0]) in flat(h.args[1]):
            depth = len(h.loops)
            if depth < len(s.loops):
                return True
    for x in v.r.escapes:
        if x[1] == cval(e.args[0]):
            return True
    return False


def flat(t):
    if isinstance(t, T):
        if t.op == 'const':
            x = cval(t)
            return set(flatten(x))
        return {cval(y) for y in walk(t) if y.op == 'const'}
    return set()


def flatten(x):
    if isinstance(x, (tuple, list)):
        for y in x:
            yield from flatten(y)
    else:
        yield x


@guard
def limit(R):
    """ without appended data a section is not cut off by a position limit """
    for ch in ('P', 'D', 'O'):
        v = mview(ch)
        for s in v.sections:
            for c, cells in s.brks + s.exits:
                c = calm(c)
                for a in cond_atoms(c):
                    try:
                        hit = numeval(c, {POS: 1 << 40, SIZE: 0xffff})
                    except KeyError:
                        continue
                    R.decide(not hit, 'limit', '%s messages are read up to the end of the file' % name_of(ch), where_ev(s.node),
                             '%s messages behind some offset are not read (%s)' % (name_of(ch), show(c, 5)), 'limit')
    R.ok('limit', 'section ends examined')


class OffsetHook:
    """ the three appended offsets of a flags message (None: not given) """

    def __init__(self, *vals):
        self.vals, self.fired = vals, set()

    def __call__(self, t):
        code, base, off = t.args
        if code in ('Q', 'q') and base.op == 'read' and base.args[2] is not C(3) and base.args[2].op == 'unpack' and \
                is_num(off) and 16 <= cval(off) < 40 and (cval(off) - 16) % 8 == 0:
            self.fired.add(cval(off))
            return C(self.vals[(cval(off) - 16) // 8])
        return None

    def __repr__(self):
        return 'OffsetHook%r' % (self.vals,)


def app_loops(v):
    """ loops around a data section, with what they iterate over """
    out = []
    for s in v.sections:
        if len(s.loops) > 1:
            i = v.r.it.loopinfo.get(s.loops[0][0])
            out.append((s, i))
    return out


@guard
def appended(R):
    """ every given appended offset bounds a part of the data; the rest follows """
    # the offsets of the flags message
    offs_attr = None
    for vals in ((100, 0, 0), (100, 200, 0), (100, 200, 300), (0, 0, 0), (0, 100, 0), (0, 0, 100), (100, 0, 200)):
        h = hook(OffsetHook, *vals)
        v = view('B', ['B'], unpack=h)
        d = v.get('def')
        if d is None or not h.fired:
            R.und('appended.offsets', 'appended offsets not recognised')
            continue
        want = [x for x in vals if x]
        found = None
        for e in d.effects:
            if e.kind == 'setattr' and e.args[0] is S_SELF:
                val = v.value(d, e.args[2])
                if val.op in ('list', 'tuple'):
                    xs = items_of(unraised(val))
                    if xs is not None and len(xs) <= 3 and all(is_num(x) for x in xs):
                        found = (e, [cval(x) for x in xs])
        if found is None:
            R.und('appended.offsets', 'appended offsets %r: list not recognised' % (vals,))
            continue
        R.decide(found[1] == want, 'appended.offsets', 'appended offsets %r are taken as %r' % (vals, want), found[0].where,
                 'appended offsets %r are taken as %r' % (vals, found[1]), 'appended.offsets')
    v = view('P', ['B', 'P'])
    apps = app_loops(v)
    if not apps:
        R.decide(None, 'appended.loop', 'no loop over the appended offsets')
        return
    final = v.get('data')
    R.decide(True if final is not None else None, 'appended.rest', 'the rest of the file is read after the appended parts')
    for s, i in apps:
        w = where_ev(s.node)
        it = i.get('iter')
        R.saw('appended loops', w)
        lid = s.loops[0][0]
        el = [x for c, _ in s.brks + s.backs for x in walk(c) if x.op == 'elem' and x.args[0] == lid]
        if not el and isinstance(it, T):
            # a list that is made from the offsets
            el = [x for c, _ in s.brks + s.backs for x in walk(c) if x.op == 'elem' and x.args[1] is it]
            li = v.r.it.loopinfo.get(el[0].args[0]) if el else None
            filters = [c for pc, _ in (li or {}).get('back', ()) for c, val in pc if any(x is el[0] for x in walk(c))] if el else []
            for c in filters:
                t = calm(subst(c, {el[0]: C(5000)}))
                t = subst(t, {x: mk('attr', x.args[0], 'position') for x in walk(t) if x.op == 'tell' and x.args})
                if t is TRUE or is_const(t) and cval(t):
                    continue
                R.decide(None if opaque(t) else False, 'appended.all', 'all appended offsets are used', w,
                         'appended offsets are only used if %s' % show(c, 5), 'appended.some')
        if not el:
            R.und('appended.limit', 'the part is not bounded by the offset', w)
            continue
        off = el[0]
        env0 = {mk('is', NONE, off): FALSE, mk('is', off, NONE): FALSE}
        brk = lor(*[calm(settle(c, env0)) for c, _ in s.brks])
        for P, n, o in ((100, 0, 103), (100, 0, 102), (100, 5, 108), (100, 5, 107), (100, 65535, 66000), (16, 10, 1 << 33),
                        (1 << 33, 7, 1 << 33)):
            try:
                got = bool(numeval(brk, {POS: P, SIZE: n, off: o}))
            except KeyError:
                R.und('appended.limit', 'end of a part not understood: %s' % show(brk, 5), w)
                break
            want = P + 3 + n > o
            R.decide(got == want, 'appended.limit', 'a message ending at offset%+d %s this part' %
                     (P + 3 + n - o if abs(P + 3 + n - o) < 1000 else 1000, 'is not in' if want else 'belongs to'), w,
                     'a message ending at %d with a part ending at %d is%s read with this part' % (P + 3 + n, o, '' if want else ' not'),
                     'appended.limit')
        # the next part starts at the offset
        for pc, cells in i['back']:
            p = cells.get(('P', v.r.h))
            is_off = lambda x: x is off or x is raw_of(off, s)
            if isinstance(p, T) and p.op == 'ite' and is_off(p.args[1]) != is_off(p.args[2]) and not any(is_off(x) or x.op == 'tell' for x in walk(p.args[0])) \
                    and not any(is_off(x) for x in walk(p.args[2] if is_off(p.args[1]) else p.args[1])):
                R.bad('appended.seek', 'the next part starts at the offset only if %s' % show(p.args[0] if is_off(p.args[1]) else lnot(p.args[0]), 4), w,
                      'appended.seek')
                continue
            R.decide(True if p is off or p is raw_of(off, s) else arith_raw(p, off), 'appended.seek',
                     'the next part starts at the offset', w, 'the next part starts at %s' % show(p, 5), 'appended.seek')
        # the loop runs over the offsets of the flags message in order
        if it is not None and isinstance(it, T):
            ops = {x.op for x in walk(it)}
            R.decide(True if it.op in ('lv', 'ref', 'attr', 'snap', 'ite') else (False if it.op in ('slice', 'reversed', 'sorted') else None),
                     'appended.all', 'all appended offsets are used in order', w, 'not all appended offsets are used: %s' % show(it, 4))
        # only when the file says so
        c = conj(s.loops and i['pc'] or ())
        atoms = [a for a in cond_atoms(c) if any(x.op == 'bitand' for x in walk(a))]
        ok = True if atoms else None
        if not atoms and not flag_matters(v, s, c) and not any(x.op in OPAQUE and x.op != 'lv' for x in walk(c)):
            ok = False
        R.decide(ok, 'appended.flag', 'appended data is only considered if the flag is set', w,
                 'appended offsets are used although the flag for appended data is not set', 'appended.flag')


def unraised(t):
    """ a list where nothing raised """
    if t.op != 'list':
        return t
    out = []
    for p in t.args:
        if p.op == 'p_cond' and p.args[0].op == 'raised':
            out += unraised(mk('list', *p.args[2])).args
        else:
            out.append(p)
    return mk('list', *out)


def flag_matters(v, s, c):
    """ does anything about the appended data depend on the incompatible flags? """
    hv = pubmap().get('has_data_appended')
    inc = {x.args[0] for x in walk(hv[1]) if x.op == 'sub'} if hv and isinstance(hv[1], T) else None
    if not inc:
        return True
    names = {x.args[1] for x in inc if x.op == 'attr'} | {x.args[0] for x in inc if x.op == 'sym'}

    def uses(t):
        return any(x.op == 'bitand' or x in inc or x.op == 'attr' and x.args[1] in names or
                   x.op == 'unpack' and is_num(x.args[2]) and cval(x.args[2]) == 8 for x in walk(t))
    if uses(c) or any(uses(x) for x, _ in s.brks + s.backs):
        return True
    b = mview('B').get('def')
    if b is None:
        return True
    offs = [mkunpack('Q', BODY, C(16 + 8 * i)) for i in range(3)]
    for e in b.effects:
        if e.kind not in ('setattr', 'append', 'extend', 'insert', 'pop', 'clear', 'delitem', 'remove', 'setitem'):
            continue
        val = mk('tuple', *[v2 for v2 in (mview('B').value(b, x) for x in e.args[1:] if isinstance(x, T)) if isinstance(v2, T)])
        lst = mview('B').value(b, e.args[0]) if e.kind != 'setattr' else val
        if any(x in offs for x in walk(val)) or any(x in offs for x in walk(lst)):
            if uses(e.cond) or uses(val):
                return True
    return False


def raw_of(off, s):
    return off


def arith_raw(p, off):
    """ is the position p the offset (a position after reading a part is at or behind the offset it is bounded by) """
    if p is None or p is off:
        return p is off or None
    if p.op == 'ite':
        c, a, b = p.args
        out = []
        for x, val in ((a, True), (b, False)):
            if x is not off and (c.op == 'eq' and val or c.op == 'not' and c.args[0].op == 'eq' and not val):
                e = c if c.op == 'eq' else c.args[0]
                out.append(True if off in e.args and x in e.args else None)
            elif x is not off and any(y.op == 'lt' and off in y.args and x in y.args for y in walk(c)):
                out.append(False)
            else:
                out.append(arith_raw(x, off))
        return False if False in out else (None if None in out else True)
    return None if any(x.op in OPAQUE for x in walk(p)) else False


@guard
def flags(R):
    """ files with unknown incompatible flags are refused, others are not """
    v = mview('B')
    d = need(v.get('def'), 'no definitions section')
    bits = [mkunpack('B', BODY, C(8 + i)) for i in range(8)]
    base = d.info['pc']
    raises = [v.cond(d, x[2], base) for x in v.r.escapes if x[0] == 'explicit' and
              any(y.op == 'unpack' and y.args[1] is d.bodies[0][0] for y in walk(conj(x[2])))] if d.bodies else []
    w = where_ev(d.node)
    if not raises:
        R.decide(False if not any(e.kind == 'raise' for e in d.effects) else None, 'flags.refuse',
                 'unknown incompatible flags raise', w, 'unknown incompatible flags are accepted', 'flags.refuse')
        return
    c = lor(*[calm(x) for x in raises])
    all_bits = [mkunpack('B', BODY, C(i)) for i in range(16)]
    offs = [mkunpack('Q', BODY, C(16 + 8 * i)) for i in range(3)]
    wrong = {}
    # the list of offsets that are given
    lists = [e.args[2] for e in d.effects if e.kind == 'setattr' and e.args[2].op == 'ref' and
             any(x is offs[0] for x in walk(v.value(d, e.args[2])))]
    for offsets in ((0, 0, 0), (1000, 0, 0), (1000, 2000, 3000)):
        for other in (0, 1):   # alone, and together with appended data
            for i in range(16):
                for val in range(256):
                    env = {b: 0 for b in all_bits}
                    env[all_bits[8]] = other
                    env[all_bits[i]] = val
                    env.update(zip(offs, offsets))
                    env.update({SIZE: 40, POS: 16})
                    for x in lists:
                        env[x] = [o for o in offsets if o]
                        env[mk('len', x)] = len(env[x])
                    try:
                        got = bool(numeval(c, env))
                    except KeyError as k:
                        R.und('flags.refuse', 'condition not understood: %s' % show(k.args[0], 4), w)
                        return
                    want = i >= 8 and val > (1 if i == 8 else 0)
                    if got != want:
                        wrong.setdefault(i, (val, want))
    for i in range(16):
        what = 'incompatible flag byte %d' % (i - 8) if i >= 8 else 'compatible flag byte %d' % i
        R.saw('flag bits', what)
        val, want = wrong.get(i, (0, False))
        R.decide(i not in wrong, 'flags.refuse', 'every value of the %s is handled' % what, w,
                 '%s with value 0x%02x is %s' % (what, val, 'accepted' if want else 'refused'), 'flags.refuse')
    for e in d.effects:
        if e.kind == 'setattr' and e.args[0] is S_SELF:
            val = v.value(d, e.args[2])
            xs = items_of(val) if isinstance(val, T) else None
            if xs and len(xs) == 8 and all(x.op == 'unpack' for x in xs):
                o = cval(xs[0].args[2]) if is_num(xs[0].args[2]) else -1
                exp = [mkunpack('B', BODY, C(o + i)) for i in range(8)]
                R.decide(o in (0, 8) and all(a is b for a, b in zip(xs, exp)), 'flags.bytes', 'flag bytes in order', e.where)
    # the flag the appended data depends on
    hv = pubmap().get('has_data_appended')
    if hv and isinstance(hv[1], T):
        inc = [x for x in walk(hv[1]) if x.op == 'sub']
        if inc:
            for val in range(4):
                try:
                    got = bool(numeval(hv[1] if hv[1].op in TM.BOOL_OPS else truthy(hv[1]), {inc[0]: val}))
                except KeyError:
                    R.und('flags.appended', 'has_data_appended not understood')
                    break
                R.decide(got == bool(val & 1), 'flags.appended', 'appended data is announced by bit 0', '',
                         'incompatible flags %d announce appended data: %s' % (val, got), 'flags.appended')
            R.decide(truth(eq(inc[0].args[1], C(0))), 'flags.appended', 'bit 0 of the first incompatible byte')
        else:
            R.und('flags.appended', 'has_data_appended not understood')


PARSE_ERRORS = {'IndexError', 'KeyError', 'struct.error', 'ValueError', 'UnicodeDecodeError', 'AttributeError', 'TypeError',
                'OverflowError', 'RecursionError'}


@guard
def contained(R):
    """ malformed content of a complete message never ends parsing """
    for ch in ALL_TYPES + [FOREIGN, CORRUPT]:
        v = mview(ch)
        R.saw('message kinds', name_of(ch))
        bad = 0
        for x in v.r.escapes:
            kind, exc, pc, cells, node, chain, reason, loops, _ = x
            if not loops:
                if exc == 'TypeError' and kind == 'explicit':
                    continue         # invalid header
                R.bad('contained.escape', '%s can leave the parser (%s)' % (exc, chain[-1]), wh(v, x),
                      'contained.escape:%s:%s' % (exc, chain[-1].split('.')[-1]))
                bad += 1
                continue
            if kind == 'explicit' and ch == 'B' and exc in ('ValueError', 'NotImplementedError'):
                continue             # refused flags
            c = conj(pc)
            vc = calm(c)
            if vc is FALSE:
                continue
            bad += 1
            R.bad('contained.escape', 'a malformed %s message makes %s leave the parser (%s)' % (name_of(ch), exc, chain[-1]),
                  wh(v, x), 'contained.escape:%s:%s' % (exc, chain[-1].split('.')[-1]))
        if not bad:
            R.ok('contained.escape', 'no exception raised by a %s message leaves the parser' % name_of(ch))
        # what is caught is reported as corruption
        for h in v.r.trace:
            if h.kind != 'handler':
                continue
            ex = flat(h.args[1])
            for s in v.sections:
                live = [e for e in s.effects if e.kind == 'may' and cval(e.args[0]) in ex and calm(e.cond) is not FALSE and
                        not any(isinstance(a, T) and HDR in list(walk(a)) and BODY not in list(walk(a)) for a in e.args)]
                if h.loops and h.loops[-1][0] == s.lid and live:
                    g = v.cond(s, h.pc, s.info['pc'])
                    marks = [e for e in s.effects if e.kind == 'setattr' and e.args[0] is S_SELF and
                             v.inv.get(cval(e.args[1])) == 'file_corruption' and
                             any(a.op == 'raised' for a in cond_atoms(e.cond))]
                    reported(R, v, s, h, g, marks, ch)


def wh(v, x):
    class E:
        pass
    e = E()
    node, chain = x[4], x[5]
    return 'pyulog/core.py:%s (%s)' % (getattr(node, 'lineno', '?'), chain[-1] if chain else '?')


def reported(R, v, s, h, g, marks, ch):
    rz = [a for a in cond_atoms(g) if a.op == 'raised']
    fc = mk('truthy', S('file_corruption'))
    ok = False
    if any(e.kind == 'raise' and e.e.pc == h.pc and e.e.frames == h.frames for e in s.effects):
        return      # passed on as another error, to another handler or out of the parser
    for e in marks:
        if e.args[2] is not TRUE:
            continue
        env = {a: TRUE for a in rz}
        env[fc] = FALSE
        a = quiet_keep(assign(e.cond, env))
        b = quiet_keep(assign(g, env))
        if a is b or b is FALSE:
            ok = True
        else:
            r, _ = same_guard(a, b)
            ok = ok or bool(r)
    R.decide(True if ok else (None if any(opaque_c(e.cond) for e in marks) else False), 'contained.report',
             'a malformed %s message in the %s section marks the file as corrupt' % (name_of(ch), SECT[s.kind]), where_ev(h),
             'a malformed %s message in the %s section is not reported as corruption' % (name_of(ch), SECT[s.kind]),
             'contained.report:%s' % s.kind)


def quiet_keep(c):
    env = {x: FALSE for x in cond_atoms(c) if x.op == 'lt' and any(y is POS for y in walk(x))}
    return assign(c, env) if env else c


#: what a message of a type has to have to be recorded: bytes at its start, text separator
STRICT = {'I': (1, ' '), 'P': (1, ' '), 'M': (2, ' '), 'Q': (2, ' '), 'F': (0, ':'), 'A': (3, None), 'L': (9, None), 'C': (11, None),
          'O': (2, None)}
RECORDS = {'I': ['msg_info_dict'], 'P': ['initial_parameters', 'changed_parameters'], 'M': ['msg_info_multiple_dict'],
           'Q': ['default_parameters'], 'F': ['message_formats'], 'A': ['_subscriptions'], 'L': ['logged_messages'],
           'C': ['logged_messages_tagged'], 'O': ['dropouts']}


def needs_bytes(e):
    """ payload length without which this decoding fails, if it is one of the payload """
    if cval(e.args[0]) not in ('struct.error', 'IndexError') or len(e.args) < 2 or not isinstance(e.args[1], T):
        return None
    t = e.args[1]
    if t.op == 'unpackerr':
        base, off, n = t.args[:3]
        a = C(0)
        if base.op == 'slice' and base.args[0] is BODY:
            a = base.args[1]
        elif base is not BODY:
            return None
        return add(add(a, off), n) if is_num(n) else None
    if t.op == 'sub' and t.args[0] is BODY and is_num(t.args[1]):
        return add(t.args[1], C(1))
    if cval(e.args[0]) == 'IndexError' and t is BODY:
        return C(1)
    return None


@guard
def strict(R):
    """ nothing is made of a message whose payload is too short or has no separator """
    for ch, (n, sep) in STRICT.items():
        v = mview(ch)
        for s in v.sections:
            recs = [e for e in s.effects if e.kind in ('setitem', 'append') and e.args and isinstance(e.args[0], T) and
                    (v.public(e.args[0]) in RECORDS[ch]) and calm(e.cond) is not FALSE]
            if not recs:
                continue
            R.saw('message kinds', name_of(ch))
            may = [e for e in s.effects if e.kind in ('may', 'raise')]
            what = 'a %s message (%s section)' % (name_of(ch), SECT[s.kind])
            for e in recs:
                guards = [a for a in cond_atoms(e.cond) for x in walk(a) if x is SIZE and not any(y is POS for y in walk(a)) or
                          x.op == 'len' and x.args[0] is BODY]
                have = [cval(x) for x in map(needs_bytes, may) if x is not None and is_num(x)]
                short = n and max(have + [0]) < n
                if short and not guards:
                    odd = [m for m in may if m.kind == 'raise' or cval(m.args[0]) not in ('struct.error', 'IndexError', 'KeyError')]
                    R.decide(None if odd else False, 'strict.short', '%s without all its fields is dropped' % what, e.where,
                             '%s with a payload of less than %d bytes is recorded' % (what, n), 'strict.short:' + ch)
                elif not short:
                    R.ok('strict.short', '%s without all its fields is dropped' % what)
                if sep:
                    keys = [m for m in may if m.kind == 'may' and cval(m.args[0]) in ('IndexError', 'ValueError') and
                            any(x.op in ('split', 'index', 'find') and any(y is C(sep) for y in x.args[1:]) for a in m.args
                                if isinstance(a, T) for x in walk(a))]
                    if keys:
                        R.ok('strict.separator', '%s without a name is dropped' % what)
                        continue
                    val = [v.value(s, a) for a in e.args[1:] if isinstance(a, T)]
                    soft = any(x.op in ('partrest', 'partsep', 'parthead') for a in val for x in walk(a))
                    lit = [a for a in cond_atoms(e.cond) for x in walk(a) if x.op in ('partrest', 'partsep') or
                           x.op in ('in', 'count', 'find', 'len') and any(y.op == 'utf8' for y in walk(x))]
                    R.decide(False if soft and not lit else None, 'strict.separator', '%s without a name is dropped' % what, e.where,
                             '%s whose key has no name is recorded' % what, 'strict.separator:' + ch)


@guard
def section_ends(R):
    """ the definitions end at the first subscription or logged message and nowhere else; no message ends the data """
    for ch in ALL_TYPES + [FOREIGN]:
        v = mview(ch)
        for s in v.sections:
            n = 20
            c = lor(*[quiet_keep(quiet(x)) for x, _ in s.brks]) if s.brks else FALSE
            for a in sorted(cond_atoms(c), key=lambda x: x.nid):
                try:
                    c = assign(c, {a: C(bool(numeval(a, {SIZE: n, POS: 1000})))})
                except KeyError:
                    pass
            want = s.kind == 'def' and ch in ('A', 'L', 'C')
            R.saw('message kinds', '%s/%s' % (name_of(ch), s.kind))
            R.decide(cval(c) == want if is_const(c) else None, 'section.end', 'a %s message %s the %s section' %
                     (name_of(ch), 'ends' if want else 'does not end', SECT[s.kind]), where_ev(s.node),
                     'a %s message %s the %s section' % (name_of(ch), 'does not end' if want else 'ends', SECT[s.kind]), 'section.end:%s:%s' % (s.kind, ch))
