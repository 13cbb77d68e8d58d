""" Rules about the parser: what each message of a file does to the parsed log """
import itertools
import re
from .terms import *
from . import terms as TM
from .view import *
from .view import _cache
from .logic import *
from .sim import simulate
from .scen import *

BASIC = {'int8_t': ('b', 1), 'uint8_t': ('B', 1), 'int16_t': ('h', 2), 'uint16_t': ('H', 2), 'int32_t': ('i', 4),
         'uint32_t': ('I', 4), 'int64_t': ('q', 8), 'uint64_t': ('Q', 8), 'float': ('f', 4), 'double': ('d', 8),
         'bool': ('?', 1), 'char': ('c', 1)}
ALL_TYPES = ['I', 'M', 'P', 'Q', 'F', 'A', 'R', 'D', 'L', 'C', 'O', 'S', 'B']
DEPS = {'D': ['F', 'A', 'D'], 'A': ['F', 'A']}
CORRUPT, FOREIGN = 0, 1          # type bytes: never valid / not (yet) defined
S = lambda n: mk('sym', 'self.' + n)

#: containers of the log that the property tables talk about
TRACKED = ['msg_info_dict', 'msg_info_multiple_dict', 'initial_parameters', 'changed_parameters', 'message_formats',
           'logged_messages', 'logged_messages_tagged', 'dropouts', 'data_list', 'start_timestamp',
           'default_parameters']


class Rec(dict):
    """ an expected object: attribute -> expected value """


class AnyOf(list):
    """ any of these values """


def text(lo, errors='ignore', base=BODY):
    return mk('utf8', mkslice(base, lo, NONE) if lo is not C(0) else base, C(errors))


def info_terms(off=0, errors='ignore'):
    """ key string of an info-like message whose key length is at `off` """
    kl = mkunpack('B', BODY, C(off))
    start = add(C(off + 1), kl)
    ks = mk('utf8', mk('slice', BODY, C(off + 1), start), C(errors))
    sp = C(' ')
    key = AnyOf([mk('sub', mk('split', ks, sp), C(1)), mk('sub', mk('split', ks, sp, C(1)), C(1)),
                 mk('partrest', ks, sp, 'partition')])
    return start, key


def info_value(typ, start, errors='ignore'):
    if typ in BASIC:
        return mk('unpack', BASIC[typ][0], BODY, start)
    if typ.startswith('char['):
        return mk('utf8', mkslice(BODY, start, NONE), C(errors))
    return mkslice(BODY, start, NONE)


TYPES_I = list(BASIC) + ['char[5]', 'char[40]', 'float[3]', 'uint8_t[4]', 'int32_t[2]', 'foo_t']


def same(actual, exp):
    """ (True | False | None, description) """
    if isinstance(exp, AnyOf):
        best = (None, '')
        for x in exp:
            r = same(actual, x)
            if r[0] is True:
                return r
            if r[0] is False or best[0] is None:
                best = r
        return best
    if isinstance(exp, Rec):
        if not isinstance(actual, T):
            return False, 'a %s' % type(actual).__name__
        at = inst_attrs(actual)
        if at is None:
            return (None if opaque(actual) or actual.op == 'ref' else False), show(actual, 4)
        for k, x in exp.items():
            if k not in at:
                return False, 'attribute %s is missing' % k
            r = same(at[k], x)
            if r[0] is not True:
                return r[0], '%s is %s' % (k, r[1])
        return True, ''
    if isinstance(exp, (list, tuple)):
        a = actual
        if isinstance(a, T):
            a = items_of(a)
        if a is None:
            return None, show(actual, 4) if isinstance(actual, T) else str(actual)
        if not isinstance(a, (list, tuple)) or len(a) != len(exp):
            return False, shw(a)
        for x, y in zip(a, exp):
            r = same(x, y)
            if r[0] is not True:
                return r
        return True, ''
    if isinstance(exp, dict):
        if not isinstance(actual, dict):
            return None, show(actual, 4) if isinstance(actual, T) else str(actual)
        left = dict(actual)
        for k, x in exp.items():
            ks = k.alts if isinstance(k, Key) else [k]
            hit = [kk for kk in left if kk in ks]
            if not hit:
                if len(left) == 1 and len(exp) == 1:
                    kk = next(iter(left))
                    return (None if opaque(kk) else False), 'stored under %s' % show(kk, 8)
                return False, 'entry missing: has %s' % shw(actual)
            r = same(left.pop(hit[0]), x)
            if r[0] is not True:
                return r
        if left:
            return False, 'extra entries %s' % shw(left)
        return True, ''
    if not isinstance(actual, T):
        return False, shw(actual)
    actual = calm_value(actual)
    if actual is exp:
        return True, ''
    v, _ = same_value(actual, exp)
    if v is False and opaque(actual):
        v = None
    return v, show(actual, 8)


class Key:
    """ a dict key with accepted spellings """

    def __init__(self, alts):
        self.alts = list(alts) if isinstance(alts, list) else [alts]

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return self is o


def shw(x):
    if isinstance(x, T):
        return show(x, 6)
    if isinstance(x, dict):
        return '{' + ', '.join('%s: %s' % (show(k, 5), shw(v)) for k, v in x.items()) + '}'
    if isinstance(x, (list, tuple)):
        return '[' + ', '.join(shw(y) for y in x) + ']'
    return str(x)


def guard(fn):
    """ a rule that cannot cope reports undecided instead of raising """
    def wrapped(R, *a, **k):
        try:
            return fn(R, *a, **k)
        except (Und, AnalysisError) as e:
            R.und(fn.__name__, 'undecided: %s' % e)
        except RecursionError as e:
            R.und(fn.__name__, 'undecided: recursion limit (%s)' % e)
        except Exception as e:      # pylint: disable=broad-exception-caught
            import os
            if os.environ.get('SA_DEBUG'):
                raise
            R.und(fn.__name__, 'undecided: rule could not interpret the code (%s: %s)' % (type(e).__name__, e))
        return None
    wrapped.__name__ = fn.__name__
    wrapped.__doc__ = fn.__doc__
    return wrapped


def need(x, what):
    if x is None:
        raise Und(what)
    return x


def name_of(ch):
    return "'%s'" % ch if isinstance(ch, str) else '0x%02x' % ch


def mview(ch, **kw):
    """ view of a log that contains messages of one type (and those it depends on) """
    types = DEPS.get(ch, [ch])
    return view(ch if isinstance(ch, str) else chr(ch), types, **kw)


# ------------------------------------------------------------------ container effects of one message

def pub_effects(v, s):
    """ effects on the public state of the log """
    out = []
    for e in s.effects:
        c = e.args[0] if e.args and isinstance(e.args[0], T) else None
        if c is None or e.kind in ('read', 'seek', 'new', 'print', 'handler', 'raise', 'call', 'mcall', 'recall'):
            continue
        if e.kind == 'setattr':
            if c.op == 'sym' and c.args[0] == 'self' and cval(e.args[1]) in v.inv:
                out.append((v.inv[cval(e.args[1])], e))
            continue
        p = v.public(c)
        if p is not None and (p in TRACKED or p == 'file_corruption' or p == 'last_timestamp'):
            out.append((p, e))
    return out


def atoms_of_section(v, s, names):
    at = set()
    for p, e in pub_effects(v, s):
        if p in names:
            cond_atoms(quiet(e.cond), at)
    return at


def earlier_record(c):
    """ does this message equal one which an earlier message of the file left?  It may or may not """
    return c.op == 'eq' and any(x.op == 'ref' for x in c.args) and \
        all(x.op == 'p_other' and x.args[0] == 'acc' for y in c.args for x in walk(y) if x.op in OPAQUE)


def check_effect(R, rule, v, s, ch, cases, ignore=()):
    """ cases: list of (label, presence {container: initial content or None}, truth function, expected contents)
        every assignment of other atoms must give the same result """
    names = [n for n in TRACKED if n not in ignore]
    at = atoms_of_section(v, s, names)
    what = '%s message in the %s section' % (name_of(ch), SECT[s.kind])
    R.saw('message kinds', '%s/%s' % (name_of(ch), s.kind))
    for label, init, fixed, expected in cases:
        env = {}
        rest = []
        for a in sorted(at, key=lambda x: x.nid):
            f = fixed(a)
            if f is None:
                rest.append(a)
            else:
                env[a] = C(f)
        if len(rest) > 8:
            R.und(rule, '%s (%s): too many conditions' % (what, label))
            continue
        keys = {}
        for a in at:
            if a.op == 'in' and a.args[1].op == 'sym' and a.args[1].args[0].startswith('self.'):
                keys[a.args[1].args[0][5:]] = a.args[0]
        start = {}
        for cname, content in init.items():
            if isinstance(content, dict) and '__key__' in content:
                k = keys.get(cname)
                if k is None:
                    ks = [e.args[1] for p, e in pub_effects(v, s) if p == cname and e.kind == 'setitem'
                          and e.args[0] is S(cname)]
                    subs = [x.args[1] for p, e in pub_effects(v, s) if p == cname for x in walk(e.args[0])
                            if x.op == 'sub' and x.args[0] is S(cname)]
                    k = (ks + subs + [None])[0]
                start[cname] = {k: content['__key__']} if k is not None else {}
            else:
                start[cname] = content
        for p, e in pub_effects(v, s):
            # what is taken away was there before
            if e.kind == 'delitem' and not start.get(p) and p in names and e.args[0] is S(p):
                start[p] = {settle(e.args[1], env): OLD}
        for vals in itertools.product((True, False), repeat=len(rest)):
            env2 = dict(env)
            env2.update({a: C(b) for a, b in zip(rest, vals)})
            if not consistent(env2):
                continue
            try:
                d = simulate(v, s, env2, start, names)
            except Und as u:
                R.und(rule, '%s (%s): %s' % (what, label, u))
                break
            bad = None
            exp = expected(start) if callable(expected) else expected
            for n in names:
                a = d.get(n, start.get(n))
                x = exp.get(n, start.get(n))
                if a is x or a is None and x is None or x is None and a in ([], {}):
                    continue
                r = same(a, x) if x is not None else (False, shw(a))
                if r[0] is True:
                    continue
                bad = (n, r, a, x)
                break
            if bad is None:
                continue
            n, r, a, x = bad
            w = where_effect(v, s, n)
            extra = ' when ' + ' and '.join(('' if b else 'not ') + show(c, 5) for c, b in zip(rest, vals)) \
                if rest else ''
            if any(opaque(c, ()) and not earlier_record(c) for c in rest) and r[0] is False:
                r = (None, r[1])
            if r[0] is False:
                if x is None or n not in exp:
                    R.bad(rule, '%s (%s) must not change %s, but leaves %s%s' % (what, label, n, shw(a)[:300], extra), w,
                          '%s:%s:%s:%s' % (rule, s.kind, ch, n))
                else:
                    R.bad(rule, '%s (%s): %s ends up wrong: %s%s' % (what, label, n, r[1][:400], extra), w,
                          '%s:%s:%s:%s' % (rule, s.kind, ch, n))
            else:
                R.und(rule, '%s (%s): %s not understood: %s' % (what, label, n, r[1][:200]), w)
            break
        else:
            R.ok(rule, '%s (%s) updates exactly the documented containers' % (what, label))


SECT = {'def': 'definitions', 'data': 'data', 'app': 'appended-data'}


def where_effect(v, s, n):
    for p, e in pub_effects(v, s):
        if p == n:
            return e.where
    return where_of(s.node.e if isinstance(s.node, VE) else s.node)


def no_atoms(a):
    return None


LAST = S('last_timestamp')
OLD = mk('sym', 'OLD')


def is_in(a, cname):
    return a.op == 'in' and a.args[1] is S(cname)


def cont_atom(a):
    """ the is_continued byte of an 'M' message; None if it is not about it """
    b = mkunpack('B', BODY, C(0))
    if a.op == 'truthy' and a.args[0] is b:
        return True
    return None


@guard
def record_info(R):
    """ 'I' messages: last value of a key wins, wherever the message stands """
    for typ in TYPES_I:
        h = hook(TypeHook, typ)
        v = mview('I', value_hook=h)
        start, key = info_terms(0)
        val = info_value(typ, start)
        for k in ('def', 'data'):
            s = need(v.get(k), 'no %s section found' % k)
            if not h.fired:
                R.und('record.I', 'the declared type of an information message was not found')
                return
            check_effect(R, 'record.I', v, s, 'I', [
                ('new key, type %s' % typ, {'msg_info_dict': {}}, lambda a: False if is_in(a, 'msg_info_dict') else None,
                 {'msg_info_dict': {Key(key): val}}),
                ('known key, type %s' % typ, {'msg_info_dict': {'__key__': OLD}},
                 lambda a: True if is_in(a, 'msg_info_dict') else None,
                 {'msg_info_dict': {Key(key): val}})])


_hooks = {}


def hook(cls, *a):
    k = (cls, repr(a))
    if k not in _hooks:
        _hooks[k] = cls(*a)
    return _hooks[k]


@guard
def record_info_multiple(R):
    """ 'M' messages: continued ones extend the last list of the key, others start a new list """
    for typ in ('char[5]', 'uint8_t[4]', 'float'):
        h = hook(TypeHook, typ)
        v = mview('M', value_hook=h)
        start, key = info_terms(1)
        val = info_value(typ, start)
        n = 'msg_info_multiple_dict'
        for k in ('def', 'data'):
            s = need(v.get(k), 'no %s section found' % k)

            def fx(present, cont):
                def f(a):
                    if is_in(a, n):
                        return present
                    if a.op == 'is' and NONE in a.args and any(x.op == 'sub' and is_in(mk('in', x.args[1], x.args[0]), n) for x in a.args):
                        return False    # the lists of a key that is there
                    its = [x for x in walk(a) if x.op == 'sub' and is_in(mk('in', x.args[1], x.args[0]), n)]
                    if its and a.op == 'truthy' and a.args[0] is its[0]:
                        return present  # there are no keys without lists
                    if its and any(x.op == 'len' and x.args[0] is its[0] for x in walk(a)):
                        try:
                            return bool(numeval(a, {mk('len', its[0]): 2 if present else 0}))
                        except (KeyError, Und):
                            return None
                    b = mkunpack('B', BODY, C(0))
                    if a.op == 'truthy' and a.args[0] is b:
                        return cont
                    try:
                        return bool(numeval(a, {b: 1 if cont else 0}))
                    except KeyError:
                        return None
                return f
            old = lambda: [[mk('sym', 'OLD0')], [OLD]]
            check_effect(R, 'record.M', v, s, 'M', [
                ('first of its key, type %s' % typ, {n: {}}, fx(False, False), {n: {Key(key): [[val]]}}),
                ('first of its key but marked continued, type %s' % typ, {n: {}}, fx(False, True),
                 {n: {Key(key): [[val]]}}),
                ('continued, type %s' % typ, {n: {'__key__': old()}}, fx(True, True),
                 {n: {Key(key): [[mk('sym', 'OLD0')], [OLD, val]]}}),
                ('not continued, type %s' % typ, {n: {'__key__': old()}}, fx(True, False),
                 {n: {Key(key): [[mk('sym', 'OLD0')], [OLD], [val]]}})])


def paths_of(t, cond=()):
    """ (value, conditions) of every alternative """
    if isinstance(t, T) and t.op == 'ite':
        return paths_of(t.args[1], cond + (t.args[0],)) + paths_of(t.args[2], cond + (t.args[0],))
    return [(t, cond)]


def not_backwards(R, rule, p, v, types):
    """ a record without an own time does not carry the time of a sample that is older than others """
    same_cell = lambda k: (k[0],) + tuple(re.sub(r'[0-9]+', '', show(x, 2)) if isinstance(x, T) else x for x in k[1:])
    s, d = v.get('data'), view('D', types).get('data')
    if s is None or d is None:
        return
    for q, e in pub_effects(v, s):
        if q != p or e.kind != 'append':
            continue
        w = inst_attrs(calm_value(v.value(s, e.args[1])))
        terms = list(w.values()) if w else [v.value(s, e.args[1])]
        for x in {y for t in terms if isinstance(t, T) for y in walk(t) if y.op == 'lv'}:
            keys = {same_cell(k) for k, h in s.info['head'].items() if h is x}
            for pc, cells in d.backs:
                if calm(pc) is FALSE:
                    continue
                for k, t in cells.items():
                    if same_cell(k) not in keys or not isinstance(t, T):
                        continue
                    for y, cond in paths_of(v.tr(d, t)):
                        if y.op == 'unpack' and y.args[0] == 'Q' and \
                                not any(z.op == 'lt' and any(u is y for u in walk(z)) for c in cond + (pc,) for z in walk(c)):
                            R.bad(rule, '%s gets the time of the sample before it, which can be older than the latest time' % p, e.where,
                                  '%s:%s' % (rule, p))
                            return
    R.ok(rule, '%s never gets the time of an older sample' % p)


@guard
def record_parameter(R):
    """ 'P' messages: initial parameters in the definitions, changes afterwards """
    for typ in ('int32_t', 'float'):
        h = hook(TypeHook, typ)
        v = mview('P', value_hook=h)
        start, key = info_terms(0)
        val = info_value(typ, start)
        n = 'initial_parameters'
        fx = lambda p: (lambda a: p if is_in(a, n) else None)
        check_effect(R, 'record.P', v, need(v.get('def'), 'definitions'), 'P', [
            ('new parameter, type %s' % typ, {n: {}}, fx(False), {n: {Key(key): val}}),
            ('repeated parameter, type %s' % typ, {n: {'__key__': OLD}}, fx(True), {n: {Key(key): val}})])
        # stamped with the time reached so far
        hd = hook(TypeHook, typ)
        v2 = view('P', ['F', 'A', 'D', 'P'], value_hook=hd)
        check_effect(R, 'record.P', v2, need(v2.get('data'), 'data section'), 'P', [
            ('type %s' % typ, {'changed_parameters': [OLD]}, no_atoms,
             {'changed_parameters': [OLD, [LAST, key, val]]})])
    not_backwards(R, 'record.P', 'changed_parameters', v2, ['F', 'A', 'D', 'P'])


class DefaultHook:
    """ unpack hook: the default types byte of a 'Q' message """

    def __init__(self, bits):
        self.bits, self.fired = bits, set()

    def __call__(self, t):
        code, base, off = t.args
        if code in ('B', 'b', 'c', '?') and off is C(0) and base.op == 'read' and base.args[2] is not C(3) and \
                base.args[2].op == 'unpack':
            self.fired.add(t)
            return C(self.bits)
        return None

    def __repr__(self):
        return 'DefaultHook(%d)' % self.bits


@guard
def record_default(R):
    """ 'Q' messages: the value becomes the default of every kind whose bit is set """
    n = 'default_parameters'
    for typ, masks in (('int32_t', [1, 2, 4, 8, 16, 32, 64, 128, 3, 0x81, 0xff, 5]), ('float', [1, 2, 3])):
        for bits in masks:
            th, dh = hook(TypeHook, typ), hook(DefaultHook, bits)
            v = mview('Q', value_hook=th, unpack=dh)
            start, key = info_terms(1)
            val = info_value(typ, start)
            for k in ('def', 'data'):
                s = need(v.get(k), 'no %s section found' % k)
                if not dh.fired:
                    R.und('record.Q', 'the default types of a message were not found')
                    return
                exp = {C(i): {Key(key): val} for i in range(8) if bits >> i & 1}
                # the kinds have defaults of their own: a later message changes those it names
                new = [e for p, e in pub_effects(v, s) if p == n and e.kind == 'setitem' and e.args[0] is S(n) and isinstance(e.args[2], T) and e.args[2].op == 'ref']
                for e in new:
                    R.decide(not any(f.args[2] is e.args[2] and f.args[1] is not e.args[1] for f in new), 'record.Q', 'default types 0x%02x: each kind has defaults of its own' % bits, e.where,
                             'two kinds of defaults share one dictionary: what is set for one is set for the other', 'record.Q.shared')
                check_effect(R, 'record.Q', v, s, 'Q', [
                    ('default types 0x%02x, none known, type %s' % (bits, typ), {n: {}},
                     lambda a: False if a.op == 'in' else None, {n: exp})])
                pres = {C(i): {} for i in range(8)}
                exp2 = {C(i): ({Key(key): val} if bits >> i & 1 else {}) for i in range(8)}
                check_effect(R, 'record.Q', v, s, 'Q', [
                    ('default types 0x%02x, all kinds known, type %s' % (bits, typ), {n: pres},
                     lambda a: (a.args[1] is S(n)) if a.op == 'in' else None, {n: exp2})])


def rec_L():
    return Rec(log_level=mkunpack('B', BODY, C(0)), timestamp=mkunpack('Q', BODY, C(1)), message=text(C(9)))


def rec_C():
    return Rec(log_level=mkunpack('B', BODY, C(0)), tag=mkunpack('H', BODY, C(1)), timestamp=mkunpack('Q', BODY, C(3)),
               message=text(C(11)))


@guard
def record_logging(R):
    """ 'L' and 'C' messages """
    v = mview('L')
    check_effect(R, 'record.L', v, need(v.get('data'), 'data section'), 'L', [
        ('any', {'logged_messages': [OLD]}, no_atoms, {'logged_messages': [OLD, rec_L()]})])
    v = mview('C')
    n = 'logged_messages_tagged'
    tag = mkunpack('H', BODY, C(1))
    fx = lambda p: (lambda a: p if is_in(a, n) else None)
    check_effect(R, 'record.C', v, need(v.get('data'), 'data section'), 'C', [
        ('new tag', {n: {}}, fx(False), {n: {tag: [rec_C()]}}),
        ('known tag', {n: {'__key__': [OLD]}}, fx(True), {n: {tag: [OLD, rec_C()]}})])


@guard
def record_dropout(R):
    """ 'O' messages carry the time reached so far """
    v = view('O', ['F', 'A', 'D', 'O'])
    check_effect(R, 'record.O', v, need(v.get('data'), 'data section'), 'O', [
        ('any', {'dropouts': [OLD]}, no_atoms,
         {'dropouts': [OLD, Rec(duration=mkunpack('H', BODY, C(0)), timestamp=LAST)]})])
    not_backwards(R, 'record.O', 'dropouts', v, ['F', 'A', 'D', 'O'])


@guard
def record_format(R):
    """ 'F' messages: name and the fields in declaration order """
    txt = mk('utf8', BODY, C('ignore'))
    for decl, exp in (('float foo', ('float', 0, 'foo')), ('uint8_t[7] bar', ('uint8_t', 7, 'bar')),
                      ('double[12] x_y', ('double', 12, 'x_y')), ('other_fmt[255] n', ('other_fmt', 255, 'n')),
                      ('uint8_t[4] _padding0', ('uint8_t', 4, '_padding0')), ('other m', ('other', 0, 'm')),
                      ('uint64_t timestamp', ('uint64_t', 0, 'timestamp'))):
        h = hook(FieldHook, decl)
        v = mview('F', value_hook=h)
        s = need(v.get('def'), 'definitions')
        got = [e for p, e in pub_effects(v, s) if p == 'message_formats' and e.kind == 'setitem']
        if not h.fired or not got:
            R.und('record.F', 'fields of a format message not recognised')
            continue
        R.saw('field declarations', decl)
        for e in got:
            R.decide(same_guard(quiet(e.cond), TRUE)[0], 'record.F', 'a format message is always recorded', e.where,
                     'a format message is recorded only if %s' % show(quiet(e.cond), 6))
            nm = AnyOf([mk('sub', mk('split', txt, C(':')), C(0)), mk('sub', mk('split', txt, C(':'), C(1)), C(0))])
            at = inst_attrs(calm_value(v.value(s, e.args[2])))
            if at is None or 'fields' not in at:
                R.und('record.F', 'recorded format not understood', e.where)
                continue
            for val, w in ((e.args[1], 'key'), (at.get('name', NONE), 'name')):
                r = same(val, nm)
                R.decide(r[0], 'record.F', 'a format is known by the text before the colon (%s)' % w, e.where,
                         'format %s is %s' % (w, r[1]))
            f = at['fields']
            ok, desc = each_field(f, exp, txt)
            R.decide(ok, 'record.F', "'%s' declares %r, in order" % (decl, exp), e.where,
                     "field declaration '%s' is recorded as %s" % (decl, desc))


def each_field(f, exp, txt):
    """ fields is: for every non-empty declaration, in order, the expected triple """
    want = mk('tuple', *[C(x) for x in exp])
    if f.op in ('list', 'tuple') and len(f.args) == 1 and f.args[0].op == 'p_each':
        p = f.args[0]
        it = p.args[1]
        parts = p.args[2]
        if len(parts) == 1 and parts[0].op == 'p_item':
            x = calm_value(parts[0].args[0])
            if x is want:
                if it.op == 'split' and any(y is txt for y in walk(it)):
                    return True, ''
                if it.op == 'slice' or it.op == 'sorted' or it.op == 'reversed' or it.op == 'toset':
                    return False, 'taken from %s' % show(it, 4)
                return None, show(it, 4)
            if opaque(x):
                return None, show(x, 5)
            xs = items_of(x)
            if xs is not None and len(xs) == 3:
                return False, show(x, 5)
            return None, show(x, 5)
        return None, show(f, 5)
    return None, show(f, 5)


@guard
def record_nothing(R):
    """ messages that carry no content of the log: sync, removed subscription, unknown types """
    for ch in ('S', 'R', FOREIGN, CORRUPT):
        v = mview(ch)
        for k in ('def', 'data'):
            s = need(v.get(k), 'no %s section' % k)
            check_effect(R, 'record.none', v, s, ch, [('any', {}, no_atoms, {})])
    # types that are only meaningful in one section
    for ch, k in (('O', 'def'), ('S', 'def'), ('B', 'data'), ('F', 'data'), ('D', 'def'), ('R', 'def')):
        v = mview(ch)
        s = need(v.get(k), 'no %s section' % k)
        check_effect(R, 'record.none', v, s, ch, [('any', {}, no_atoms, {})])
    # end of the definitions: nothing recorded, message left for the data section
    for ch in ('A', 'L', 'C'):
        v = mview(ch)
        s = need(v.get('def'), 'no definitions section')
        check_effect(R, 'record.none', v, s, ch, [('any', {}, no_atoms, {})])


@guard
def info_types(R):
    """ what is kept about the declared type of an information message goes with the value that is kept """
    declared_types(R, 'I', 'msg_info_dict')


@guard
def info_multiple_types(R):
    """ the same for continued information """
    declared_types(R, 'M', 'msg_info_multiple_dict')


def declared_types(R, ch, n):
    v = mview(ch)
    per = {}
    for k in ('def', 'data'):
        s = need(v.get(k), 'no %s section found' % k)
        keys = {x for p, e in pub_effects(v, s) if p == n for x in
                [e.args[1] if e.kind == 'setitem' else None] + [y.args[1] for y in walk(e.args[0]) if y.op == 'sub'] if isinstance(x, T)}
        found = {}
        for e in s.effects:
            if e.kind != 'setitem' or v.public(e.args[0]) in PUBLIC or e.args[1] not in keys or e.args[0].op != 'sym':
                continue
            t = e.args[2]
            if t.op == 'sub' and t.args[0].op == 'split' and is_const(t.args[1]) and cval(t.args[1]) == 0:
                found.setdefault(e.args[0], []).append(e)
        per[k] = (s, found)
    both = set(per['def'][1]) | set(per['data'][1])
    for c in sorted(both, key=lambda x: x.nid):
        for k, (s, found) in per.items():
            what = 'the declared type of %s message in the %s section' % (name_of(ch), SECT[s.kind])
            if c not in found:
                R.bad('info.type', '%s is not kept while that of the other section is' % what, s.effects[0].where, 'info.type.lost:%s:%s' % (ch, k))
                continue
            known = lor(*[quiet(e.cond) for e in found[c]])
            env = {a: TRUE for a in cond_atoms(known) if a.op == 'in' and any(a.args[0] is e.args[1] for e in found[c])}
            got = assign(known, env) if env else known
            R.decide(False if got is FALSE else True if got is TRUE else None, 'info.type', '%s replaces that of an earlier one' % what,
                     found[c][0].where, '%s is not kept when an earlier message had the same key' % what, 'info.type:%s' % ch)
