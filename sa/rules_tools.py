""" Rules about the command line tools and helpers: what they give for logs of known shape and arbitrary values """
import ast
import os
import re
from .terms import *
from .logic import Und
from .rules_parse import guard
from . import tools as X
from .tools import Topic, Obj, leaf, text, tool_run, same, understood, file_text, join, NPCHARS, NPTYPES, samples
from .logic import numeval

IN = 'data/flight.ulg'
TS = ('uint64_t', 'timestamp')


def file_of(mod):
    return 'pyulog/%s.py' % mod


_runs = {}


_alive = []


def go(key, build):
    if key not in _runs:
        _alive.append(build)    # keys may name objects by their identity
        try:
            _runs[key] = build()
        except Und as e:
            _runs[key] = e
    if isinstance(_runs[key], Exception):
        raise _runs[key]
    return _runs[key]


def main_run(mod, cli, log=None, **kw):
    c = {0: IN}
    c.update(cli)
    key = ('main', mod, repr(sorted(c.items(), key=repr)), id(log), repr(sorted(kw.items(), key=repr)))
    return go(key, lambda: tool_run('pyulog.' + mod, 'main', log=log, cli=c, **kw))


def usable(R, rule, lab, r, where, fails=False):
    """ the run is understood and ends as it should """
    if getattr(r, 'early', None):
        R.bad(rule, '%s: %s' % (lab, r.early[0]), where, '%s:type' % rule)
        return False
    if r.raised and not r.problems:
        names = sorted({x[1] for x in r.exc if not x[2]}) or sorted({x[1] for x in r.escapes})
        if fails:
            return True
        R.bad(rule, '%s: it fails with %s' % (lab, ', '.join(names) or 'an error'), where, '%s:fails' % rule)
        return False
    if r.problems:
        R.und(rule, '%s: %s' % (lab, r.problems[0]), where)
        return False
    if r.wrong:
        R.bad(rule, '%s: %s' % (lab, r.wrong[0]), where, '%s:type' % rule)
        return False
    if fails and not r.raised:
        R.bad(rule, '%s: it does not fail' % lab, where, '%s:quiet' % rule)
        return False
    return True


def default_log(**kw):
    return kw


# ---------------------------------------------------------------- CSV

def chars(s, n):
    b = s.encode('utf-8')[:n]
    return [x - 256 if x > 127 else x for x in b] + [0] * (n - len(b))


def string_cols(name, texts, n):
    """ columns of a text field: name[k] -> values """
    rows = [chars(t, n) for t in texts]
    return {'%s[%d]' % (name, k): [row[k] for row in rows] for k in range(n)}


def csv_topics():
    t1 = Topic('sensor/imu', [('float', 'x'), TS, ('int32_t', 'raw[0]'), ('int32_t', 'raw[1]'), ('float', 'pose.q[0]'), ('float', 'pose.q[1]'), ('uint8_t', '_padding0[0]'),
                              ('uint8_t', '_padding0[1]')], [1000000, 1500000, 2000000])
    cols = string_cols('label', ['abc', 'K\u00f6', '', 'full'], 4)
    cols.update(string_cols('info.tag', ['q', 'rs', 't', ''], 2))
    cols['label[2]'][2] = 65        # behind the end of the text
    t2 = Topic('names', [TS] + [('char', 'label[%d]' % k) for k in range(4)] + [('uint8_t', 'kind'), ('bool', 'ok'), ('char', 'info.tag[0]'), ('char', 'info.tag[1]'),
                                                                                 ('double', 'z')], [1000000, 1000001, 1000002, 1000003], multi_id=1, cols=cols)
    t3 = Topic('names', [TS, ('char', 'c'), ('int8_t', 'bytes[0]'), ('int8_t', 'bytes[1]')], [5], multi_id=0)
    t4 = Topic('single', [TS], [7, 8])
    t5 = Topic('one', [TS, ('uint64_t', 'timestamp_sample'), ('float', 'timestamp_x')], [2000000], multi_id=12)
    t6 = Topic('none', [TS, ('float', 'v'), ('char', 'n[0]')], [])
    # known values: repeated samples, zeros, names that look like something else
    t7 = Topic('rep', [('float', 'my_padding'), ('int32_t', 'x_padding0[0]'), TS, ('int8_t', 'k'), ('bool', 'on'), ('float', 'Timestamp')], [5, 5, 6, 6, 6],
               cols={'my_padding': [1.5, 1.5, 1.5, 1.5, 0.0], 'x_padding0[0]': [0, 0, -3, -3, -3], 'k': [-1, -1, -1, -1, -1], 'on': [0, 0, 0, 0, 1], 'Timestamp': [0.0] * 5})
    t8 = Topic('wide', [TS] + [('uint8_t', 'v[%d]' % k) for k in range(12)] + [('char', 'long.text[%d]' % k) for k in range(12)], [3],
               cols={'long.text[%d]' % k: [65 + k] for k in range(12)})
    t9 = Topic('long', [TS, ('int32_t', 'x')], list(range(5, 3005, 2)), cols={'x': [k % 7 for k in range(1500)]})
    # names with several separators, texts with separators, line ends and control characters
    texts = ['a\nb', 'a\tb', 'x\r', ' sp ', ',', ';', '"q"', '\x01\x7f', '\n', 'a,b;c', '\\n']
    t10 = Topic('a/b/c', [TS, ('float', 'v')] + [('char', 'text[%d]' % k) for k in range(6)], list(range(10, 21)), cols=string_cols('text', texts, 6))
    t11 = Topic('/lead//ing/', [TS, ('float', 'v')], [4])
    return [t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11]


CSV = csv_topics()


def csv_columns(t):
    """ [(header, index -> text)] of a data set """
    out, done = [], set()
    for ty, f in t.fields:
        if f.startswith('_padding') or f == 'timestamp':
            continue
        m = re.fullmatch(r'(.*)\[(\d+)\]', f)
        if ty == 'char' and m:
            base = m.group(1)
            if base in done:
                continue
            done.add(base)
            n = len([1 for ty2, g in t.fields if g.startswith(base + '[')])

            def s(i, base=base, n=n):
                b = bytes([t.cols['%s[%d]' % (base, k)][i] & 255 for k in range(n)])
                return C(b.split(b'\0')[0].decode('utf-8'))
            out.append((base, s))
        else:
            out.append((f, lambda i, f=f: text(t.cols[f][i])))
    return [('timestamp', lambda i: C(str(t.times[i])))] + out


def csv_text(t, rows, delim):
    cols = csv_columns(t)
    parts = [C(delim.join(h for h, _f in cols) + '\n')]
    for i in rows:
        for k, (_h, f) in enumerate(cols):
            parts += ([C(delim)] if k else []) + [f(i)]
        parts.append(C('\n'))
    return strcat(parts)


def opened_name(k):
    return cval(k) if isinstance(k, T) and is_const(k) else None


W_CSV = 'pyulog/ulog2csv.py: convert_ulog2csv'


@guard
def csv_files(R):
    """ one file per data set with its name, header and one row per data point """
    log = dict(data_list=CSV)
    cases = [({}, IN, 'data/flight', ',', CSV, 'default')]
    cases += [({'-d': ';'}, IN, 'data/flight', ';', CSV, 'delimiter'), ({'-d': '\t'}, IN, 'data/flight', '\t', CSV, 'tab'),
              ({0: 'a.b/X.ULG'}, 'a.b/X.ULG', 'a.b/X', ',', CSV[:2], 'upper case suffix'), ({0: 'plain'}, 'plain', 'plain', ',', CSV[2:4], 'no suffix'),
              ({0: 'log.ulg.bin'}, 'log.ulg.bin', 'log.ulg.bin', ',', CSV[3:5], 'other suffix'), ({0: 'a.ulg.b.ulg'}, 'a.ulg.b.ulg', 'a.ulg.b', ',', CSV[:1], 'suffix in the name'),
              ({0: 'x.ulg.ulg'}, 'x.ulg.ulg', 'x.ulg', ',', CSV[:1], 'suffix twice'), ({0: 'd.ulg/x.ULG.UlG'}, 'd.ulg/x.ULG.UlG', 'd.ulg/x.ULG', ',', CSV[:1], 'suffix in the folder'),
              ({0: 'ulg/gulg.ulg'}, 'ulg/gulg.ulg', 'ulg/gulg', ',', CSV[:1], 'letters of the suffix'), ({0: 'flight1'}, 'flight1', 'flight1', ',', CSV[:1], 'no suffix, short'),
              ({0: 'flightulg'}, 'flightulg', 'flightulg', ',', CSV[:1], 'no dot'),
              ({'-o': 'out'}, IN, 'out/flight', ',', CSV, 'output directory'), ({'-o': 'out', 0: '/x/y.z/F.ulg'}, '/x/y.z/F.ulg', 'out/F', ',', CSV[:1], 'output directory, absolute'),
              ({'-m': 'names'}, IN, 'data/flight', ',', CSV[1:3], 'one message name'), ({'-m': 'names,single'}, IN, 'data/flight', ',', CSV[1:4], 'two message names')]
    cases += [({}, IN, 'data/flight', ',', [t], 'only %s' % t.name) for t in CSV]
    for cli, src, prefix, delim, want, lab in cases:
        lg = log if lab in ('default',) or '-m' in cli else dict(data_list=want)
        for dirs in ((), ('out',)) if '-o' in cli else ((),):
            r = main_run('ulog2csv', cli, lg, dirs=dirs)
            R.saw('scenarios', lab)
            if not usable(R, 'file', lab, r, W_CSV):
                continue
            got = {opened_name(k): v for k, v in r.texts.items() if k not in ('stdout', 'stderr')}
            names = {}
            for t in want:
                names['%s_%s_%d.csv' % (prefix, t.name.replace('/', '_'), t.multi_id)] = t
            if None in got:
                R.und('file', '%s: the name of an output file is not understood' % lab, W_CSV)
                continue
            R.decide(set(got) == set(names), 'file', '%s: one file per data set' % lab, W_CSV,
                     '%s: the files are %s instead of %s' % (lab, sorted(set(got) - set(names))[:2], sorted(set(names) - set(got))[:2]), 'file.names')
            for n, t in names.items():
                R.saw('data sets', '%s %d' % (t.name, t.multi_id))
                if n not in got:
                    continue
                g = file_text(r, n)
                w = csv_text(t, range(len(t.times)), delim)
                split = lambda x: (x.args[0] if x.op == 'strcat' else x)
                h, wh = split(g), split(w)
                if is_const(h) and is_const(wh) and cval(h).split('\n')[0] != cval(wh).split('\n')[0]:
                    R.bad('header', '%s: the columns of %s are %r instead of %r' % (lab, t.name, cval(h).split('\n')[0], cval(wh).split('\n')[0]), W_CSV, 'header')
                    continue
                R.ok('header', '%s: columns of %s %d' % (lab, t.name, t.multi_id), W_CSV)
                same(R, 'rows', '%s: rows of %s %d' % (lab, t.name, t.multi_id), g, w, W_CSV, '%s: the rows of %s are not its data points' % (lab, t.name), 'rows', short=False)
            for path, mode, kw, e in r.opens:
                if opened_name(path) not in names:
                    continue
                enc = kw.get('encoding')
                ok = None
                if enc is None or enc is NONE:
                    ok = False if is_const(mode) and 'b' not in cval(mode) else None
                elif is_const(enc):
                    ok = cval(enc).lower().replace('-', '').replace('_', '').startswith('utf8')
                R.decide(ok, 'encoding', 'text is written as UTF-8', e.where, 'text that is not ASCII can not be written in every environment', 'encoding')
                R.decide(is_const(mode) and cval(mode)[0] in 'wx' if is_const(mode) else None, 'mode', 'files are written from the start', e.where, 'files are opened with mode %s' % show(mode, 2),
                         'mode')
    # missing data and no data
    r = main_run('ulog2csv', {}, dict(data_list=[]))
    if usable(R, 'file', 'no data', r, W_CSV):
        R.decide(not r.opens, 'file', 'no data: no files', W_CSV, 'files without data', 'file.none')
    for dirs in ((), ('out',)):
        r = main_run('ulog2csv', {'-o': 'out'}, log, dirs=dirs)
        if usable(R, 'directory', 'output directory', r, W_CSV):
            made = [c for c in r.calls if c[1] == 'mkdir']
            R.decide(bool(made) != bool(dirs) or bool(made) and made[0][3].get('exist_ok') is TRUE, 'directory', 'a missing output directory is made', 'pyulog/ulog2csv.py: main',
                     'the output directory is %s' % ('made although it exists' if dirs else 'not made'), 'directory')


# ---------------------------------------------------------------- time windows

WINDOWS = [(None, None), (1, None), (2, None), (3, None), (4, None), (5, None), (50, None), (None, 1), (None, 2), (None, 3), (None, 4), (None, 50), (1, 2), (1, 3), (2, 3),
           (2, 4), (1, 50), (2, 2), (3, 2), (4, 1), (40, 50), (0, None), (0, 2), (50, 2),
           (-1, None), (None, -1), (-5, -1), (-3, 3), (2, -2)]
FRACTIONS = [(0.5, None), (1.25, None), (1.5, 3.5), (None, 0.5), (None, 1.5), (3.5, 3.75), (0.000001, 0.000002), (60.25, 61.0), (2.0, 3.0)]
SERIES = [[1000000, 2000000, 3000000, 4000000], [999999, 1000000, 1000001, 1999999, 2000000, 2000001, 2999999, 3000000, 3000001], [1500000], [2000000, 2000000, 2000000], [],
          [1000000, 1000000, 3500000, 3500001], [60000000, 60500000], [0, 1, 2]]


def window(times, a, b):
    return [i for i, t in enumerate(times) if (not a or t >= a * 1000000) and (b is None or t < b * 1000000)]


@guard
def csv_window(R):
    """ the rows inside of the limits, in every data set """
    ts = [Topic('s%d' % k, [('float', 'x'), TS], times) for k, times in enumerate(SERIES)]
    log = dict(data_list=ts)
    for a, b in WINDOWS + FRACTIONS:
        if (a, b) in FRACTIONS:
            r = go(('csvwindow', a, b), lambda: tool_run('pyulog.ulog2csv', 'convert_ulog2csv', [IN, None, None, ',', a, b], {}, log=log))
        else:
            r = main_run('ulog2csv', {k: str(v) for k, v in (('-ts', a), ('-te', b)) if v is not None}, log)
        lab = 'from %s to %s s' % (a, b)
        R.saw('limits', lab)
        if not usable(R, 'window', lab, r, W_CSV):
            continue
        for t in ts:
            g = file_text(r, 'data/flight_%s_0.csv' % t.name)
            same(R, 'window', '%s, timestamps %s' % (lab, t.times), g, csv_text(t, window(t.times, a, b), ','), W_CSV, '%s: rows of the timestamps %s' % (lab, t.times), 'csv', short=False)


W_EXT = 'pyulog/extract_message.py: extract_message'


def extract(log, args, kw=None, **more):
    return go(('extract', id(log), repr(args), repr(kw), repr(more)), lambda: tool_run('pyulog.extract_message', 'extract_message', args, kw or {}, log=log, **more))


KEEP = []


def kept(x):
    KEEP.append(x)
    return x


def rows_term(t, rows):
    names = ['timestamp'] + [f for _ty, f in t.fields if f != 'timestamp']
    val = lambda v: v if isinstance(v, T) else C(v)
    return mk('list', *[mk('p_item', mk('dict', *[mk('p_kv', C(n), val(t.cols[n][i])) for n in names])) for i in rows])


def plain_list(r):
    v = r.it.freeze(r.st, r.ret, 9)
    if v.op == 'list':
        out = []
        for p in v.args:
            x = p.args[0] if p.op == 'p_item' else p
            if x.op == 'dict':
                out.append(mk('p_item', x))
            else:
                return v
        return mk('list', *out)
    return v


@guard
def extract_window(R):
    for times in SERIES:
        t = Topic('m', [('float', 'x'), TS], times)
        log = kept(dict(data_list=[t]))
        for a, b in WINDOWS + FRACTIONS:
            lab = 'from %s to %s s, timestamps %s' % (a, b, times)
            r = extract(log, [IN, 'm'], {'time_s': a, 'time_e': b})
            R.saw('limits', 'from %s to %s s' % (a, b))
            if usable(R, 'window', lab, r, W_EXT):
                same(R, 'window', lab, plain_list(r), rows_term(t, window(times, a, b)), W_EXT, '%s: other rows' % lab, 'extract', short=False)


def attribute_error(R, r, lab):
    last = [x[1] for x in r.exc if not x[2]][-1:]
    R.decide(last == ['AttributeError'] if last else None, 'absent', '%s is an attribute error' % lab, W_EXT, '%s is a %s' % (lab, ', '.join(last)), 'absent.kind')


@guard
def extract_rows(R):
    """ a record for every data point, with every field """
    t0 = Topic('pos', [('float', 'x'), ('float', 'q[0]'), TS, ('float', 'q[1]'), ('char', 'n[0]'), ('int8_t', 'sub.v')], [1, 2, 3])
    t1 = Topic('pos', [TS, ('float', 'x')], [4], multi_id=1, tag='1')
    t2 = Topic('pos_other', [TS, ('float', 'x')], [5, 6])
    t3 = Topic('po', [TS, ('float', 'y')], [7])
    t4 = Topic('rep', [('float', 'a'), TS, ('int8_t', 'k'), ('bool', 'on')], [5, 5, 6, 6, 6], cols={'a': [1.5, 1.5, 1.5, 1.5, 0.0], 'k': [0, 0, -3, -3, -3], 'on': [0, 0, 0, 0, 1]})
    t5 = Topic('none', [TS, ('float', 'a')], [])
    t6, t7 = Topic('two', [TS, ('float', 'x')], [10, 20]), Topic('two', [TS, ('float', 'x')], [11, 12, 13], multi_id=1, tag='1')
    t8 = Topic('long', [TS, ('int32_t', 'x')], list(range(5, 3005, 2)), cols={'x': [k % 7 for k in range(1500)]})
    t9 = Topic('wide', [('float', '_pad'), TS] + [(('float', 'int32_t', 'bool')[k % 3], '%s%d' % ('_xf'[k % 3], k)) for k in range(40)], [5, 6])
    log = kept(dict(data_list=[t3, t1, t2, t0, t4, t5, t6, t7, t8, t9]))
    for name, t in (('pos', t0), ('long', t8), ('wide', t9), ('pos_other', t2), ('po', t3), ('rep', t4), ('none', t5), ('two', t6)):
        R.saw('messages', name)
        r = extract(log, [IN, name])
        if usable(R, 'rows', 'message %s' % name, r, W_EXT):
            same(R, 'rows', 'message %s' % name, plain_list(r), rows_term(t, range(len(t.times))), W_EXT, 'the records of %s are not its data points' % name, 'rows', short=False)
    for name in ('speed', 'posi', 'p', '', 'os', 'POS', 'Pos', ' pos', 'pos_', 'pos\0'):
        R.saw('messages', 'absent: %s' % name)
        r = extract(log, [IN, name])
        if usable(R, 'absent', 'absent message %r' % name, r, W_EXT, fails=True):
            attribute_error(R, r, 'an absent message %r' % name)
    for v in (None, 3):
        r = extract(log, [IN, v])
        if usable(R, 'absent', 'the message %r' % (v,), r, W_EXT, fails=True):
            attribute_error(R, r, 'the message %r' % (v,))
    ok = [True for u in extract(log, [IN, 'pos']).ulogs]
    R.decide(len(ok) == 1, 'rows', 'the file is read once', W_EXT, 'the file is not read', 'rows.read')


# ---------------------------------------------------------------- parameters

W_PAR = 'pyulog/params.py: main'
P_INIT = {'MC_P': leaf('MC_P'), 'A_FIRST': leaf('A_FIRST'), 'Z': leaf('Z'), 'B_INT': leaf('B_INT')}
P_CHANGE = [(10, 'Z', leaf('z1')), (20, 'MC_P', leaf('m1')), (25, 'NEW', leaf('n1')), (30, 'Z', leaf('z2')), (30, 'Z', leaf('z3'))]
P_DEF = {0: {'B_INT': leaf('sysB'), 'A_FIRST': leaf('sysA')}, 1: {'Z': leaf('curZ')}}
P_LOG = dict(initial_parameters=P_INIT, changed_parameters=P_CHANGE, has_default_parameters=True)


def default_values(host, a, k, defs=None):
    v = a[0] if a else list(k.values())[0]
    if not is_const(v):
        raise Und('the kind of default parameters is not understood: %s' % show(v, 4))
    return host.lift((P_DEF if defs is None else defs).get(cval(v), {}))


def par_run(cli, log=None, assume=None):
    return main_run('params', cli, log or P_LOG, methods=PAR_METHODS, assume=assume)


PAR_METHODS = {'get_default_parameters': default_values}


# known values: a value set again, zero
P_INIT2 = {'MC_P': 0.5, 'A_FIRST': 3, 'Z': 0.0, 'B_INT': 0, 'aLow': 4.0, 'AB': -7, 'Ab': 8, 'Z_INF': float('inf'), 'A_FIRST2': -0.25, 'B_BIG': 1e22, 'SMALL': 1e-7,
           '_HASH_CHECK': -1234567890, 'B10': 10, 'B2': 2147483647, 'a_very_long_name_of_a_parameter': 1.0, '1ST': 1, 'TENTH': 0.10000000149011612, 'THIRD': 0.3333333432674408,
           'BIG_F': 16777216.0, 'MANY': 0}
P_CHANGE2 = [(0, 'Ab', 9), (0, 'AB', -7), (5, 'aLow', 4.0), (10, 'Z', 0.0), (20, 'MC_P', 0.5), (20, 'A_FIRST', 0), (25, 'NEW', 1), (30, 'Z', 2.5), (30, 'Z', 0.0),
             (123456789, 'TENTH', 0.20000000298023224), (123456789012, 'B2', -2147483648), (1 << 63, '_HASH_CHECK', 5), (4294967297, 'THIRD', 1234567.875), (7, '1ST', 2)] + \
            [(1000 + k, 'MANY', k % 5) for k in range(300)] + [(1000001, 'many', 1), (1000002, 'MANY2', 1), (1000003, 'MAN', 2)]
P_LOG2 = dict(initial_parameters=P_INIT2, changed_parameters=P_CHANGE2, has_default_parameters=True)


def changes(name, changed):
    return [(t, v) for t, n, v in (changed if isinstance(changed, list) else P_CHANGE) if n == name]


def par_csv(params, delim, changed, stamps):
    parts = []
    for n in sorted(params):
        ch = changes(n, changed) if changed or stamps else []
        parts += [C(n + delim), text(params[n])]
        for _t, v in ch:
            parts += [C(delim), text(v)]
        parts.append(C('\n'))
        if stamps:
            parts.append(C(delim.join(['timestamp', '0'] + [str(t) for t, _v in ch]) + '\n'))
    return strcat(parts)


def par_octave(params, changed):
    parts = []
    for n in sorted(params):
        vals = [params[n]] + ([v for _t, v in changes(n, changed)] if changed else [])
        parts.append(C('# name %s' % n))
        if len(vals) > 1:
            parts.append(C('\n# type: matrix\n# rows: 1\n# columns: %d\n' % len(vals)))
            for v in vals:
                parts += [text(v), C(' ')]
        else:
            parts += [C('\n# type: scalar\n'), text(vals[0])]
        parts.append(C('\n'))
    return strcat(parts)


def par_qgc(params, floats):
    parts = []
    for n in sorted(params):
        parts += [C('1\t1\t%s\t' % n), text(params[n]), C('\t%d\n' % (9 if n in floats else 6))]
    return strcat(parts)


FLOAT = mk('ext', 'builtins.float')
INT = mk('ext', 'builtins.int')


@guard
def params_output(R):
    floats = {'MC_P', 'Z'} | {n for n, v in P_INIT2.items() if isinstance(v, float)}
    asm = {}
    for n, v in list(P_INIT.items()) + [(n, v) for d in P_DEF.values() for n, v in d.items()]:
        asm[mk('isinstance', v, FLOAT)] = n in floats
        asm[mk('isinstance', v, INT)] = n not in floats
        for ty in (FLOAT, INT):
            for a, b in ((mk('type', v), ty), (ty, mk('type', v))):
                for op in ('eq', 'is'):
                    asm[mk(op, a, b)] = (n in floats) == (ty is FLOAT)
    cases = [('csv', {}, lambda: par_csv(P_INIT, ',', True, False)), ('csv, initial', {'-i': 1}, lambda: par_csv(P_INIT, ',', False, False)),
             ('csv, delimiter', {'-l': ';'}, lambda: par_csv(P_INIT, ';', True, False)),
             ('csv, long delimiter', {'-l': ' | '}, lambda: par_csv(P_INIT, ' | ', True, False)), ('csv, named', {'-f': 'csv', '-l': '\t'}, lambda: par_csv(P_INIT, '\t', True, False)),
             ('csv, timestamps', {'-t': 1}, lambda: par_csv(P_INIT, ',', True, True)), ('csv, timestamps, delimiter', {'-t': 1, '-l': ' '}, lambda: par_csv(P_INIT, ' ', True, True)),
             ('octave', {'-f': 'octave'}, lambda: par_octave(P_INIT, True)), ('octave, initial', {'-f': 'octave', '-i': 1}, lambda: par_octave(P_INIT, False)),
             ('qgc', {'-f': 'qgc'}, lambda: par_qgc(P_INIT, floats)), ('qgc, initial', {'-f': 'qgc', '-i': 1}, lambda: par_qgc(P_INIT, floats)),
             ('system defaults', {'-d': 'system'}, lambda: par_csv(P_DEF[0], ',', False, False)),
             ('setup defaults', {'-d': 'current_setup'}, lambda: par_csv(P_DEF[1], ',', False, False)),
             ('setup defaults, octave', {'-d': 'current_setup', '-f': 'octave'}, lambda: par_octave(P_DEF[1], False)),
             ('system defaults, initial', {'-d': 'system', '-i': 1}, lambda: par_csv(P_DEF[0], ',', False, False)),
             ('system defaults, qgc', {'-d': 'system', '-f': 'qgc'}, lambda: par_qgc(P_DEF[0], floats))]
    known = 'known values, '
    cases += [(known + 'csv', {}, lambda: par_csv(P_INIT2, ',', P_CHANGE2, False)), (known + 'csv, timestamps', {'-t': 1}, lambda: par_csv(P_INIT2, ',', P_CHANGE2, True)),
              (known + 'csv, initial', {'-i': 1}, lambda: par_csv(P_INIT2, ',', False, False)), (known + 'octave', {'-f': 'octave'}, lambda: par_octave(P_INIT2, P_CHANGE2)),
              (known + 'octave, initial', {'-f': 'octave', '-i': 1}, lambda: par_octave(P_INIT2, False)), (known + 'qgc', {'-f': 'qgc'}, lambda: par_qgc(P_INIT2, floats))]
    # kinds of defaults that the log does not have, parameters it does not have
    empty = dict(initial_parameters={}, changed_parameters=[], has_default_parameters=False)
    few = {'no system defaults': {1: P_DEF[1]}, 'no defaults of the setup': {0: P_DEF[0]}}
    cases += [('no system defaults', {'-d': 'system'}, lambda: C('')), ('no defaults of the setup', {'-d': 'current_setup', '-f': 'octave'}, lambda: C('')),
              ('no parameters', {}, lambda: C('')), ('no parameters, octave', {'-f': 'octave'}, lambda: C('')), ('no parameters, timestamps', {'-t': 1}, lambda: C(''))]
    for lab, cli, want in cases:
        for out in (None, 'p.txt'):
            c = dict(cli)
            if out:
                c[1] = out
            if lab in few:
                r = main_run('params', c, P_LOG, methods={'get_default_parameters': lambda h, a, k, d=few[lab]: default_values(h, a, k, d)}, assume=asm)
            else:
                r = par_run(c, P_LOG2 if lab.startswith(known) else empty if lab.startswith('no parameters') else None, assume=asm)
            R.saw('scenarios', lab + (', to a file' if out else ''))
            if not usable(R, 'output', lab, r, W_PAR):
                continue
            g = file_text(r, out) if out else r.out
            same(R, 'output', '%s%s' % (lab, ' to a file' if out else ''), g, want(), W_PAR, '%s: other text' % lab, 'output:%s' % lab, short=False)
            if out:
                R.decide(r.out is C(''), 'output.file', 'nothing else is printed', W_PAR, '%s: the output is also printed' % lab, 'output.file')
            else:
                R.decide(not r.opens, 'output.file', 'no file is written unless asked', W_PAR, 'a file is written without being asked for', 'output.nofile')
    nothing = kept(dict(initial_parameters={}, has_default_parameters=False))
    for f in ('csv', 'octave', 'qgc'):
        r = par_run({'-f': f}, nothing)
        if usable(R, 'empty', 'no parameters', r, W_PAR):
            R.decide(r.out is C(''), 'empty', 'no parameters: nothing printed (%s)' % f, W_PAR, 'something is printed without parameters', 'empty')
    r = par_run({'-d': 'system'}, nothing)
    usable(R, 'defaults', 'defaults of a log without any', r, W_PAR, fails=True)
    r = par_run({'-d': 'other'})
    usable(R, 'defaults', 'defaults of an unknown kind', r, W_PAR, fails=True)


# ---------------------------------------------------------------- info

W_INFO = 'pyulog/info.py: show_info'


def lines_of(t):
    return cval(t).split('\n') if is_const(t) else None


def tokens(s):
    return re.findall(r"[\w./:+-]*\w|'[^']*'", s)


def has_line(lines, want):
    """ a line with these words in this order """
    for n, l in enumerate(lines):
        ts = tokens(l)
        i = 0
        for t in ts:
            if i < len(want) and t == want[i]:
                i += 1
        if i == len(want):
            return n
    return None


def hms(us):
    s = us // 1000000
    return '%d:%02d:%02d' % (s // 3600, s % 3600 // 60, s % 60)


def drop(ms):
    return Obj(None, duration=ms, timestamp=1)


SIZES = {'int8_t': 1, 'uint8_t': 1, 'int16_t': 2, 'uint16_t': 2, 'int32_t': 4, 'uint32_t': 4, 'int64_t': 8, 'uint64_t': 8, 'float': 4, 'double': 8, 'bool': 1, 'char': 1}


@guard
def info_output(R):
    topics = [Topic('zeta', [TS, ('float', 'x'), ('double', 'd'), ('int16_t', 'h'), ('char', 'c'), ('bool', 'b')], [1, 2, 3]), Topic('alpha', [TS], [1], multi_id=2),
              Topic('alpha', [TS, ('uint32_t', 'u')], [], multi_id=0), Topic('mid', [('int8_t', 'a'), TS, ('uint16_t', 'q'), ('int64_t', 'r'), ('int32_t', 's'), ('uint8_t', 't')], [1, 2]),
              Topic('dig', [TS], [1, 2, 3, 4], multi_id=11), Topic('dig1', [TS], [1, 2], multi_id=1)]
    logs = [
        dict(start_timestamp=112500000, last_timestamp=181493506, data_list=topics, msg_info_dict={'sys_name': 'PX4', 'perf_top_preflight': 'xx', 'ver_hw': 'AUAV', 'time_ref_utc': 0},
             msg_info_multiple_dict={'perf_counter': [['a', 'b'], ['c']], 'boot': [['m']]}, dropouts=[drop(38), drop(4), drop(125)]),
        dict(start_timestamp=0, last_timestamp=0),
        dict(start_timestamp=59999999, last_timestamp=3659999999, dropouts=[drop(7)], file_corruption=True, msg_info_dict={'b': 'two words', 'a': 5}),
        dict(start_timestamp=3600000000, last_timestamp=90061000000, dropouts=[drop(0)], data_list=topics[:2]),
        dict(start_timestamp=119000000, last_timestamp=178999999),
        dict(start_timestamp=1, last_timestamp=2, dropouts=[drop(20), drop(20), drop(5), drop(20)], msg_info_dict={'perform': 7, 'Perf_top': 'caps', '_perf_': 0, 'perf': 'bare',
             'x_perf_y': 'z', 'Zeta': 0.0, 'alpha': False, 'empty': ''}, msg_info_multiple_dict={'perf_top': [['a'], ['b'], ['b']], 'Zed': []},
             data_list=[Topic('Caps', [TS, ('uint8_t', 'a')], [0, 0]), Topic('caps', [TS, ('uint8_t', 'a'), ('uint8_t', 'b')], [5]), Topic('_low', [TS, ('bool', 'a')], [5, 6, 7], multi_id=3)]),
        dict(start_timestamp=86399999999, last_timestamp=86400000000, dropouts=[drop(65535), drop(1), drop(65535)]),
        dict(start_timestamp=500, last_timestamp=36000000499, dropouts=[drop(10)] * 11),
        dict(start_timestamp=359999999999, last_timestamp=4000000000000000, dropouts=[drop(k % 97) for k in range(1000)], msg_info_dict={'k%d' % k: k * 1000003 for k in range(120)},
             msg_info_multiple_dict={'m%d' % k: [['x'] * (k + 2)] * k for k in range(1, 15)},
             data_list=[Topic('padded', [TS, ('float', 'x')] + [('uint8_t', '_padding0[%d]' % k) for k in range(4)] + [('double', 'y')], [1, 2, 3]),
                        Topic('array', [('float', 'a[%d]' % k) for k in range(40)] + [TS, ('int16_t', 'in.b[0]'), ('int16_t', 'in.b[1]'), ('bool', '_padding')], list(range(1, 1501))),
                        Topic('a/b', [TS, ('char', 'n[0]'), ('char', 'n[1]')], [0, 0, 0, 0, 0], multi_id=255),
                        Topic('a_topic_with_a_name_longer_than_its_column', [TS, ('uint32_t', 'timestamp_sample')], [3, 1, 2], multi_id=4)]),
    ]
    for n, lg in enumerate(logs):
        kept(lg)
        for version in ('v1.2.3', None):
            for verbose in (False, True):
                r = main_run('info', {'-v': 1} if verbose else {}, lg, methods=VERSION[version])
                lab = 'log %d%s' % (n, ', verbose' if verbose else '')
                R.saw('scenarios', lab)
                if not usable(R, 'info', lab, r, W_INFO):
                    continue
                ls = lines_of(r.out)
                if ls is None:
                    R.und('info', '%s: the text is not understood' % lab, W_INFO)
                    continue

                def expect(rule, what, words):
                    at = has_line(ls, words)
                    R.decide(at is not None, rule, '%s: %s' % (lab, what), W_INFO, '%s: %s is not shown as %s' % (lab, what, ' '.join(words)), rule)
                    return at
                expect('time', 'the start and the duration', [hms(lg['start_timestamp']), hms(lg['last_timestamp'] - lg['start_timestamp'])])
                ds = [d.attrs['duration'] for d in lg.get('dropouts', [])]
                if ds:
                    expect('dropouts', 'number, total, maximum and mean of dropouts', [str(len(ds)), '%.1f' % (sum(ds) / 1000), str(max(ds)), str(int(sum(ds) / len(ds)))])
                else:
                    R.decide(not any('count' in l.lower() and 'dropout' in l.lower() for l in ls), 'dropouts', '%s: no dropouts' % lab, W_INFO, '%s: dropouts are shown' % lab, 'dropouts.none')
                shown = any('corrupt' in l.lower() for l in ls)
                R.decide(shown == bool(lg.get('file_corruption')), 'corruption', '%s: a warning if and only if the file is corrupt' % lab, W_INFO,
                         '%s: %s' % (lab, 'a warning about a sound file' if shown else 'no warning about a corrupt file'), 'corruption')
                if version:
                    expect('version', 'the software version', [version])
                at = []
                for k, v in sorted(lg.get('msg_info_dict', {}).items()):
                    if k.startswith('perf_') and not verbose:
                        R.decide(not any(k in tokens(l) or k in l for l in ls), 'information', '%s: %s is left out' % (lab, k), W_INFO, '%s: %s is shown' % (lab, k), 'information.perf')
                    else:
                        at.append(expect('information', 'the information %s' % k, tokens(k) + tokens(str(v))))
                R.decide(None in at or at == sorted(at), 'information', '%s: sorted' % lab, W_INFO, '%s: the information is not sorted' % lab, 'information.order')
                for k, v in lg.get('msg_info_multiple_dict', {}).items():
                    if verbose:
                        ok = any(k in l and str(v) in l for l in ls)
                    else:
                        ok = any(re.search(r'\b%s\W+%d\b' % (k, len(v)), l) for l in ls)
                    R.decide(ok, 'multiple', '%s: %s' % (lab, k), W_INFO, '%s: %s is not shown with its %s' % (lab, k, 'values' if verbose else 'number'), 'multiple')
                at = []
                for t in sorted(lg.get('data_list', []), key=lambda t: t.name + str(t.multi_id)):
                    size = sum(SIZES[ty] for ty, _f in t.fields)
                    at.append(expect('table', 'the data set %s %d' % (t.name, t.multi_id), [t.name, str(t.multi_id), str(size), str(len(t.times)), str(size * len(t.times))]))
                R.decide(None in at or at == sorted(at), 'table', '%s: sorted' % lab, W_INFO, '%s: the data sets are not sorted' % lab, 'table.order')


VERSION = {v: {'get_version_info_str': v} for v in ('v1.2.3', None)}


@guard
def info_message(R):
    lg = kept(dict(msg_info_multiple_dict={'boot': [['one', 'two'], ['three']], 'raw': [[b'ab', b'\x00\xff'], [b'z']], 'void': [[], ['x']], 'other': [['no']], 'long': [[b'abc', b'de', b'f'], [b'']], 'nums': [[3, 4], [-5]], 'reals': [[0.5]]}))
    where = 'pyulog/info.py: main'
    for nl in (False, True):
        for name, want in (('boot', ['one' + nl * '\n' + 'two', 'three']), ('raw', ['61 62' + nl * '\n' + '00 ff', '7a']), ('void', ['', 'x']), ('long', ['61 62 63' + nl * '\n' + '64 65' + nl * '\n' + '66', '']), ('nums', ['3' + nl * '\n' + '4', '-5']), ('reals', ['0.5'])):
            r = main_run('info', dict({'-m': name}, **({'-n': 1} if nl else {})), lg)
            lab = 'the message %s%s' % (name, ', separated' if nl else '')
            R.saw('scenarios', lab)
            if not usable(R, 'message', lab, r, where):
                continue
            if not is_const(r.out):
                R.und('message', '%s: the text is not understood' % lab, where)
                continue
            got = cval(r.out)
            if name == 'nums' and not nl:
                continue  # how numbers are put side by side is not stated
            pos, ok = 0, True
            for w in want:
                at = ('\n' + got).find('\n' + w + '\n', pos)
                ok = ok and at >= 0
                pos = at + len(w) + 1 if at >= 0 else pos
            R.decide(ok and 'no\n' not in got, 'message', lab, where, '%s: its entries are not shown in order' % lab, 'message')
            R.decide(all(re.search(r'\b%s\b.*\b%d\b' % (name, i), got) for i in range(len(want))), 'message', '%s: entries are numbered' % lab, where, '%s: its entries are not told apart' % lab, 'message.number')
            sizes = re.findall(r'\b%s\b\W*(\d+)\b.*?\blen\w*\W+(\d+)\b' % name, got)
            size = {'raw': ['4', '1'], 'long': ['6', '0']}.get(name)
            R.decide(not size or not sizes or [b for _a, b in sizes] == size, 'message', '%s: sizes' % lab, where, '%s: the sizes of its entries are %s instead of %s' % (lab, [b for _a, b in sizes], size), 'message.size')
    for k, l in (('none', lg), ('boo', lg), ('boot', kept(dict(msg_info_multiple_dict={})))):
        r = main_run('info', {'-m': k}, l)
        if usable(R, 'message', 'an absent message', r, where):
            R.decide(is_const(r.out) and 'not found' in cval(r.out), 'message', 'an absent message is reported', where, 'an absent message is not reported', 'message.absent')


# ---------------------------------------------------------------- messages and events

W_MSG = 'pyulog/messages.py: main'
LEVEL = {0: 'EMERGENCY', 1: 'ALERT', 2: 'CRITICAL', 3: 'ERROR', 4: 'WARNING', 5: 'NOTICE', 6: 'INFO', 7: 'DEBUG'}


def logged(t, level, text_):
    return Obj('ULog.MessageLogging', timestamp=t, log_level=48 + level, message=text_)


def events_hook(events):
    def hook(it, f, a, k, node, st):
        if f.name == 'get_logged_events':
            r = it.new_ref('list', None, ('events',))
            st.cells[('S', r)] = tuple(('item', mk('tuple', *[C(x) for x in e])) for e in events)
            return r
        return None
    return hook


@guard
def messages_output(R):
    msgs = [(3725123456, 4, 'first'), (5000000, 6, ''), (7999999, 0, '\t'), (7999999, 3, 'tab at the end\t'), (8000000, 7, 'has\ttab'), (8000000, 6, 'last one'), (90061000000, 1, 'late'),
            (8000001, 6, 'tab and break\t\n'), (8000002, 6, 'tab and blank\t '), (8000003, 6, '\tstarts with one'), (8000004, 6, '  blanks   inside  '), (8000005, 6, '0'),
            (8000006, 6, 'two\t\t'), (8000007, 6, 'x' * 300), (8000008, 6, 'first line\nsecond: line'), (8000009, 6, 'Grad \u00b0 %s {} \\t')]
    lists = [msgs, [], [(5, 6, 'same time, first'), (5, 3, 'same time, second'), (5, 7, 'a third'), (4, 7, 'earlier')], [(1, 6, '')], [(2000000, 6, 'b'), (1000000, 6, 'a')], [(1, k, 'level %d' % k) for k in range(8)],
             [(59999999, 6, 'again'), (59999999, 6, 'again'), (60000000, 6, 'again'), (6000000, 4, 'an event'), (8000000, 6, 'event too'), (3599999999, 5, 'nearly an hour'), (16777217000000, 2, 'large'),
              (9007199254, 3, 'a day'), (0, 6, 'zero'), (0, 6, 'zero'), (999999, 6, 'under a second')] + [(120000000 + 1000 * k, 6, 'many') for k in range(80)]]
    evs = [[], [(6000000, 'WARNING', 'an event'), (8000000, 'INFO', 'event too'), (1, 'ERROR', 'early')], [(7, 'WARNING', 'z'), (7, 'INFO', 'x'), (7, 'ERROR', 'y')]]

    def line(t, l, m):
        return '%s %s: %s' % (hms(t), l, m)

    def norm(s):
        left, colon, right = s.partition(': ')
        return re.sub(r'[ ]+', ' ', left) + colon + right
    for i, ms in enumerate(lists):
        for px4 in (None, 'PX4', 'Other') + (('PX4XY', 'px4', 'PX4 ', ' PX4', 'PX', 'My PX4 rig') if i in (0, 2) else ()):
            for j, ev in enumerate(evs):
                lg = go(('msglog', i, px4), lambda: dict(logged_messages=[logged(t, l, m) for t, l, m in ms], msg_info_dict={'sys_name': px4} if px4 else {}))
                r = go(('msg', i, px4, j), lambda: tool_run('pyulog.messages', 'main', log=lg, cli={0: IN}, hook=events_hook(ev)))
                lab = 'messages %d, %s, %d events' % (i, px4 or 'no system name', len(ev))
                R.saw('scenarios', lab)
                if not usable(R, 'messages', lab, r, W_MSG):
                    continue
                if px4 == 'PX4':
                    all_ = list(ev) + [(t, LEVEL[l], m) for t, l, m in ms if not m.endswith('\t')]
                    all_.sort(key=lambda m: m[0])
                else:
                    all_ = [(t, LEVEL[l], m) for t, l, m in ms]
                if not is_const(r.out):
                    R.und('messages', '%s: the text is not understood' % lab, W_MSG)
                    continue
                got = [norm(l) for l in cval(r.out).split('\n')]
                want = [norm(l) for l in ''.join(line(*m) + '\n' for m in all_).split('\n')]
                if px4 == 'PX4' and got != want and sorted(got) == sorted(want):
                    # the order of messages of the same time is free
                    times = [g.split(' ')[0] for g in got]
                    ok = times == [w.split(' ')[0] for w in want]
                    # but the messages among themselves, and the events, are shown as they were logged
                    for src in (list(ev), [(t, LEVEL[l], m) for t, l, m in ms if not m.endswith('\t')]):
                        mine = [norm(x) for m in sorted(src, key=lambda m: m[0]) for x in line(*m).split('\n')]
                        ok = ok and [g for g in got if g in mine] == mine
                else:
                    ok = got == want
                bad = next((a for a, b in zip(got + [''] * 9, want) if a != b), '')
                R.decide(ok, 'messages', lab, W_MSG, '%s: the messages are not shown as logged (%r)' % (lab, bad), 'messages:%s' % ('px4' if px4 == 'PX4' else 'log'))


class EventParser:
    """ stands in for the event library: ids 1..99 are known, multiples of 5 are not of the default group """

    def __init__(self, fails=None):
        self.fails = fails
        self.made, self.parsed, self.loaded, self.downloads, self.profiles, self.marks = [], [], [], 0, [], []

    def ext(self, r, host, path, a, k, st):
        if path.split('.')[-1] == 'Parser' and 'libevents' in path:
            return self.make()
        if path == 'json.loads':
            return mk('stub', 'json', *[host.it.freeze(st, x) for x in a])
        if path == 'lzma.decompress':
            return mk('call', 'lzma.decompress', tuple(host.it.freeze(st, x) for x in a), ())
        if path.endswith('request.urlopen'):
            self.downloads += 1
            if self.fails == 'download':
                host.it.raise_(st, 'OSError', None)
                return NONE
            return mk('stub', 'response')
        return None

    def make(self):
        p = mk('stub', 'parser%d' % len(self.made))
        self.made.append(p)
        return p

    def meth(self, r, host, recv, name, a, k, st):
        if recv.op == 'stub' and recv.args[0] == 'response':
            return C(b'downloaded') if name == 'read' else (recv if name == '__enter__' else NONE)
        if recv in self.made:
            if name == 'load_definitions':
                if self.fails == 'load':
                    host.it.raise_(st, 'ValueError', None)
                    return NONE
                self.loaded.append((recv, host.it.freeze(st, a[0])))
                return NONE
            if name == 'set_profile':
                self.profiles.append((recv, host.it.freeze(st, a[0]) if a else NONE, len(self.parsed)))
                return NONE
            if name == 'parse':
                i = a[0]
                data = host.it.freeze(st, host.it.bytes_of(a[1], st)) if len(a) > 1 else NONE
                self.parsed.append((recv, i, data, st.pc))
                if is_num(i) and 0 <= cval(i) < 100:
                    return mk('stub', 'event%d' % len(self.parsed))
                return NONE
        if recv.op == 'stub' and recv.args[0].startswith('event'):
            n = int(recv.args[0][5:])
            i = self.parsed[n - 1][1]
            if name == 'group':
                return C('default' if known_text(cval(i)) else 'other')
            if name == 'message':
                return C('text of %d, call %d' % (cval(i), n) if cval(i) != 11 else '')
        return None


def known_text(i):
    """ the number of an event of the default group """
    return i == 0 or i % 5 != 0


W_EV = 'pyulog/px4_events.py: PX4Events.get_logged_events'
EV_FIELDS = [TS, ('uint32_t', 'id'), ('uint16_t', 'event_sequence'), ('uint8_t', 'arguments[0]'), ('uint8_t', 'arguments[1]'), ('uint8_t', 'arguments[2]'), ('uint8_t', 'log_levels')]


def event_topic(rows):
    """ rows: (time, id, level byte, args) """
    n = len(rows[0][3]) if rows else 3
    fields = [f for f in EV_FIELDS if not f[1].startswith('arguments')] + [('uint8_t', 'arguments[%d]' % k) for k in range(n)]
    return Topic('event', EV_FIELDS if n == 3 else fields, [x[0] for x in rows], cols={'id': [x[1] for x in rows], 'event_sequence': list(range(len(rows))), 'log_levels': [x[2] for x in rows],
                                                                 **{'arguments[%d]' % k: [x[3][k] for x in rows] for k in range(n)}})


def events_run(topics, info=None, multi=None, default=True, fails=None, calls=1, before=()):
    lib = EventParser(fails)
    logs = [dict(data_list=topics, msg_info_dict=i, msg_info_multiple_dict=m) for i, m in before]
    lg = dict(data_list=topics, msg_info_dict=info or {}, msg_info_multiple_dict=multi or {})

    def hook(it, f, a, k, node, st):
        if f.name == '_get_default_json_definitions' or f.name == 'given~':
            return None
        return None

    def make(host, r):
        it, st = host.it, host.st
        from .engine import Frame, Func
        import ast
        mod = 'pyulog.px4_events'
        it.load_module(mod)
        cls = it.resolve(mod, 'PX4Events', st)
        fr = Frame(Func('<q>', '<q>', ast.parse('pass').body[0], mod, (), None, [], {}, 'func'), 'q', (), mod)
        it.frames.append(fr)
        node = ast.parse('0').body[0].value
        o = it.instantiate(cls, [], {}, node, st, fr)
        set_cb = it.find_method(o, 'set_default_json_definitions_cb', st)
        if default is not None:
            it.call(set_cb, [mk('sym', '~callback')], {}, node, st, fr)
        for x in logs:
            r.relog(**x)
            lib.marks.append(len(lib.parsed))
            it.call(it.find_method(o, 'get_logged_events', st), [r.ulog], {}, node, st, fr)
        if logs:
            r.relog(**lg)
            lib.marks.append(len(lib.parsed))
        if calls > 1:
            m = it.find_method(o, 'get_logged_events', st)
            for _n in range(calls - 1):
                lib.parsed.append(None)
                it.call(m, [r.ulog], {}, node, st, fr)
        it.frames.pop()
        return o
    r = X.tool_run_self('pyulog.px4_events', 'PX4Events.get_logged_events', make, log=lg, ext=lib.ext, meth=lib.meth,
                        callv={mk('sym', '~callback'): (NONE if not default else C('default definitions'))})
    r.lib = lib
    return r


@guard
def events_list(R):
    rows = [(10, 1, 0x43, (1, 2, 3)), (20, 200, 0x67, (0, 0, 0)), (30, 5, 0x30, (9, 9, 9)), (40, 2, 0x87, (1, 1, 1)), (50, 3, 0x7f, (255, 128, 0)), (60, 4, 0x08, (4, 5, 6)),
            (70, 6, 0xf0, (1, 2, 3)), (80, 300, 0x90, (1, 2, 3)), (90, 7, 0x50, (7, 7, 7)), (90, 7, 0x50, (7, 7, 7)), (95, 11, 0x60, (0, 0, 0)), (85, 99, 0x21, (0, 0, 1)), (0, 8, 0x61, (0, 1, 0)), (86, 0, 0x22, (1, 0, 1)),
            (1 << 40, 4294967295, 0x12, (1, 0, 0)), (1 << 40, 12, 0x62, (0, 0, 0))]
    every = [(100 + k, 1 + k, 16 * k + (15 - k), (k, 0, 255)) for k in range(16)] + [(90 - k, 31 + k, 16 * k, (k, 1, 2)) for k in range(16)]
    where = W_EV
    wide = [(10 + k, 1 + k, 0x43, tuple((7 * k + 3 * m) % 256 for m in range(50))) for k in range(3)]
    bare = [(10 + k, 1 + k, 0x43, ()) for k in range(3)]
    for lab, rs, default in (('events', rows, True), ('events with many arguments', wide, True), ('events without arguments', bare, True), ('events without definitions', rows, False), ('no events', [], True), ('one event', rows[:1], True), ('every level', every, True)):
        r = go(('events', lab), lambda: events_run([event_topic(rs)] if rs is not None else [], default=default))
        R.saw('scenarios', lab)
        if not usable(R, 'events', lab, r, where):
            continue
        want, calls, n = [], [], 0
        for t, i, lv, args in rs:
            level = lv >> 4
            if level >= 8:
                continue
            known = False
            if default:
                n += 1
                calls.append((i, bytes(args)))
                known = 0 <= i < 100
            if not known:
                want.append((t, LEVEL[level], i))
            elif known_text(i):
                want.append((t, LEVEL[level], 'text of %d, call %d' % (i, n) if i != 11 else ''))
        got = r.it.freeze(r.st, r.ret, 6)
        items = [p.args[0] for p in got.args] if got.op == 'list' and all(p.op == 'p_item' for p in got.args) else None
        if items is None or not all(x.op == 'tuple' and len(x.args) == 3 and all(is_const(y) for y in x.args) for x in items):
            R.und('events', '%s: the result is not understood: %s' % (lab, show(got, 4)[:200]), where)
            continue
        vals = [tuple(cval(y) for y in x.args) for x in items]
        ok = len(vals) == len(want) and all(a[:2] == b[:2] and (a[2] == b[2] if isinstance(b[2], str) else str(b[2]) in a[2]) for a, b in zip(vals, want))
        R.decide(ok, 'events', lab, where, '%s: %s instead of %s' % (lab, vals, want), 'events')
        sent = [(cval(i) if is_const(i) else None, cval(d) if is_const(d) else None) for _p, i, d, _pc in r.lib.parsed]
        R.decide(sent == calls if not any(None in x for x in sent) else None, 'arguments', '%s: every event is decoded with its own arguments' % lab, where,
                 '%s: the decoded events are %s instead of %s' % (lab, sent[:4], calls[:4]), 'arguments')
    for lab, topics in (('no event messages', []), ('other messages', [Topic('evento', [TS], [1])]), ('events without levels', [Topic('event', [TS, ('uint32_t', 'id')], [1], cols={'id': [1]})])):
        r = go(('events', lab), lambda: events_run(topics))
        R.saw('scenarios', lab)
        if usable(R, 'none', lab, r, where):
            got = r.it.freeze(r.st, r.ret, 6)
            R.decide(got.op == 'list' and not got.args if got.op == 'list' else None, 'none', '%s: no messages' % lab, where, '%s: %s' % (lab, show(got, 4)), 'none')
    r = go(('events', 'failing'), lambda: events_run([event_topic(rows)], fails='load'))
    if usable(R, 'none', 'definitions that can not be used', r, where):
        got = r.it.freeze(r.st, r.ret, 6)
        R.decide(not got.args if got.op == 'list' else None, 'none', 'definitions that can not be used: no messages', where, 'unusable definitions: %s' % show(got, 4), 'none.fails')


@guard
def events_definitions(R):
    where = 'pyulog/px4_events.py: PX4Events._get_event_parser'
    blob = [[b'part1', b'part2'], [b'older']]
    want = mk('stub', 'json', mk('call', 'lzma.decompress', (C(b'part1part2'),), ()))
    ev = [event_topic([(10, 1, 0x43, (1, 2, 3))])]
    many = [[b'p1', b'p2', b'p3', b'p4', b'p5', b'p6', b'p7', b'p8', b'p9'], [b'old', b'er'], [b'oldest']]
    for lab, info, multi, own in (('both', {'metadata_events_sha256': 'ab12'}, {'metadata_events': blob}, True), ('many parts', {'metadata_events_sha256': 'ab12'}, {'metadata_events': many}, True),
                                  ('one part', {'metadata_events_sha256': 'ab12'}, {'metadata_events': [[b'p1p2p3p4p5p6p7p8p9']]}, True),
                                  ('three parts', {'metadata_events_sha256': 'ab12'}, {'metadata_events': [[b'p1p2', b'p3p4p5', b'p6p7p8p9']]}, True), ('no hash', {}, {'metadata_events': blob}, False),
                                  ('no definitions', {'metadata_events_sha256': 'ab12'}, {}, False), ('a strange hash', {'metadata_events_sha256': '../x'}, {'metadata_events': blob}, False),
                                  ('a long hash', {'metadata_events_sha256': 'a' * 65}, {'metadata_events': blob}, False), ('full hash', {'metadata_events_sha256': 'a' * 64}, {'metadata_events': blob}, True)):
        r = go(('defs', lab), lambda: events_run(ev, info, multi))
        R.saw('scenarios', lab)
        if not usable(R, 'definitions', lab, r, where):
            continue
        w = (want if multi.get('metadata_events') is blob else mk('stub', 'json', mk('call', 'lzma.decompress', (C(b'p1p2p3p4p5p6p7p8p9'),), ()))) if own else C('default definitions')
        got = [d for _p, d in r.lib.loaded]
        R.decide(got == [w] if all(understood_def(g) for g in got) else None, 'definitions', '%s: the definitions %s are used' % (lab, 'in the log' if own else 'by default'), where,
                 '%s: the definitions used are %s' % (lab, [show(g, 4) for g in got]), 'definitions')
        used = {p for p, _i, _d, _pc in r.lib.parsed}
        R.decide(used == {r.lib.loaded[0][0]} if r.lib.loaded else None, 'definitions', '%s: the parser with them decodes' % lab, where, '%s: another parser decodes' % lab, 'definitions.parser')
        profile_of(R, lab, r.lib, where)
    # logs one after the other: each is decoded with its own definitions
    own = ({'metadata_events_sha256': 'ab12'}, {'metadata_events': [[b'one']]})
    own2 = ({'metadata_events_sha256': 'ab12'}, {'metadata_events': [[b'two']]})
    bare = ({}, {})
    json = lambda b: mk('stub', 'json', mk('call', 'lzma.decompress', (C(b),), ()))
    src = {id(own): json(b'one'), id(own2): json(b'two'), id(bare): json(b'downloaded')}
    for logs, lab in (((own, bare), 'a log with definitions, then one without'), ((bare, own), 'a log without definitions, then one with them'), ((own, own2), 'two logs with definitions of the same name'),
                      ((bare, own, bare), 'a log with definitions between others'), ((own, own2, own), 'logs with alternating definitions')):
        r = go(('defs', lab), lambda: events_run(ev, *logs[-1], before=logs[:-1], default=None))
        R.saw('scenarios', lab)
        if not usable(R, 'definitions', lab, r, where):
            continue
        marks = r.lib.marks + [len(r.lib.parsed)]
        defs = {id(p): d for p, d in r.lib.loaded}
        for n, x in enumerate(logs):
            part = r.lib.parsed[marks[n]:marks[n + 1]]
            got = [defs.get(id(p[0])) for p in part]
            R.decide(None if not got or None in got or not all(understood_def(g) for g in got) else all(g is src[id(x)] for g in got), 'definitions', '%s: log %d' % (lab, n + 1), where,
                     '%s: log %d is decoded with %s' % (lab, n + 1, [show(g, 4) for g in got if g]), 'definitions.each')


def profile_of(R, lab, lib, where):
    """ the parser decodes with the texts for developers """
    for p, _d in lib.loaded:
        got = [v for q, v, n in lib.profiles if q is p]
        R.decide(False if not got else (got[-1] is C('dev') if is_const(got[-1]) else None), 'profile', '%s: the texts are those for developers' % lab, where,
                 '%s: the profile of the texts is %s' % (lab, show(got[-1]) if got else 'not set'), 'profile')


@guard
def events_download(R):
    where = 'pyulog/px4_events.py: PX4Events._get_default_json_definitions'
    ev = [event_topic([(10, 1, 0x43, (1, 2, 3)), (20, 101, 0x43, (1, 2, 3))])]
    want = mk('stub', 'json', mk('call', 'lzma.decompress', (C(b'downloaded'),), ()))
    for n in (1, 2, 3):
        lab = '%d log%s' % (n, 's' if n > 1 else '')
        r = go(('download', lab), lambda: events_run(ev, default=None, calls=n))
        R.saw('scenarios', lab)
        if not usable(R, 'download', lab, r, where):
            continue
        got = [d for _p, d in r.lib.loaded]
        R.decide(got == [want] if all(understood_def(g) for g in got) else None, 'download', '%s: the default definitions are used' % lab, where,
                 '%s: the definitions used are %s' % (lab, [show(g, 4) for g in got]), 'download')
        R.decide(r.lib.downloads == 1, 'download', '%s: they are downloaded once' % lab, where, '%s: %d downloads' % (lab, r.lib.downloads), 'download.once')
        profile_of(R, lab, r.lib, where)
        p = [x for x in r.lib.parsed if x]
        R.decide(len(p) == 2 * n and all(x[0] is r.lib.loaded[0][0] for x in p) if r.lib.loaded else None, 'download', '%s: every event is decoded with them' % lab, where,
                 '%s: the later events are not decoded' % lab, 'download.decoded')
    for n in (1, 2):
        r = go(('download', 'failing', n), lambda: events_run(ev, default=None, fails='download', calls=n))
        if usable(R, 'download', 'without a connection', r, where):
            got = r.it.freeze(r.st, r.ret, 6)
            R.decide(not got.args if got.op == 'list' else None, 'download', 'without a connection (%d): no events, and no failure' % n, where, 'without a connection: %s' % show(got, 4), 'download.offline')
    own = dict(info={'metadata_events_sha256': 'ab12'}, multi={'metadata_events': [[b'x']]})
    r = go(('download', 'own'), lambda: events_run(ev, default=None, **own))
    if usable(R, 'download', 'a log with definitions', r, where):
        R.decide(r.lib.downloads == 0, 'download', 'nothing is downloaded for a log with its own definitions', where, 'definitions are downloaded for a log with its own', 'download.own')


def understood_def(g):
    return not any(x.op in ('top', 'mcall', 'callv', 'ite', 'sub') for x in walk(g))


# ---------------------------------------------------------------- GPS dump

W_GPS = 'pyulog/extract_gps_dump.py: main'


def gps_topic(rows, instance=True, n=3, multi_id=0):
    """ rows: (length with the direction bit, instance) """
    fields = [TS, ('uint8_t', 'len')] + [('uint8_t', 'data[%d]' % k) for k in range(n)]
    cols = {'len': [x[0] for x in rows]}
    if instance:
        fields.insert(1, ('uint8_t', 'instance'))
        cols['instance'] = [x[1] for x in rows]
    return Topic('gps_dump', fields, [i + 1 for i in range(len(rows))], cols=cols, multi_id=multi_id)


def raw_bytes(r, path):
    out = []
    for k, v in r.texts.items():
        if opened_name(k) == path:
            for p in v:
                out += flat_bytes(p)
            return out
    return None


def flat_bytes(p):
    if p.op in ('bytes', 'strcat'):
        return [y for x in p.args for y in flat_bytes(x)]
    if p.op == 'pack' and p.args[0] == 'B' or p.op == 'str':
        return flat_bytes(p.args[-1])
    if p.op == 'vec':
        return [y for x in p.args for y in flat_bytes(x)]
    if p.op == 'bitand' and C(255) in p.args:
        return flat_bytes(p.args[0] if p.args[1] is C(255) else p.args[1])
    if p.op == 'int':
        return flat_bytes(p.args[0])
    if is_const(p) and isinstance(cval(p), bytes):
        return [C(b) for b in cval(p)]
    return [p]


@guard
def gps_output(R):
    rows = [(2, 0), (128 + 3, 0), (1, 1), (128 + 1, 1), (0, 0), (128, 0), (3, 0), (128 + 2, 2), (128 + 2, 0)]
    cases = [('main receiver', rows, True, {}, 0), ('second receiver', rows, True, {'-i': '1'}, 1), ('receiver 0', rows, True, {'-i': '0'}, 0), ('absent receiver', rows, True, {'-i': '3'}, 3),
             ('no instances', rows, False, {}, 0), ('no instances, second', rows, False, {'-i': '1'}, 1), ('no rows', [], True, {}, 0)]
    full = [(l + d, 0) for l in (79, 64, 63, 65, 32, 16, 8, 7, 0, 1, 78) for d in (128, 0)]
    cases += [('full records', full, True, {}, 0), ('full records of one receiver', full, False, {}, 0)]
    for lab, rs, inst, cli, want in cases:
        t = go(('gpst', lab), lambda: gps_topic(rs, inst, 79 if rs is full else 3))
        for out, src, prefix in ((None, IN, 'flight'), ('out', 'x/G.ULG', 'out/G'), (None, 'plain', 'plain'))[:1 if rs is full else 3]:
            c = dict(cli)
            c[0] = src
            if out:
                c['-o'] = out
            for drops in (0, 2):
                lg = go(('gpsl', lab, drops), lambda: dict(data_list=[t], dropouts=[drop(1)] * drops))
                r = main_run('extract_gps_dump', c, lg, dirs=('out',))
                R.saw('scenarios', '%s, %s' % (lab, src))
                if not usable(R, 'dump', lab, r, W_GPS):
                    continue
                for to, name in ((True, 'to_device'), (False, 'from_device')):
                    path = '%s_%d_%s.dat' % (prefix, want, name)
                    w = [t.cols['data[%d]' % k][i] for i, (l, ins) in enumerate(rs) if (ins if inst else 0) == want and bool(l & 128) == to for k in range(l & 127)]
                    got = raw_bytes(r, path)
                    if got is not None and got != w and not all(understood(g) for g in got):
                        R.und('dump', '%s: the bytes %s are not understood' % (lab, name), W_GPS)
                        continue
                    R.decide(got == w, 'dump', '%s: the bytes %s' % (lab, name), W_GPS,
                             '%s: %s' % (lab, 'there is no file %s' % path if got is None else 'the bytes in %s are not those of the log' % name), 'dump')
                for path, mode, _kw, e in r.opens:
                    R.decide('b' in cval(mode) if is_const(mode) else None, 'binary', 'files are binary', e.where, 'bytes are written to a text file', 'binary')
    lg = kept(dict(data_list=[gps_topic(rows), Topic('other', [TS], [1])]))
    for lab, lg in (('no dump', kept(dict(data_list=[]))), ('other messages', kept(dict(data_list=[Topic('sensor', [TS], [1])]))),
                    ('no lengths', kept(dict(data_list=[Topic('gps_dump', [TS, ('uint8_t', 'data[0]')], [1])]))), ('no data', kept(dict(data_list=[Topic('gps_dump', [TS, ('uint8_t', 'len')], [1])])))):
        r = main_run('extract_gps_dump', {}, lg)
        R.saw('scenarios', lab)
        sure = [o for o in r.opens if is_const(o[1]) and set(cval(o[1])) & set('wxa')]
        if r.problems and not sure:
            R.und('absent', '%s: %s' % (lab, r.problems[0]), W_GPS)
            continue
        names = {x[1] for x in r.exc if not x[2]}
        R.decide(not r.raised or names <= {'SystemExit'}, 'absent', '%s: it ends without an error' % lab, W_GPS, '%s: it fails with %s' % (lab, ', '.join(sorted(names - {'SystemExit'}))), 'absent.fails')
        R.decide(not r.opens, 'absent', '%s: nothing is written' % lab, W_GPS, '%s: files are written' % lab, 'absent')
        R.decide(bool(cval(r.out)) if is_const(r.out) else None, 'absent', '%s: it is reported' % lab, W_GPS, '%s: nothing is reported' % lab, 'absent.report')


# ---------------------------------------------------------------- KML

W_KML = 'pyulog/ulog2kml.py: convert_ulog2kml'


class Kml:
    """ stands in for the KML library """

    def __init__(self):
        self.lines, self.points, self.saved, self.log = [], [], [], []

    def ext(self, r, host, path, a, k, st):
        if path == 'simplekml.Kml':
            return mk('stub', 'kml')
        return None

    def meth(self, r, host, recv, name, a, k, st):
        root = recv
        while root.op == 'attr':
            root = root.args[0]
        if root.op != 'stub':
            return None
        fz = host.it.freeze
        a, k = [fz(st, x, 9) for x in a], {n: fz(st, x, 9) for n, x in k.items()}
        self.log.append((len(host.it.trace), root, recv, name, a, k, st.pc, host.it.loops))
        if name in ('newlinestring', 'newpoint'):
            return mk('stub', '%s%d' % (name, len(self.log)))
        return NONE

    def shapes(self, r):
        """ [(kind, {attribute: value}, [coordinates])] and the saved names; Und if something is not understood """
        out, of, saved = [], {}, []
        todo = [(n, 'call', x) for x in self.log for n in [x[0]]]
        for n, e in enumerate(r.trace):
            if e.kind == 'setattr':
                root = e.args[0]
                while root.op == 'attr':
                    root = root.args[0]
                if root.op == 'stub':
                    todo.append((n, 'set', e))
        for n, what, x in sorted(todo, key=lambda q: q[0]):
            if (x[6] if what == 'call' else x.pc) or (x[7] if what == 'call' else x.loops):
                raise Und('the map is made under conditions that are not settled')
            if what == 'set':
                root, path = x.args[0], [cval(x.args[1])]
                while root.op == 'attr':
                    path.insert(0, root.args[1] if isinstance(root.args[1], str) else cval(root.args[1]))
                    root = root.args[0]
                if root not in of:
                    raise Und('an attribute of %s is set' % show(root))
                s = of[root]
                if path == ['coords']:
                    s[2][:] = self.coordinates(r.it.freeze(r.st, x.args[2], 9))
                else:
                    s[1]['.'.join(path)] = x.args[2]
                continue
            _n, root, recv, name, a, k, _pc, _l = x
            if name in ('newlinestring', 'newpoint') and recv.op == 'stub':
                k = dict(k)
                if a:
                    k['name'] = a[0]
                s = (name[3:], k, self.coordinates(k.pop('coords')) if 'coords' in k else [])
                out.append(s)
                of[mk('stub', '%s%d' % (name, self.log.index(x) + 1))] = s
            elif name == 'addcoordinates' and recv.op == 'attr' and root in of and len(a) == 1:
                of[root][2].extend(self.coordinates(a[0]))
            elif name == 'save' and recv.args[0] == 'kml':
                saved.append((a[0] if a else k.get('path', NONE), len(out), [len(s[2]) for s in out]))
            else:
                raise Und('the map operation %s is not understood' % name)
        return out, saved

    @staticmethod
    def coordinates(t):
        if t.op not in ('list', 'tuple'):
            raise Und('coordinates are not understood: %s' % show(t, 4))
        out = []
        for p in t.args:
            p = p.args[0] if p.op == 'p_item' else p
            if p.op not in ('list', 'tuple', 'vec'):
                raise Und('a coordinate is not understood: %s' % show(p, 4))
            out.append(tuple(x.args[0] if x.op == 'p_item' else x for x in p.args))
        return out


def position_topic(name, times, kind='int', fix=None, values=None, tag=''):
    names = ('lat', 'lon', 'alt') if kind in ('int', 'float') else ('latitude_deg', 'longitude_deg', 'altitude_msl_m')
    f = [TS] + [('int32_t' if kind == 'int' else 'double', n) for n in names]
    cols = dict(values or {})
    if fix is not None:
        f.append(('uint8_t', 'fix_type'))
        cols['fix_type'] = fix
    t = Topic(name, f, times, cols=cols, tag=tag)
    t.kind, t.fix, t.names = kind, fix, names
    return t


def kml_points(t, interval, offset):
    """ [(time, (lon, lat, alt))] of the points that are shown """
    out, last = [], 0
    for i, tm in enumerate(t.times):
        if t.fix is not None and t.fix[i] <= 2:
            continue
        if tm - last <= interval * 1e6:
            continue
        last = tm
        lat, lon, alt = [x if isinstance(x, T) else C(x) for x in (t.cols[n][i] for n in t.names)]
        if t.kind == 'int':
            lat, lon, alt = scaled(lat, 10 ** 7), scaled(lon, 10 ** 7), scaled(alt, 1000)
        out.append((tm, (lon, lat, alt if not offset else add(alt, C(offset)))))
    return out


def scaled(x, n):
    return div(x, C(n))


def kml_segments(points, modes):
    """ the points of each flight mode: [(mode, points)]; modes [(time, mode)] """
    cur, k = (modes[0][1] if modes else 0), 0
    segs = [(cur, [])]
    for tm, p in points:
        segs[-1][1].append(p)
        while k < len(modes) - 1 and modes[k + 1][0] <= tm:
            k += 1
            segs.append((modes[k][1], [p]))
    return segs


def mode_changes(t, end):
    out = []
    for tm, m in zip(t.times, t.cols['nav_state']):
        if not out or out[-1][1] != m:
            out.append((tm, m))
    return out + [(end, -1)] if t.times else []


def kml_run(args, kw, log):
    k = Kml()
    r = tool_run('pyulog.ulog2kml', 'convert_ulog2kml', args, kw, log=log, ext=k.ext, meth=k.meth)
    r.kml = k
    return r


def nav(times, modes):
    return Topic('vehicle_status', [TS, ('uint8_t', 'nav_state')], times, cols={'nav_state': modes})


def kml_scenarios():
    gps = position_topic('vehicle_gps_position', [200000, 250000, 400000, 3000000, 5000000, 5600000, 5620000, 7000000], 'int', [3, 3, 4, 2, 3, 0, 6, 3])
    short = nav([1000, 300000, 350000, 4000000, 4500000], [2, 3, 3, 25, 3])
    late = nav([450000, 460000, 6000000], [1, 4, 4])
    new = position_topic('vehicle_global_position', [500000, 550000, 560000, 900000], 'deg')
    flt = position_topic('vehicle_gps_position', [500000, 900000], 'float', [1, 3])
    none = position_topic('vehicle_gps_position', [1000000, 2000000], 'int', [0, 2])
    other = position_topic('vehicle_gps_position', [1000000], 'int', [3], tag='second')
    other.multi_id = 1
    sharp = nav([200000, 400000, 5000000, 7000000], [2, 3, 4, 5])
    zero = position_topic('vehicle_gps_position', [1000000, 2000000, 3000000, 4000000, 5000000], 'float', [3, 3, 3, 3, 3],
                          {'lat': [0.0, 0.0, -1.5, -1.5, -1.5], 'lon': [0.0, 0.0, 0.0, 2.5, 2.5], 'alt': [0.0, 0.0, -20.0, -20.0, -20.0]})
    yield 'known positions', dict(data_list=[zero, nav([1000000, 3500000], [0, 1])], last_timestamp=9000000), {'altitude_offset': 5}, [zero], {}
    low = position_topic('vehicle_gps_position', [1000000, 2000000, 3000000, 4000000], 'int', [3, 3, 3, 3],
                         {'lat': [0, 1, -471234567, 900000000], 'lon': [0, -1, 81234567, -1800000000], 'alt': [0, 999, -1500, 488123]})
    yield 'known positions near the ground', dict(data_list=[low], last_timestamp=9000000), {}, [low], {}
    yield 'positions after the end', dict(data_list=[gps, nav([200000], [3])], last_timestamp=4000000), {}, [gps], {}
    yield 'changes at positions', dict(data_list=[gps, sharp], last_timestamp=6900000), {}, [gps], {}
    yield 'flight modes', dict(data_list=[other, short, gps], last_timestamp=6900000), {}, [gps], {}
    yield 'later flight modes', dict(data_list=[gps, late], last_timestamp=8000000), {}, [gps], {}
    yield 'no flight modes', dict(data_list=[new, gps], last_timestamp=6900000), {'position_topic_name': 'vehicle_global_position', 'altitude_offset': 25}, [new], {}
    yield 'empty flight modes', dict(data_list=[nav([], []), flt], last_timestamp=6900000), {}, [flt], {}
    yield 'status without flight modes', dict(data_list=[Topic('vehicle_status', [TS, ('uint8_t', 'x')], [1]), gps], last_timestamp=1), {'style': {'line_width': 7, 'extrude': True}}, [gps], {}
    yield 'two topics', dict(data_list=[gps, short, new], last_timestamp=6900000), {'position_topic_name': ['vehicle_global_position', 'vehicle_gps_position'], 'minimum_interval_s': 1.5,
                                                                                     'altitude_offset': -3}, [new, gps], {'list': 1}
    yield 'no fix', dict(data_list=[none, short], last_timestamp=6900000), {}, [none], {}


@guard
def kml_tracks(R):
    for lab, lg, kw, topics, opt in kml_scenarios():
        R.saw('scenarios', lab)
        kw = dict(kw)
        cols = [mk('sym', '~colors%d' % n) for n in range(len(topics))]
        kw['colors'] = cols if opt.get('list') else cols[0]
        calls = {c: (lambda a, _k, _s, c=c: mk('call', c.args[0], tuple(a), ())) for c in cols}
        k = Kml()
        r = go(('kml', lab), lambda: kml_called(kw, lg, calls, k))
        if not usable(R, 'track', lab, r, W_KML):
            continue
        try:
            try:
                shapes, saved = r.kml.shapes(r)
            except Und as x:
                R.und('map', '%s' % x, W_KML)
                continue
        except Und as e:
            R.und('track', '%s: %s' % (lab, e), W_KML)
            continue
        status = [t for t in lg['data_list'] if t.name == 'vehicle_status' and 'nav_state' in t.cols]
        modes = mode_changes(status[0], lg['last_timestamp']) if status else []
        want = []
        for t, c in zip(topics, cols):
            for m, pts in kml_segments(kml_points(t, kw.get('minimum_interval_s', 0.1), kw.get('altitude_offset', 0)), modes):
                want.append((t.name, m, mk('call', c.args[0], (C(m),), ()), pts))
        got = [(k_, p) for k_, at, p in shapes if k_ == 'linestring']
        gotp = [[p for p in pts] for _k, pts in got]
        every = [p for pts in gotp for p in pts]
        if any(not understood(x) for p in every for x in p):
            R.und('track', '%s: coordinates are not understood' % lab, W_KML)
            continue
        # lines without points, and lines of one point, show nothing
        w = [(m, c, pts) for _t, m, c, pts in want if len(pts) > 1]
        g = [(at, pts) for k_, at, pts in shapes if k_ == 'linestring' and len(pts) > 1]
        R.decide(close([x[2] for x in w], [x[1] for x in g]), 'track', '%s: the positions with a fix, in degrees and metres, in order' % lab, W_KML,
                 '%s: %s' % (lab, first_diff([x[2] for x in w], [x[1] for x in g])), 'track')
        if not close([x[2] for x in w], [x[1] for x in g]):
            continue
        colour = [at.get('style.linestyle.color') for at, _p in g]
        R.decide(colour == [x[1] for x in w], 'mode', '%s: every stretch has the colour of its flight mode' % lab, W_KML,
                 '%s: colours of %s instead of %s' % (lab, [show(c, 4) if c is not None else None for c in colour], [x[0] for x in w]), 'mode')
        R.decide(all(at.get('altitudemode') is C('absolute') for at, _p in g), 'altitude', '%s: altitudes are above sea level' % lab, W_KML, '%s: altitudes are not absolute' % lab, 'altitude')
        style = kw.get('style', {})
        R.decide(all(at.get('style.linestyle.width') is C(style.get('line_width', 3)) and (('extrude' in at and truthy(at['extrude'])) == bool(style.get('extrude'))) for at, _p in g),
                 'style', '%s: style' % lab, W_KML, '%s: the lines do not have the given style' % lab, 'style')
        R.decide(len(saved) == 1 and saved[0][0] is C('o.kml') and saved[0][1] == len(shapes) and saved[0][2] == [len(s[2]) for s in shapes], 'saved',
                 '%s: everything is saved under the given name' % lab, W_KML, '%s: the map is not saved as asked' % lab, 'saved')
        loaded = r.ulogs[0][0].get('message_name_filter_list', NONE)
        try:
            names = None if loaded is NONE else pyval(loaded)
        except ValueError:
            names = ()
        R.decide(len(r.ulogs) == 1 and (names is None or set(names) >= {t.name for t in topics} | {'vehicle_status'}), 'loaded', '%s: positions and flight modes are loaded' % lab, W_KML,
                 '%s: it does not load what it shows' % lab, 'loaded')
    gps = position_topic('vehicle_gps_position', [200000], 'int', [3])
    second = position_topic('vehicle_gps_position', [200000], 'int', [3])
    second.multi_id = 2
    for lab, lg in (('no positions', dict(data_list=[nav([1], [1])])), ('another instance only', dict(data_list=[second]))):
        r = go(('kml', lab), lambda: kml_called({}, lg, {}, Kml()))
        if usable(R, 'missing', lab, r, W_KML, fails=True):
            R.ok('missing', '%s: an error, and no file' % lab, W_KML)
            R.decide(not any(x[3] == 'save' for x in r.kml.log), 'missing', '%s: nothing is saved' % lab, W_KML, '%s: a map is saved' % lab, 'missing')
    del gps


def close(a, b):
    """ equal up to the rounding of constants """
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if a is b:
        return True
    p, q = to_poly(a), to_poly(b)
    return set(p) == set(q) and all(abs(p[m] - q[m]) <= abs(p[m]) / 10 ** 12 for m in p)


def truthy(t):
    return is_const(t) and bool(cval(t))


def first_diff(want, got):
    for a, b in zip(want, got):
        if not close(a, b):
            for n, (p, q) in enumerate(zip(a, b)):
                if not close(p, q):
                    return 'point %d is (%s) instead of (%s)' % (n, ', '.join(show(x, 4) for x in q), ', '.join(show(x, 4) for x in p))
            return '%d points instead of %d in a stretch' % (len(b), len(a))
    return '%d stretches instead of %d' % (len(got), len(want))


def kml_called(kw, lg, calls, k):
    it, st = X.lacking('pyulog.ulog2kml', lambda name: False)
    it.callv = calls
    r = X.start_run(it, st, 'pyulog.ulog2kml', 'convert_ulog2kml', ['in.ulg', 'o.kml'], kw, lg, None, None, None, k.ext, k.meth, (), None)
    r.kml = k
    return r


def numbered(t, n):
    if isinstance(n, T):
        return n in list(walk(t))
    return is_const(t) and re.search(r'\b%s\b' % n, str(cval(t))) is not None


@guard
def kml_cameras(R):
    where = 'pyulog/ulog2kml.py: _kml_add_camera_triggers'
    gps = position_topic('vehicle_gps_position', [200000, 900000], 'int', [3, 3])
    for lab, names, off in (('triggers', ('lat', 'lon', 'alt'), 0), ('newer triggers', ('latitude_deg', 'longitude_deg', 'altitude_msl_m'), 10), ('known triggers', ('lat', 'lon', 'alt'), 10),
                            ('known triggers, lowered', ('lat', 'lon', 'alt'), -7), ('counted triggers', ('lat', 'lon', 'alt'), 3)):
        f = [TS, ('uint32_t', 'seq')] + [('double', n) for n in names]
        cam = Topic('camera_capture', f, [5, 6, 7], cols={'lat': [0.0, 1.5, 1.5], 'lon': [0.0, 0.0, 0.0], 'alt': [0.0, -3.0, 100.5], 'seq': [0, 1, 1]} if 'known' in lab else {'seq': [7, 3, 7]} if 'counted' in lab else {})
        cam2 = Topic('camera_capture', f, [5, 6], multi_id=1)
        kw = {'camera_trigger_topic_name': 'camera_capture', 'altitude_offset': off}
        r = go(('kml', lab), lambda: kml_called(kw, dict(data_list=[cam2, gps, cam]), {}, Kml()))
        R.saw('scenarios', lab)
        if not usable(R, 'cameras', lab, r, where):
            continue
        try:
            shapes, _saved = r.kml.shapes(r)
        except Und as x:
            R.und('map', '%s' % x, W_KML)
            continue
        pts = [(at, p) for k, at, p in shapes if k == 'point']
        alt = lambda x: add(x, C(off)) if off else x
        val = lambda x: x if isinstance(x, T) else C(x)
        want = [[(val(cam.cols[names[1]][i]), val(cam.cols[names[0]][i]), alt(val(cam.cols[names[2]][i])))] for i in range(3)]
        R.decide(close([p for _a, p in pts], want) if all(understood(x) for _a, p in pts for q in p for x in q) else None, 'cameras', '%s: a point for each trigger' % lab, where,
                 '%s: %s' % (lab, first_diff(want, [p for _a, p in pts])), 'cameras')
        if len(pts) == 3:
            R.decide(all(numbered(pts[i][0].get('name', NONE), cam.cols['seq'][i]) for i in range(3)), 'cameras', '%s: named by sequence number' % lab, where,
                     '%s: the points do not have the numbers of their triggers' % lab, 'cameras.name')
        loaded = r.ulogs[0][0].get('message_name_filter_list', NONE)
        R.decide(loaded is NONE or 'camera_capture' in pyval(loaded), 'cameras', '%s: triggers are loaded' % lab, where, '%s: triggers are not loaded' % lab, 'cameras.loaded')
    r = go(('kml', 'no triggers'), lambda: kml_called({'camera_trigger_topic_name': 'camera_capture'}, dict(data_list=[gps]), {}, Kml()))
    if usable(R, 'cameras', 'a log without triggers', r, where):
        try:
            shapes, _saved = r.kml.shapes(r)
        except Und as x:
            R.und('map', '%s' % x, W_KML)
            return
        R.decide(not any(k == 'point' for k, _a, _p in shapes), 'cameras', 'a log without triggers has no points', where, 'points without triggers', 'cameras.none')


@guard
def kml_colors(R):
    where = 'pyulog/ulog2kml.py: _kml_default_colors'
    seen, bad, und = {}, [], []
    for x in list(range(-130, 300)) + [65535, 2 ** 31 - 1, -2 ** 31]:
        r = tool_run('pyulog.ulog2kml', '_kml_default_colors', [x])
        R.saw('flight modes')
        if r.raised:
            bad.append(x)
        elif r.ret.op == 'ext' and str(r.ret.args[0]).startswith('simplekml.Color.') or is_const(r.ret):
            seen[x] = r.ret
        else:
            und.append(x)
    if und:
        R.und('colors', 'the colour of flight mode %d is not understood' % und[0], where)
    R.decide(not bad, 'colors', 'every flight mode has a colour', where, 'flight mode %s has no colour: it fails' % bad[:1], 'colors')
    if seen and not und and not bad:
        known = [seen[m] for m in range(18)]
        R.decide(len(set(known)) == 18, 'colors', 'the flight modes in use have colours of their own', where, 'two of the flight modes 0 to 17 have the same colour', 'colors.distinct')


# ---------------------------------------------------------------- ROS 2 bags

W_BAG = 'pyulog/ulog2ros2bag.py: convert_ulog2ros2bag'
ROS = {
    'VehicleStatus': [('timestamp', 'uint64'), ('nav_state', 'uint8'), ('armed', 'boolean'), ('count', 'int8'), ('mode', 'char'), ('flags', 'boolean[3]'), ('q', 'float[2]'), ('offset', 'int8[2]'),
                      ('extra', 'float')],
    'SensorGyro': [('timestamp', 'uint64'), ('x', 'float'), ('y', 'double')],
    'SensorGps': [('timestamp', 'uint64'), ('lat', 'int32')],
    'BatteryStatus': [('timestamp', 'uint64'), ('v', 'float')],
    'EscStatus': [('timestamp', 'uint64'), ('esc', 'px4_msgs/EscReport[2]')],
    'Odd': [('timestamp', 'uint64'), ('a', 'float')],
    'VehicleAttitude': [('timestamp', 'uint64'), ('q', 'float[4]')],
    'EstimatorInnovations': [('timestamp', 'uint64'), ('v', 'float')],
    'Wind': [('timestamp', 'uint64'), ('speed', 'float')],
    'DebugArray': [('timestamp', 'uint64'), ('data', 'float[58]'), ('on', 'boolean[11]'), ('data2', 'float')],
    'EstimatorWind': [('timestamp', 'uint64'), ('speed', 'float')],
}


class Bag:
    """ stands in for the ROS 2 libraries """

    def __init__(self, version, ros=None):
        self.version, self.log, self.ros, self.asked = version, [], ros or ROS, []

    def ext(self, r, host, path, a, k, st):
        it = host.it
        if path in ('builtins.hasattr', 'builtins.getattr') and a and a[0] is mk('ext', 'px4_msgs.msg') and is_const(a[1]):
            have = cval(a[1]) in self.ros
            if path.endswith('hasattr'):
                return C(have)
            if have:
                return mk('ext', 'px4_msgs.msg.%s' % cval(a[1]))
            if len(a) > 2:
                return a[2]
            it.raise_(st, 'AttributeError', None)
            return NONE
        if path.startswith('px4_msgs.msg.'):
            parts = path.split('.')
            fields = self.ros.get(parts[2])
            if fields is None:
                it.raise_(st, 'AttributeError', None)
                return NONE
            host.st = st
            if len(parts) == 3 and not a and not k:
                vals = {}
                for n, t in fields:
                    m = re.search(r'\[(\d+)\]$', t)
                    vals[n] = [0] * int(m.group(1)) if m else 0
                return host.lift(Obj(None, **vals))
            if len(parts) == 4 and parts[3] == 'get_fields_and_field_types':
                return host.lift(dict(fields))
        if path == 'importlib.metadata.version':
            if not (len(a) == 1 and is_const(a[0]) and str(cval(a[0])).replace('-', '_').lower() in ('rosbag2_py',)):
                it.raise_(st, 'PackageNotFoundError', None)
                return NONE
            return C(self.version)
        if path == 'rosbag2_py.SequentialWriter':
            return mk('stub', 'writer')
        if path.endswith('.serialize_message') and len(a) == 1:
            return mk('call', 'serialize', (it.freeze(st, a[0], 6),), ())
        return None

    def meth(self, r, host, recv, name, a, k, st):
        if name in ('item', 'tolist') and not a and (recv.op == 'sym' and str(recv.args[0]).startswith('~') or is_const(recv)):
            return mk('call', 'item', (recv,), ())
        if recv.op == 'stub' and recv.args[0] == 'writer':
            fz = host.it.freeze
            self.log.append((name, [fz(st, x, 6) for x in a], {n: fz(st, x, 6) for n, x in k.items()}, st.pc, host.it.loops))
            return NONE
        return None


def bag_topics():
    vs = Topic('vehicle_status', [('uint8_t', 'nav_state'), TS, ('bool', 'armed'), ('int8_t', 'count'), ('char', 'mode'), ('bool', 'flags[0]'), ('bool', 'flags[1]'), ('bool', 'flags[2]'),
                                  ('float', 'q[0]'), ('float', 'q[1]'), ('int8_t', 'offset[0]'), ('int8_t', 'offset[1]')], [1000, 300000, 9007199254740993])
    g0, g1 = (Topic('sensor_gyro', [TS, ('float', 'x'), ('double', 'y')], t, multi_id=m) for t, m in (([5, 6], 0), ([5], 1)))
    b1 = Topic('battery_status', [TS, ('float', 'v')], [7, 8], multi_id=1)
    gps = Topic('vehicle_gps_position', [TS, ('int32_t', 'lat')], [9])
    unknown = Topic('foo_bar', [TS, ('float', 'x')], [1, 2])
    esc = Topic('esc_status', [TS, ('float', 'esc[0].rpm'), ('float', 'esc[1].rpm')], [1])
    odd = Topic('odd', [TS, ('float', 'a'), ('float', 'b')], [1])
    missing = Topic('vehicle_odometry', [TS], [1])
    att = Topic('estimator_attitude', [TS] + [('float', 'q[%d]' % i) for i in range(4)], [4], multi_id=0)
    att2 = Topic('estimator_attitude', [TS] + [('float', 'q[%d]' % i) for i in range(4)], [], multi_id=2)
    inn = Topic('estimator_innovation_test_ratios', [TS, ('float', 'v')], [3])
    wind = Topic('estimator_wind', [TS, ('float', 'speed')], [3])
    arr = Topic('debug_array', [TS] + [('float', 'data[%d]' % i) for i in range(58)] + [('bool', 'on[%d]' % i) for i in range(11)] + [('float', 'data2')], [3, 3])
    return [g1, vs, unknown, esc, g0, odd, b1, gps, missing, att, att2, inn, wind, arr]


TYPES = {'vehicle_status': 'VehicleStatus', 'sensor_gyro': 'SensorGyro', 'battery_status': 'BatteryStatus', 'vehicle_gps_position': 'SensorGps', 'estimator_attitude': 'VehicleAttitude',
         'estimator_innovation_test_ratios': 'EstimatorInnovations', 'estimator_wind': 'EstimatorWind', 'debug_array': 'DebugArray'}


# the message types of topics, as the definitions of PX4 declare them
UORB = {
    'ActuatorControlsStatus': 'actuator_controls_status_0 actuator_controls_status_1', 'ActuatorOutputs': 'actuator_outputs actuator_outputs_sim actuator_outputs_debug',
    'ConfigOverrides': 'config_overrides config_overrides_request',
    'EstimatorAidSource1d': 'estimator_aid_src_baro_hgt estimator_aid_src_ev_hgt estimator_aid_src_gnss_hgt estimator_aid_src_rng_hgt estimator_aid_src_airspeed '
                            'estimator_aid_src_sideslip estimator_aid_src_fake_hgt estimator_aid_src_gnss_yaw estimator_aid_src_ev_yaw',
    'EstimatorAidSource2d': 'estimator_aid_src_ev_pos estimator_aid_src_fake_pos estimator_aid_src_gnss_pos estimator_aid_src_aux_global_position estimator_aid_src_aux_vel '
                            'estimator_aid_src_optical_flow estimator_aid_src_drag',
    'EstimatorAidSource3d': 'estimator_aid_src_ev_vel estimator_aid_src_gnss_vel estimator_aid_src_gravity estimator_aid_src_mag',
    'EstimatorBias3d': 'estimator_ev_pos_bias', 'EstimatorBias': 'estimator_baro_bias estimator_gnss_hgt_bias',
    'EstimatorInnovations': 'estimator_innovations estimator_innovation_variances estimator_innovation_test_ratios', 'Px4ioStatus': 'px4io_status', 'SensorGps': 'sensor_gps vehicle_gps_position',
    'SensorsStatus': 'sensors_status_baro sensors_status_mag', 'SensorsStatusImu': 'sensors_status_imu', 'VehicleAngularVelocity': 'vehicle_angular_velocity vehicle_angular_velocity_groundtruth',
    'VehicleAttitude': 'vehicle_attitude vehicle_attitude_groundtruth external_ins_attitude estimator_attitude',
    'VehicleAttitudeSetpoint': 'vehicle_attitude_setpoint mc_virtual_attitude_setpoint fw_virtual_attitude_setpoint', 'VehicleCommand': 'vehicle_command gimbal_v1_command vehicle_command_mode_executor',
    'VehicleCommandAck': 'vehicle_command_ack', 'VehicleControlMode': 'vehicle_control_mode config_control_setpoints',
    'VehicleGlobalPosition': 'vehicle_global_position vehicle_global_position_groundtruth external_ins_global_position estimator_global_position',
    'VehicleLocalPosition': 'vehicle_local_position vehicle_local_position_groundtruth external_ins_local_position estimator_local_position',
    'VehicleLocalPositionSetpoint': 'vehicle_local_position_setpoint', 'VehicleOdometry': 'vehicle_odometry vehicle_mocap_odometry vehicle_visual_odometry estimator_odometry',
    'VehicleOpticalFlow': 'vehicle_optical_flow', 'VehicleOpticalFlowVel': 'estimator_optical_flow_vel vehicle_optical_flow_vel',
    'VehicleThrustSetpoint': 'vehicle_thrust_setpoint vehicle_thrust_setpoint_virtual_fw vehicle_thrust_setpoint_virtual_mc',
    'VehicleTorqueSetpoint': 'vehicle_torque_setpoint vehicle_torque_setpoint_virtual_fw vehicle_torque_setpoint_virtual_mc', 'Wind': 'wind estimator_wind',
    'BatteryStatus': 'battery_status', 'Cpuload': 'cpuload', 'SensorGyroFft': 'sensor_gyro_fft', 'VehicleStatusFlags': 'vehicle_status_flags', 'Ekf2Timestamps': 'ekf2_timestamps'}
UNKNOWN_TOPICS = 'estimator actuator px4ioa_status sensor wind_estimate estimator_aid_src_ estimator_aid_src_maggy px4io_status_flags vehicle_gps_position_raw wind_x my_wind ' \
    'estimator_aid_src_mag_x estimator_aid_src_drag_x estimator_aid_src_airspeed_x actuator_controls_status_0_x attitude vehicle_attitude_x vehicle_attitude_setpoint_x ' \
    'vehicle_global_position_x my_global_position vehicle_local_position_x odometry vehicle_odometry_x vehicle_optical_flow_vel_x my_optical_flow_vel x_px4io_status ' \
    'x_vehicle_gps_position x_sensors_status_y x_vehicle_angular_velocity x_actuator_outputs x_config_overrides command ' \
    'actuator_controls_status_10 control_x x_estimator_innovation x_vehicle_thrust_setpoint x_estimator_ev_pos_bias estimator_ev_hgt_bias local_position ' \
    'attitude_groundtruth estimator_aid_src_hgt estimator_aid_src_pos estimator_aid_src_vel aux_local_pos'


@guard
def bag_types(R):
    """ every topic is written with the message type that PX4 declares for it """
    ros = {t: [('timestamp', 'uint64')] for t in UORB}
    for t, names in UORB.items():
        topics = [Topic(n, [TS], [7]) for n in names.split()]
        b = Bag('0.15.9', ros)
        r = go(('bagtypes', t), lambda: bag_of(['in.ulg', None, False, None], topics, b))
        for n in names.split():
            R.saw('topics', n)
        if not usable(R, 'types', t, r, W_BAG):
            continue
        meta_of(R, r, sorted(('/px4/%s' % n, 'px4_msgs/msg/%s' % t) for n in names.split()), t)
    r = go(('bagtypes', None), lambda: bag_of(['in.ulg', None, False, None], [Topic(n, [TS], [7]) for n in UNKNOWN_TOPICS.split()], Bag('0.15.9', ros)))
    if usable(R, 'types', 'unknown topics', r, W_BAG):
        meta_of(R, r, [], 'unknown topics')


def meta_of(R, r, want, lab):
    if any(x[3] or x[4] for x in r.bag.log):
        R.und('types', '%s: what is written depends on conditions that are not settled' % lab, W_BAG)
        return
    ms = [dict(x[1][0].args[2]) if x[1] and x[1][0].op == 'call' and x[1][0].args[0] == 'rosbag2_py.TopicMetadata' else {} for x in r.bag.log if x[0] == 'create_topic']
    if not all(is_const(m.get(k, mk('undef'))) for m in ms for k in ('name', 'type')):
        R.und('types', '%s: the topics are not understood' % lab, W_BAG)
        return
    got = sorted((cval(m['name']), cval(m['type'])) for m in ms)
    R.decide(got == want, 'types', '%s: written with this type' % lab, W_BAG, '%s: written as %s instead of %s' % (lab, [x for x in got if x not in want][:2] or 'nothing', [x for x in want if x not in got][:2]), 'types')


def bag_of(args, topics, b):
    r = tool_run('pyulog.ulog2ros2bag', 'convert_ulog2ros2bag', args, log=dict(data_list=topics), ext=b.ext, meth=b.meth)
    r.bag = b
    return r


def bag_run(args, topics, version='0.15.9'):
    b = Bag(version)
    assume = {}
    for t in topics:
        for ty, f in t.fields:
            for v in t.cols[f]:
                if isinstance(v, T):
                    for n in NPCHARS:
                        assume[eq(mk('attr', v, 'dtype'), mk('ext', 'numpy.' + n))] = C(NPTYPES[ty] == n)
    r = tool_run('pyulog.ulog2ros2bag', 'convert_ulog2ros2bag', args, log=dict(data_list=topics), ext=b.ext, meth=b.meth, assume=assume)
    r.bag = b
    return r


def bag_value(v, ty, ros):
    """ the forms of a value that are right """
    if not isinstance(v, T):
        v = C(v)
    if ros.startswith('boolean') and ty in ('int8_t', 'bool', 'char'):
        return (mk('truthy', v),)
    return (mk('call', 'item', (v,), ()), mk('float' if ty in ('float', 'double') else 'int', v)) + ((v,) if is_const(v) else ())


def on_samples(g, v, ty, logical):
    """ whether a value made of v is v, for the extreme and some ordinary values of its type """
    if g is None or not isinstance(v, T) or is_const(v):
        return None
    for s in samples(ty) + ([2, -1, 127, -128] if ty == 'bool' else []):  # kept as int8
        try:
            x = numeval(g, {v: s, mk('call', 'item', (v,), ()): s, mk('float', v): s})
        except (KeyError, TypeError, OverflowError, ZeroDivisionError, ValueError):
            return None
        w = bool(s) if logical else s
        if x != w and not (x != x and w != w) or logical and type(x) is not bool:
            return False
    return True


@guard
def bag_messages(R):
    topics = bag_topics()
    for lab, args, tp in (('all', ['d/in.ulg', None, False, None], topics), ('chosen messages', ['in.ulg', 'out', True, 'sensor_gyro,vehicle_status'], topics), ('no data', ['x.ulg.ulg', None, True, None], []),
                          ('one topic', ['log.bin', '', False, ''], topics[6:7]), ('verbose', ['in.ulg', 'out', False, None, True, True], topics)):
        verbose = len(args) > 5
        r = go(('bag', lab), lambda: bag_run(args, tp))
        R.saw('scenarios', lab)
        if verbose:
            r.problems = [p for p in r.problems if ': print ' not in p]
        if not usable(R, 'bag', lab, r, W_BAG):
            continue
        log = r.bag.log
        if any(x[3] or x[4] for x in log):
            R.und('bag', '%s: what is written depends on conditions that are not settled: %s' % (lab, show([x for x in log if x[3] or x[4]][0][3], 4)[:200]), W_BAG)
            continue
        chosen = args[3].split(',') if args[3] else None
        used = [t for t in tp if (chosen is None or t.name in chosen)]
        want = [t for t in used if t.name in TYPES]
        names = [x[0] for x in log]
        if set(names) - {'open', 'create_topic', 'write', 'close'}:
            R.und('bag', '%s: the bag is written by unknown operations' % lab, W_BAG)
            continue
        R.decide(names[:1] == ['open'] and names[-1:] == ['close'] and names.count('open') == names.count('close') == 1, 'open', '%s: the bag is opened, then written, then closed' % lab, W_BAG,
                 '%s: the bag is not opened before and closed after' % lab, 'open')
        name = args[1] or {'d/in.ulg': 'rosbag_in', 'in.ulg': 'rosbag_in', 'x.ulg.ulg': 'rosbag_x.ulg', 'log.bin': 'rosbag_log.bin'}[args[0]]
        opts = [dict(x.args[2]) for a in log[0][1] + list(log[0][2].values()) for x in walk(a) if x.op == 'call' and x.args[0] == 'rosbag2_py.StorageOptions']
        R.decide(len(opts) == 1 and opts[0].get('uri') is C(name) and opts[0].get('storage_id') is C('mcap' if args[2] else 'sqlite3') if len(opts) == 1 else None, 'name',
                 '%s: it has the name and the format asked for' % lab, W_BAG, '%s: it is written as %s' % (lab, opts), 'name')
        conv = [x for a in log[0][1] + list(log[0][2].values()) for x in walk(a) if x.op == 'call' and x.args[0] == 'rosbag2_py.ConverterOptions']
        cdr = lambda v: v is C('cdr') if v is not None and is_const(v) else None
        if len(conv) == 1:
            cv = list(conv[0].args[1]) + [None, None]
            kv = dict(conv[0].args[2])
            oks = [cdr(kv.get(n, cv[j])) for j, n in enumerate(('input_serialization_format', 'output_serialization_format'))]
            R.decide(False if False in oks else (True if None not in oks else None), 'serialization', '%s: the bag is opened for CDR data' % lab, W_BAG, '%s: the bag is not opened for CDR data' % lab, 'serialization')
        at0 = [n for n, a in enumerate(log[0][1]) if a.op == 'call' and a.args[0] == 'rosbag2_py.StorageOptions']
        R.decide(at0 in ([0], []), 'open', '%s: the storage options come first' % lab, W_BAG, '%s: the arguments of open() are swapped' % lab, 'open.arguments')
        created, got, early = [], {}, False
        for nm, a, k, _pc, _l in log:
            if nm == 'create_topic':
                m = dict(a[0].args[2]) if a and a[0].op == 'call' and a[0].args[0] == 'rosbag2_py.TopicMetadata' else {}
                created.append((m.get('name'), m.get('type')))
                ok = cdr(m.get('serialization_format'))
                if ok is not True:
                    R.decide(False if m and (ok is False or 'serialization_format' not in m and len(a[0].args[1]) < 3) else None, 'serialization', '%s: messages are CDR data' % lab, W_BAG,
                             '%s: the messages are not registered as CDR data' % lab, 'serialization.topic')
            elif nm == 'write':
                early = early or a[0] not in [x[0] for x in created]
                got.setdefault(a[0], []).append((a[1], a[2]))
        multi = {}
        for t in used:
            multi.setdefault(t.name, set()).add(t.multi_id)
        path = {t: '/px4/%s' % t.name if multi[t.name] == {0} else '/px4/%s_%d' % (t.name, t.multi_id) for t in want}
        if any(x is None or not is_const(x) for c in created for x in c):
            R.und('topics', '%s: the topics are not understood' % lab, W_BAG)
            continue
        cr = [(cval(a), cval(b)) for a, b in created]
        wc = [(path[t], 'px4_msgs/msg/%s' % TYPES[t.name]) for t in want]
        R.decide(sorted(cr) == sorted(wc), 'topics', '%s: a topic per topic and instance that has a message type' % lab, W_BAG,
                 '%s: topics %s instead of %s' % (lab, sorted(set(cr) - set(wc))[:3] or 'are missing,', sorted(set(wc) - set(cr))[:3]), 'topics')
        R.decide(not early, 'topics', '%s: topics are registered before they are used' % lab, W_BAG, '%s: a message of a topic that is not registered' % lab, 'topics.early')
        if sorted(cr) != sorted(wc):
            continue
        R.decide(set(got) == {C(path[t]) for t in want if t.times}, 'messages', '%s: messages of these topics' % lab, W_BAG, '%s: messages of other topics' % lab, 'messages.topics')
        bad, und = None, None
        for t in want:
            ms = got.get(C(path[t]), [])
            if [m[1] for m in ms] != [C(x * 1000) for x in t.times]:
                if all(is_const(m[1]) for m in ms):
                    bad = bad or '%s has messages at %s instead of %s ns' % (t.name, [cval(m[1]) for m in ms], [x * 1000 for x in t.times])
                else:
                    und = und or 'the times of %s' % t.name
                continue
            types = dict(ROS[TYPES[t.name]])
            for i, (m, _t) in enumerate(ms):
                s = m.args[1][0] if m.op == 'call' and m.args[0] == 'serialize' else None
                if s is None or s.op != 'inst':
                    und = und or 'the messages of %s' % t.name
                    break
                at = dict(s.args[1])
                for ty, f in t.fields:
                    mm = re.match(r'(.*)\[(\d+)\]$', f)
                    g = at.get(mm.group(1) if mm else f)
                    if mm and g is not None and g.op == 'list' and int(mm.group(2)) < len(g.args):
                        g = g.args[int(mm.group(2))]
                        g = g.args[0] if g.op == 'p_item' else None
                    w = bag_value(t.cols[f][i], ty, types[mm.group(1) if mm else f])
                    if g in w:
                        continue
                    sv = on_samples(g, t.cols[f][i], ty, w[0].op == 'truthy')
                    if sv is True:
                        continue
                    if sv is None and g is not None and (g.op in ('list', 'p_set') or any(x.op in ('ite', 'mcall', 'attr') for x in walk(g))):
                        und = und or '%s of %s' % (f, t.name)
                    else:
                        bad = bad or '%s of %s is %s instead of %s' % (f, t.name, show(g, 4) if g is not None else 'not set', show(w[0], 4))
        R.decide(bad is None if und is None else None, 'messages', '%s: every message has the values and the time of its sample' % lab, W_BAG, '%s: %s' % (lab, bad), 'messages')
        for t in used:
            if t.name not in TYPES and not verbose:
                R.decide(r.out.op == 'const' and re.search(r'\b%s\b' % t.name, cval(r.out)) is not None if r.out.op == 'const' else None, 'skipped', '%s: %s is reported as left out' % (lab, t.name), W_BAG,
                         '%s: %s is left out silently' % (lab, t.name), 'skipped')
        if r.out.op == 'const' and not verbose:
            last = [x for x in cval(r.out).splitlines() if x.strip()][-1:]
            nums = re.findall(r'\b\d+\b', last[0].replace(name, '')) if last else []
            R.decide(nums == [str(len(want)), str(sum(len(t.times) for t in want))], 'count', '%s: the numbers of topics and messages that were written' % lab, W_BAG,
                     '%s: it reports %s instead of %d topics and %d messages' % (lab, nums, len(want), sum(len(t.times) for t in want)), 'count')


@guard
def bag_versions(R):
    topics = [Topic('battery_status', [TS, ('float', 'v')], [7])]
    for v, ident, seq in (('0.15.9', False, False), ('0.9.1', False, False), ('0.24.3', False, False), ('0.25.0', True, False), ('0.26.7', True, False), ('0.31.9', True, False), ('0.32.0', True, True),
                          ('0.33.1', True, True), ('0.100.0', True, True), ('1.0.0', True, True), ('1.2.3', True, True), ('0.3.9', False, False)):
        r = go(('bagv', v), lambda: bag_run(['in.ulg', None, False, None], topics, v))
        R.saw('versions', v)
        if not usable(R, 'version', 'rosbag2_py %s' % v, r, W_BAG):
            continue
        if any(x[3] or x[4] for x in r.bag.log):
            R.und('version', 'rosbag2_py %s: what is written is not understood' % v, W_BAG)
            continue
        w = [x for x in r.bag.log if x[0] == 'write']
        R.decide(len(w) == 1 and len(w[0][1]) + len(w[0][2]) == (4 if seq else 3), 'version', 'rosbag2_py %s: write() is called as it has to be' % v, W_BAG,
                 'rosbag2_py %s: write() is called with %s arguments' % (v, [len(x[1]) for x in w]), 'version.write')
        c = [x[1][0] for x in r.bag.log if x[0] == 'create_topic']
        kws = [dict(x.args[2]) for x in c if x.op == 'call']
        have = [(k.get('name'), k.get('type'), k.get('serialization_format')) for k in kws]
        wh = [(C('/px4/battery_status'), C('px4_msgs/msg/BatteryStatus'), C('cdr'))]
        R.decide(have == wh if have == wh or all(x is not None and is_const(x) for h in have for x in h) or all(len(x.args[1]) <= 1 for x in c if x.op == 'call') else None, 'version', 'rosbag2_py %s: the topic is registered' % v, W_BAG,
                 'rosbag2_py %s: the topic is registered as %s' % (v, [[show(x) if x else 'nothing' for x in h] for h in have]), 'version.topic')
        got = [len(x.args[1]) == 1 or 'id' in dict(x.args[2]) if x.op == 'call' else None for x in c]
        R.decide(got == [ident] if None not in got else None, 'version', 'rosbag2_py %s: TopicMetadata is made as it has to be' % v, W_BAG,
                 'rosbag2_py %s: TopicMetadata is made %s an id' % (v, 'without' if ident else 'with'), 'version.id')


# ---------------------------------------------------------------- PX4 helpers

def px4_run(method, args, log, kw=None):
    def make(host, r):
        it, st = host.it, host.st
        from .engine import Frame, Func
        import ast
        mod = 'pyulog.px4'
        it.load_module(mod)
        cls = it.resolve(mod, 'PX4ULog', st)
        fr = Frame(Func('<q>', '<q>', ast.parse('pass').body[0], mod, (), None, [], {}, 'func'), 'q', (), mod)
        it.frames.append(fr)
        o = it.instantiate(cls, [r.ulog], {}, ast.parse('0').body[0].value, st, fr)
        it.frames.pop()
        return o
    return X.tool_run_self('pyulog.px4', 'PX4ULog.' + method, make, args, kw, log=log, selfonly=True)


W_RPY = 'pyulog/px4.py: PX4ULog._add_roll_pitch_yaw_to_message'


def on_sphere(t, q):
    """ the polynomial t, with q0^2 replaced by 1 - q1^2 - q2^2 - q3^2 """
    from fractions import Fraction
    todo, out = list(to_poly(t).items()), {}
    while todo:
        m, c = todo.pop()
        n = sum(1 for x in m if x is q[0])
        if n >= 2:
            rest, left = [], 2
            for x in m:
                if x is q[0] and left:
                    left -= 1
                else:
                    rest.append(x)
            todo.append((tuple(rest), c))
            for k in (1, 2, 3):
                todo.append((tuple(rest) + (q[k], q[k]), -c))
            continue
        m = tuple(sorted(m, key=lambda x: x.nid))
        out[m] = out.get(m, Fraction(0)) + c
    return {m: c for m, c in out.items() if c}


def scaled_poly(p, k):
    return {m: c * k for m, c in p.items()}


def only_of(t, q):
    return all(x in q for m in to_poly(t) for x in m)


def angle_ok(t, want, q):
    """ t is the angle want = ('atan2', y, x) or ('asin', s): True, False, None (not understood), or 'range' """
    if want[0] == 'atan2':
        if not (t.op == 'call' and t.args[0] in ('numpy.arctan2', 'math.atan2') and len(t.args[1]) == 2):
            return None
        if not all(only_of(x, q) for x in t.args[1]):
            return None
        y, x = (on_sphere(v, q) for v in t.args[1])
        wy, wx = (on_sphere(v, q) for v in want[1:])
        if set(y) != set(wy) or set(x) != set(wx) or not wy:
            return False
        m = next(iter(wy))
        k = y[m] / wy[m]
        return k > 0 and y == scaled_poly(wy, k) and x == scaled_poly(wx, k)
    if not (t.op == 'call' and t.args[0] in ('numpy.arcsin', 'math.asin') and len(t.args[1]) == 1):
        return None
    s, inside = t.args[1][0], False
    if s.op == 'call' and s.args[0] == 'numpy.clip':
        b = dict(s.args[2])
        lo, hi = [s.args[1][n] if len(s.args[1]) > n else b.get(x) for n, x in ((1, 'a_min'), (2, 'a_max'))]
        lo, hi = lo if lo is not None else b.get('min'), hi if hi is not None else b.get('max')
        if lo is not None and hi is not None and is_num(lo) and is_num(hi):
            if not (cval(lo) >= -1 and cval(hi) <= 1):
                return 'range'
            if cval(lo) > -1 or cval(hi) < 1:
                return False
            inside = True
        s = s.args[1][0]
    bounds = set()
    while s.op == 'call' and s.args[0] in ('numpy.minimum', 'numpy.maximum') and len(s.args[1]) == 2:
        num = [x for x in s.args[1] if is_num(x)]
        if len(num) != 1:
            return None
        bounds.add((s.args[0], cval(num[0])))
        s = [x for x in s.args[1] if not is_num(x)][0]
    if bounds == {('numpy.minimum', 1), ('numpy.maximum', -1)}:
        inside = True
    elif bounds:
        return None
    if not only_of(s, q):
        return None
    if on_sphere(s, q) != on_sphere(want[1], q):
        return False
    return True if inside else 'range'


def attitudes():
    """ unit quaternions: all turns by multiples of 30 degrees, and unnormalised ones straight up and down """
    import math
    out = []
    for y in range(-180, 180, 30):
        for p in range(-75, 90, 30):
            for r in range(-170, 180, 40):
                c, s = zip(*[(math.cos(math.radians(v) / 2), math.sin(math.radians(v) / 2)) for v in (r, p, y)])
                out.append((c[0] * c[1] * c[2] + s[0] * s[1] * s[2], s[0] * c[1] * c[2] - c[0] * s[1] * s[2],
                            c[0] * s[1] * c[2] + s[0] * c[1] * s[2], c[0] * c[1] * s[2] - s[0] * s[1] * c[2]))
    # very small angles
    for k in range(3):
        for a in (1e-5, -3e-5):
            out.append(tuple([math.cos(a)] + [math.sin(a) if i == k else 0. for i in range(3)]))
    h = math.sqrt(.5)
    return out, [(h, 0., h, 0.), (h, 0., -h, 0.), (h * 1.0000001, 0., h * 1.0000001, 0.), (h * 1.0000001, 0., -h * 1.0000001, 0.), (.5, .5, .5, -.5), (.5000001, .5000001, .5000001, -.5000001)]


ATTITUDES = attitudes()


def angle_value(t, env):
    """ the value of a term for known elements of the quaternion; ValueError if it is not known what it does """
    import math
    if t in env:
        return env[t]
    if is_num(t):
        return cval(t)
    f = lambda x: angle_value(x, env)
    if t.op == 'poly':
        return float(sum(float(c) * math.prod(f(x) for x in m) for m, c in to_poly(t).items()))
    if t.op == 'div':
        a, b = f(t.args[0]), f(t.args[1])
        return a / b if b else (math.copysign(math.inf, a) * math.copysign(1, b) if a else math.nan)
    if t.op == 'call' and not (dict(t.args[2]) and t.args[0] not in ('numpy.clip', 'numpy.round', 'numpy.around')):
        n = str(t.args[0]).split('.')[-1]
        a = [f(x) for x in t.args[1]]
        k = {x: f(y) for x, y in dict(t.args[2]).items()}
        try:
            if n in ('arctan2', 'atan2'):
                return math.atan2(*a)
            if n in ('arctan', 'atan'):
                return math.atan(*a)
            if n in ('arcsin', 'asin', 'arccos', 'acos'):
                return (math.asin if 'sin' in n else math.acos)(*a) if -1 <= a[0] <= 1 else math.nan
            if n in ('sin', 'cos', 'tan', 'sqrt', 'radians', 'degrees', 'deg2rad', 'rad2deg', 'fabs', 'absolute', 'abs'):
                return getattr(math, {'deg2rad': 'radians', 'rad2deg': 'degrees', 'absolute': 'fabs', 'abs': 'fabs'}.get(n, n))(*a)
            if n in ('minimum', 'fmin', 'maximum', 'fmax'):
                return (min if 'min' in n else max)(*a)
            if n == 'sign':
                return float((a[0] > 0) - (a[0] < 0))
            if n == 'copysign':
                return math.copysign(*a)
            if n == 'hypot':
                return math.hypot(*a)
            if n in ('round', 'around', 'round_'):
                return float(round(a[0], int((a + [k.get('decimals', 0)])[1])))
            if n in ('rint', 'floor', 'ceil', 'trunc', 'fix'):
                return float({'rint': round, 'floor': math.floor, 'ceil': math.ceil}.get(n, math.trunc)(a[0]))
            if n == 'nan_to_num':
                return 0. if math.isnan(a[0]) else a[0]
            if n == 'float16':
                import struct
                return struct.unpack('<e', struct.pack('<e', a[0]))[0]
            if n == 'clip':
                lo, hi = [a[i] if len(a) > i else k.get(x, k.get(y)) for i, x, y in ((1, 'a_min', 'min'), (2, 'a_max', 'max'))]
                return max(lo, min(hi, a[0]))
        except (TypeError, ZeroDivisionError, OverflowError):
            pass
    if t.op == 'abs':
        return abs(f(t.args[0]))
    if t.op == 'ite':
        c = t.args[0]
        if c.op == 'lt':
            return f(t.args[1]) if f(c.args[0]) < f(c.args[1]) else f(t.args[2])
    raise ValueError(t.op)


def on_grid(t, want, q, ok):
    """ t compared with the angle at known attitudes: False at the first difference, True, 'range' or, if t is not understood, ok """
    import math
    nice, edge = ATTITUDES
    try:
        for e in nice:
            env = dict(zip(q, e))
            w = [angle_value(x, env) for x in want[1:]]
            w = math.atan2(*w) if want[0] == 'atan2' else math.asin(max(-1., min(1., w[0])))
            g = angle_value(t, env)
            d = (g - w + math.pi) % (2 * math.pi) - math.pi if want[0] == 'atan2' else g - w
            if not abs(d) < 1e-6 or abs(g) > math.pi + 1e-6:
                return False
        for e in edge:
            if want[0] == 'asin' and math.isnan(angle_value(t, dict(zip(q, e)))):
                return 'range'
    except ValueError:
        return ok
    return True


def arrays_kept(R, r, topics, lab):
    """ the logged samples are not changed in place """
    for t in topics:
        d = r.st.cells.get(('D', r.st.cells.get(('A', r.host.made.get(id(t)), 'data'))), ())
        for p in d:
            if p[0] == 'item' and is_const(p[1]) and cval(p[1]) in t.cols:
                for e in r.changed:
                    if e.args[0] is p[2] and p[2].args:
                        R.bad('others', '%s: the logged samples of %s are changed in place' % (lab, t.name), e.where, 'others.inplace')
                        return
    R.ok('others', '%s: no logged samples are changed in place' % lab, W_RPY)


# functions that compute a sample from its neighbours
MIXING = {'numpy.' + x for x in ('unwrap', 'cumsum', 'cumprod', 'gradient', 'convolve', 'roll', 'sort', 'flip', 'interp')}


def foreign_sample(t, topic, i):
    """ the term certainly has the value of another sample in it """
    mine = {topic.cols[f][i] for f in topic.cols}
    others = {v for f in topic.cols for k, v in enumerate(topic.cols[f]) if k != i} - mine
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        elif isinstance(x, T):
            if x in others:
                return True
            # a guard may well look at all samples
            todo += x.args[1:] if x.op == 'ite' else x.args
    return False


@guard
def attitude_angles(R):
    tw = lambda *x: mul(C(2), mul(*x))
    names = ('vehicle_attitude', 'vehicle_vision_attitude', 'vehicle_attitude_groundtruth', 'vehicle_attitude_setpoint')

    def topic(name, mid=0, sfx='', n=2):
        return Topic(name, [TS] + [('float', 'q%s[%d]' % (sfx, i)) for i in range(4)], list(range(n)), multi_id=mid)
    other = topic('other')
    for lab, topics, args, sfx in (('all', [topic(x, sfx='_d' if x.endswith('setpoint') else '') for x in names] + [other], [], {names[3]: '_d'}),
                                   ('instances', [topic(names[0]), other, topic(names[0], 1), topic(names[0], 3, n=0)], [], {}),
                                   ('given', [topic('mine'), topic('target', sfx='_d'), topic(names[0])], [['mine', 'target:_d', 'absent']], {'target': '_d'}),
                                   ('setpoint first', [topic('mine'), topic('target', sfx='_d'), topic('another')], [['target:_d', 'mine', 'absent:_d', 'another']], {'target': '_d'}),
                                   ('none', [], [], {})):
        r = go(('rpy', lab), lambda: px4_run('add_roll_pitch_yaw', args, dict(data_list=topics)))
        R.saw('scenarios', lab)
        arrays_kept(R, r, topics, lab)
        if not usable(R, 'angles', lab, r, W_RPY):
            continue
        chosen = [x.replace(':_d', '') for x in args[0]] if args else names
        for t in topics:
            d = r.st.cells.get(('D', r.st.cells.get(('A', r.host.made[id(t)], 'data'))), ())
            if any(p[0] != 'item' for p in d):
                R.und('angles', '%s: the data of %s are not understood' % (lab, t.name), W_RPY)
                continue
            got = {cval(p[1]): p[2] for p in d if is_const(p[1])}
            s = sfx.get(t.name, '')
            if t.name not in chosen:
                R.decide(set(got) == set(t.cols), 'others', '%s: %s is left alone' % (lab, t.name), W_RPY, '%s: %s gets other fields' % (lab, t.name), 'others')
                continue
            R.decide(set(got) == set(t.cols) | {x + s for x in ('roll', 'pitch', 'yaw')}, 'fields', '%s: %s (%d) gets roll, pitch and yaw' % (lab, t.name, t.multi_id), W_RPY,
                     '%s: the fields of %s (%d) are %s' % (lab, t.name, t.multi_id, sorted(got)), 'fields')
            for f in ('roll', 'pitch', 'yaw'):
                v = got.get(f + s)
                if v is None:
                    continue
                if v.op != 'vec' or len(v.args) != len(t.times):
                    if v.op == 'call' and v.args[0] in MIXING and v.args[1] and len(t.times) > 1:
                        R.bad('angles', '%s: %s of %s in one sample depends on the other samples: %s' % (lab, f, t.name, show(v, 4)[:120]), W_RPY, 'angles.mixed')
                        continue
                    R.und('angles', '%s: %s of %s is not understood: %s' % (lab, f, t.name, show(v, 4)[:120]), W_RPY)
                    continue
                for i, a in enumerate(v.args):
                    q = [t.cols['q%s[%d]' % (s, k)][i] for k in range(4)]
                    if f == 'roll':
                        want = ('atan2', add(tw(q[0], q[1]), tw(q[2], q[3])), sub(C(1), add(tw(q[1], q[1]), tw(q[2], q[2]))))
                    elif f == 'yaw':
                        want = ('atan2', add(tw(q[0], q[3]), tw(q[1], q[2])), sub(C(1), add(tw(q[2], q[2]), tw(q[3], q[3]))))
                    else:
                        want = ('asin', sub(tw(q[0], q[2]), tw(q[3], q[1])))
                    ok = angle_ok(a, want, q)
                    if ok is None or ok is False:
                        ok = on_grid(a, want, q, ok)
                    if ok == 'range':
                        R.bad('range', '%s of an attitude that rounding puts a little beyond straight up is not a number: %s' % (f, show(a, 6)[:200]), W_RPY, 'range')
                        continue
                    if ok is None and foreign_sample(a, t, i):
                        R.bad('angles', '%s: %s of a sample of %s depends on the attitude of another sample: %s' % (lab, f, t.name, show(a, 6)[:160]), W_RPY, 'angles.mixed')
                        continue
                    R.decide(ok, 'angles', '%s: %s of sample %d of %s (%d)' % (lab, f, i, t.name, t.multi_id), W_RPY,
                             '%s of %s is not the %s of the attitude: %s' % (f, t.name, f, show(a, 4)[:160]), 'angles.' + f)


@guard
def known_attitudes(R):
    """ the angles of sequences of known attitudes, whichever comes first """
    import math
    nice = [tuple(float(x) for x in e) for e in ATTITUDES[0]][:12]
    for start in range(len(nice)):
        rows = nice[start:] + nice[:start]
        t = Topic('mine', [TS] + [('float', 'q[%d]' % i) for i in range(4)], list(range(len(rows))), cols={'q[%d]' % k: [e[k] for e in rows] for k in range(4)})
        r = go(('rpyk', start), lambda: px4_run('add_roll_pitch_yaw', [['mine']], dict(data_list=[t])))
        R.saw('scenarios', 'known attitudes %d' % start)
        if not usable(R, 'angles', 'known attitudes', r, W_RPY):
            continue
        d = r.st.cells.get(('D', r.st.cells.get(('A', r.host.made[id(t)], 'data'))), ())
        got = {cval(p[1]): p[2] for p in d if p[0] == 'item' and is_const(p[1])}
        for k in range(4):
            v = got.get('q[%d]' % k)
            same_ = v is not None and v.op == 'vec' and len(v.args) == len(rows) and all(is_num(x) and cval(x) == e[k] for x, e in zip(v.args, rows))
            R.decide(True if same_ else (False if v is not None and v.op == 'vec' and all(is_num(x) for x in v.args) else None), 'others', 'the quaternion stays as it is', W_RPY,
                     'the logged quaternion is changed', 'others.q')
        for f in ('roll', 'pitch', 'yaw'):
            v = got.get(f)
            if v is None or v.op != 'vec' or len(v.args) != len(rows):
                R.und('angles', '%s of known attitudes is not understood' % f, W_RPY)
                continue
            for a, e in zip(v.args, rows):
                w = {'roll': lambda q: math.atan2(2 * (q[0] * q[1] + q[2] * q[3]), 1 - 2 * (q[1] ** 2 + q[2] ** 2)),
                     'yaw': lambda q: math.atan2(2 * (q[0] * q[3] + q[1] * q[2]), 1 - 2 * (q[2] ** 2 + q[3] ** 2)),
                     'pitch': lambda q: math.asin(max(-1., min(1., 2 * (q[0] * q[2] - q[3] * q[1]))))}[f](e)
                try:
                    g = angle_value(a, {})
                except ValueError:
                    R.und('angles', '%s of known attitudes is not understood: %s' % (f, show(a, 4)[:120]), W_RPY)
                    break
                dd = (g - w + math.pi) % (2 * math.pi) - math.pi if f != 'pitch' else g - w
                R.decide(bool(abs(dd) < 1e-6), 'angles', '%s of known attitudes' % f, W_RPY, '%s of the attitude %s is %.6f instead of %.6f if %s is the first one' % (f, e, g, w, rows[0]), 'angles.' + f)


VEHICLES = {0: 'generic', 1: 'fixed wing', 2: 'quad', 3: 'coaxial', 4: 'helicopter', 5: 'ground installation', 6: 'control station', 7: 'airship', 8: 'balloon', 9: 'rocket', 10: 'rover',
            11: 'boat', 12: 'submarine', 13: 'hexa', 14: 'octo', 15: 'tri', 16: 'flapping', 17: 'kite', 18: 'companion', 19: 'two', 20: 'quad', 21: 'tiltrotor', 22: 'vtol', 23: 'vtol', 24: 'vtol',
            25: 'vtol', 26: 'gimbal', 27: 'adsb'}


@guard
def vehicle_helpers(R):
    where = 'pyulog/px4.py: PX4ULog.get_mav_type'
    seen = {}
    for v in list(VEHICLES) + [28, 29, 100, -1, 255, None]:
        pars = {'SYS_AUTOSTART': 4001, 'RC_MAP_ROLL': 1}
        if v is not None:
            pars['MAV_TYPE'] = v
        r = px4_run('get_mav_type', [], dict(initial_parameters=pars, changed_parameters=[(5, 'MAV_TYPE', 1 if v == 2 else 2), (6, 'SYS_AUTOSTART', 3)]))
        R.saw('vehicles')
        if not usable(R, 'vehicle', 'vehicle %s' % v, r, where):
            continue
        if not (is_const(r.ret) and isinstance(cval(r.ret), str)):
            if is_const(r.ret):
                R.bad('vehicle', 'the name of vehicle type %s is %r' % (v, cval(r.ret)), where, 'vehicle')
            else:
                R.und('vehicle', 'the name of vehicle type %s is not understood' % v, where)
            continue
        seen[v] = cval(r.ret)
        if v in VEHICLES:
            R.decide(VEHICLES[v] in seen[v].lower(), 'vehicle', 'vehicle type %d' % v, where, 'vehicle type %d is called %r' % (v, seen[v]), 'vehicle')
        else:
            R.decide('unknown' in seen[v].lower(), 'vehicle', 'vehicle type %s is unknown' % v, where, 'vehicle type %s is called %r' % (v, seen[v]), 'vehicle.unknown')
    if all(v in seen for v in VEHICLES):
        R.decide(len({seen[v] for v in VEHICLES}) == len(VEHICLES), 'vehicle', 'vehicle types have names of their own', where, 'two vehicle types have the same name', 'vehicle.distinct')
    where = 'pyulog/px4.py: PX4ULog.get_estimator'
    names = {0: 'INAV', 1: 'LPE', 2: 'EKF2', 3: 'Q', None: 'EKF2'}
    for mav in (None, 1, 2, 13, 22, 0, 10):
        for g in (None, 0, 1, 2, 3, 4, 77):
            pars = {}
            if mav is not None:
                pars['MAV_TYPE'] = mav
            if g is not None:
                pars['SYS_MC_EST_GROUP'] = g
            r = px4_run('get_estimator', [], dict(initial_parameters=pars, changed_parameters=[(5, 'MAV_TYPE', 2 if mav == 1 else 1), (6, 'SYS_MC_EST_GROUP', 3 if g == 1 else 1)]))
            R.saw('estimators')
            if not usable(R, 'estimator', 'estimator', r, where):
                continue
            got = cval(r.ret) if is_const(r.ret) else None
            want = 'EKF2' if mav == 1 else names.get(g, 'unknown')
            R.decide((got == want or (want == 'unknown' and 'unknown' in got and str(g) in got)) if isinstance(got, str) else None, 'estimator', 'vehicle %s, group %s' % (mav, g), where,
                     'with vehicle type %s and estimator group %s the estimator is %r instead of %r' % (mav, g, got, want), 'estimator')
    where = 'pyulog/px4.py: PX4ULog.get_configured_rc_input_names'
    pars = {'RC_MAP_ROLL': 1, 'XRC_MAP_Q': 1, 'RC_MAP_PITCH': 2, 'RC_MAP_MODE_SW': 5, 'RC_CHAN_CNT': 5, 'RC_MAP_KILL_SW': 5, 'RC_MAP_AUX1': 0, 'RC_MAP_THROTTLE': 3, 'RC1_MAP_MIN': 5,
            'RC_MAP_YAW': 18, 'RC_MAPPED_N': 5, 'RC_MAP': 5, 'RC_MAP2_X': 5, 'RC_map_y': 5, 'rc_map_y': 5, 'RC_MAP_RC_MAP_Z': 3, 'RC_MAP_A': 5.0, 'RC_MAP_B': 5.5, 'TRIM_RC_MAP_': 3, 'RC_MAP_TRANS_SW': -1}
    for ch in list(range(0, 20)) + [-1]:
        r = px4_run('get_configured_rc_input_names', [ch], dict(initial_parameters=pars, changed_parameters=[(5, 'RC_MAP_ROLL', 2), (6, 'RC_MAP_NEW', 3)]))
        R.saw('channels')
        if not usable(R, 'channels', 'channel %d' % ch, r, where):
            continue
        want = [k[7:].capitalize() for k, v in pars.items() if k.startswith('RC_MAP_') and v == ch + 1]
        g = r.it.freeze(r.st, r.ret)
        try:
            got = pyval(g)
        except ValueError:
            R.und('channels', 'the inputs of channel %d are not understood' % ch, where)
            continue
        R.decide(got == (want or None), 'channels', 'inputs on channel %d' % ch, where, 'the inputs on channel %d are %r instead of %r' % (ch, got, want or None), 'channels')


# ---------------------------------------------------------------- command lines

def cli_tools():
    """ (tool, options, flag that ignores invalid text, log, stand-ins) """
    gps = position_topic('vehicle_gps_position', [200000, 900000], 'int', [3, 3])
    caps = position_topic('GPS_Pos', [200000, 900000], 'int', [3, 3])
    bat = Topic('battery_status', [TS, ('float', 'v')], [7])
    msgs = dict(logged_messages=[logged(5000000, 54, 'hello')])
    none = lambda: {}
    kml = lambda: (lambda k: dict(ext=k.ext, meth=k.meth))(Kml())
    bag = lambda: (lambda b: dict(ext=b.ext, meth=b.meth))(Bag('0.15.9'))
    yield 'info', {}, '-i', dict(data_list=[bat]), lambda: dict(methods=VERSION[None]), None
    yield 'info', {'-m': 'boot'}, '-i', dict(msg_info_multiple_dict={'boot': [['a']]}), lambda: dict(methods=VERSION[None]), None
    yield 'messages', {}, '-i', msgs, none, {'event'}
    yield 'params', {}, '--ignore', P_LOG, lambda: dict(methods=PAR_METHODS), None
    yield 'params', {'-i': 1}, '--ignore', P_LOG, lambda: dict(methods=PAR_METHODS), set()
    yield 'params', {'-f': 'qgc', 1: 'out.txt'}, '--ignore', P_LOG, lambda: dict(methods=PAR_METHODS), None
    yield 'params', {'-t': 1, '-l': ';'}, '--ignore', P_LOG, lambda: dict(methods=PAR_METHODS), None
    yield 'params', {'-d': 'system'}, '--ignore', P_LOG, lambda: dict(methods=PAR_METHODS), None
    yield 'extract_gps_dump', {}, '-x', dict(data_list=[gps_topic([(2, 0)])]), none, {'gps_dump'}
    yield 'extract_gps_dump', {'-i': '1'}, '-x', dict(data_list=[gps_topic([(2, 0)])]), none, {'gps_dump'}
    yield 'extract_gps_dump', {'-o': 'out', '-i': '0'}, '-x', dict(data_list=[gps_topic([(2, 0)])]), lambda: dict(dirs=('out',)), {'gps_dump'}
    yield 'info', {'-v': 1}, '-i', dict(data_list=[bat]), lambda: dict(methods=VERSION[None]), None
    yield 'info', {'-m': 'boot', '-n': 1}, '-i', dict(msg_info_multiple_dict={'boot': [['a']]}), lambda: dict(methods=VERSION[None]), None
    yield 'ulog2csv', {'-o': 'out', '-d': ';', '-ts': '1', '-te': '2'}, '-i', dict(data_list=[bat]), none, None
    yield 'ulog2kml', {'-o': 'x.kml', '--topic': 'vehicle_gps_position'}, '-i', dict(data_list=[gps]), kml, {'vehicle_gps_position', 'vehicle_status'}
    yield 'ulog2ros2bag', {'-o': 'b', '--mcap': 1}, '-i', dict(data_list=[bat]), bag, None
    yield 'ulog2ros2bag', {'-v': 1}, '-i', dict(data_list=[bat]), bag, None
    yield 'ulog2csv', {}, '-i', dict(data_list=[bat]), none, None
    yield 'ulog2csv', {'-m': 'battery_status,other'}, '-i', dict(data_list=[bat]), none, {'battery_status', 'other'}
    yield 'ulog2csv', {'-m': 'Battery_STATUS,b,Other_t,a,b2'}, '-i', dict(data_list=[bat]), none, {'Battery_STATUS', 'b', 'Other_t', 'a', 'b2'}
    many = ['topic_%d' % (i * 7 % 40) for i in range(40)]
    yield 'ulog2csv', {'-m': ','.join(many)}, '-i', dict(data_list=[bat]), none, set(many)
    yield 'ulog2ros2bag', {'-m': ','.join(many)}, '-i', dict(data_list=[bat]), bag, set(many)
    yield 'ulog2csv', {'-m': 'only'}, '-i', dict(data_list=[bat]), none, {'only'}
    yield 'ulog2ros2bag', {'-m': 'only'}, '-i', dict(data_list=[bat]), bag, {'only'}
    yield 'ulog2kml', {}, '-i', dict(data_list=[gps]), kml, {'vehicle_gps_position', 'vehicle_status'}
    yield 'ulog2kml', {'--topic': 'GPS_Pos'}, '-i', dict(data_list=[caps]), kml, {'GPS_Pos', 'vehicle_status'}
    yield 'ulog2ros2bag', {'-m': 'Battery_STATUS,b,Other_t,a'}, '-i', dict(data_list=[bat]), bag, {'Battery_STATUS', 'b', 'Other_t', 'a'}
    yield 'ulog2kml', {'--camera-trigger': 'camera_capture'}, '-i', dict(data_list=[gps]), kml, {'vehicle_gps_position', 'vehicle_status', 'camera_capture'}
    yield 'ulog2ros2bag', {}, '-i', dict(data_list=[bat]), bag, None
    yield 'ulog2ros2bag', {'-m': 'battery_status,other'}, '-i', dict(data_list=[bat]), bag, {'battery_status', 'other'}


def float_assume(topics):
    return {eq(mk('attr', v, 'dtype'), mk('ext', 'numpy.int8')): FALSE for t in topics for f in t.cols for v in t.cols[f] if isinstance(v, T)}


@guard
def cli_logs(R):
    """ which log every tool reads, and how """
    for n, (tool, cli, flag, lg, extra, filt) in enumerate(cli_tools()):
        where = 'pyulog/%s.py: main' % tool
        for ignore in (False, True):
            c = {0: IN}
            c.update(cli)
            if ignore:
                c[flag] = 1
            lab = '%s %s' % (tool, ' '.join(str(x) for x in c.values() if x != IN))
            kw = extra()
            if tool == 'ulog2ros2bag':
                kw['assume'] = float_assume(lg['data_list'])
            r = go(('cli', n, ignore), lambda: tool_run('pyulog.' + tool, 'main', log=lg, cli=c, **kw))
            R.saw('command lines', lab)
            unused = [k for k in c if k not in getattr(r.it.cli, 'used', set()) and k != 0]
            if unused:
                R.bad('options', '%s does not have the option %s' % (tool, unused[0]), where, 'options:%s' % tool)
                continue
            if r.problems:
                r.problems = []
            if not usable(R, 'logs', lab, r, where):
                continue
            if len(r.ulogs) != 1 or r.ulogs[0][1]:
                R.decide(False if not r.ulogs else None, 'logs', '%s reads the log' % lab, where, '%s reads no log' % lab, 'logs:%s' % tool)
                continue
            b = r.ulogs[0][0]
            f = b.get('log_file', NONE)
            R.decide(f is C(IN) if is_const(f) else None, 'logs', '%s reads the log it is given' % lab, where, '%s reads %s' % (lab, show(f)), 'logs:%s' % tool)
            d = b.get('disable_str_exceptions', TRUE)
            R.decide(truthy(d) == ignore if is_const(d) else None, 'text', '%s: invalid text %s' % (lab, 'is replaced' if ignore else 'is an error'), where,
                     '%s: invalid text is %s' % (lab, 'an error' if ignore else 'replaced'), 'text:%s' % tool)
            h = b.get('parse_header_only', FALSE)
            R.decide(not truthy(h) if is_const(h) else None, 'whole', '%s reads the whole log' % lab, where, '%s reads the header only' % lab, 'whole:%s' % tool)
            m = b.get('message_name_filter_list', NONE)
            try:
                got = None if m is NONE else set(pyval(m))
            except ValueError:
                R.und('filter', '%s: the filter is not understood: %s' % (lab, show(m, 4)), where)
                continue
            # a filter may be wider than what the tool needs, unless it decides what is converted
            exact = tool in ('ulog2csv', 'ulog2ros2bag', 'params', 'info')
            R.decide(got == filt if exact else got is None or got >= (filt or set()), 'filter', '%s reads the topics it needs' % lab, where,
                     '%s reads only %s' % (lab, sorted(got) if got is not None else 'everything'), 'filter:%s' % tool)


@guard
def function_logs(R):
    """ the conversions as functions: invalid text is an error unless it is to be replaced """
    bat = Topic('battery_status', [TS, ('float', 'v')], [7])
    pos = position_topic('pos', [200000, 900000], 'int', [3, 3])

    def kml(k):
        return kml_run([IN, 'o.kml', 'pos'], k, dict(data_list=[pos]))

    def bag(k):
        b = Bag('0.15.9')
        return tool_run('pyulog.ulog2ros2bag', 'convert_ulog2ros2bag', [IN, 'bag', False, 'battery_status'], k, log=dict(data_list=[bat]), ext=b.ext, meth=b.meth, assume=float_assume([bat]))
    todo = [('convert_ulog2csv', 'pyulog/ulog2csv.py', lambda k: tool_run('pyulog.ulog2csv', 'convert_ulog2csv', [IN, None, None, ',', None, None], k, log=dict(data_list=[bat]))),
            ('extract_message', 'pyulog/extract_message.py', lambda k: tool_run('pyulog.extract_message', 'extract_message', [IN, 'battery_status'], k, log=dict(data_list=[bat]))),
            ('convert_ulog2kml', 'pyulog/ulog2kml.py', kml), ('convert_ulog2ros2bag', 'pyulog/ulog2ros2bag.py', bag)]
    for name, file, run in todo:
        for kw, ignore in (({}, False), ({'disable_str_exceptions': False}, False), ({'disable_str_exceptions': True}, True)):
            lab = '%s(%s)' % (name, ', '.join('%s=%s' % x for x in kw.items()))
            where = '%s: %s' % (file, name)
            r = go(('function', name, repr(kw)), lambda: run(kw))
            R.saw('calls', lab)
            r.problems = []
            if not usable(R, 'functions', lab, r, where):
                continue
            if len(r.ulogs) != 1 or r.ulogs[0][1]:
                R.decide(False if not r.ulogs else None, 'functions', '%s reads the log' % lab, where, '%s reads no log' % lab, 'functions:%s' % name)
                continue
            d = r.ulogs[0][0].get('disable_str_exceptions', TRUE)
            R.decide(truthy(d) == ignore if is_const(d) else None, 'functions', '%s: invalid text %s' % (lab, 'is replaced' if ignore else 'is an error'), where,
                     '%s: invalid text is %s' % (lab, 'an error' if ignore else 'replaced'), 'functions:%s' % name)


@guard
def cli_conversions(R):
    gps = position_topic('pos', [200000, 900000], 'int', [3, 3])
    cam = Topic('cam', [TS, ('uint32_t', 'seq'), ('double', 'lat'), ('double', 'lon'), ('double', 'alt')], [5])
    where = 'pyulog/ulog2kml.py: main'
    for lab, cli, name, points in (('default', {}, 'track.kml', 0), ('named', {'-o': 'x/y.kml'}, 'x/y.kml', 0), ('cameras', {'--camera-trigger': 'cam'}, 'track.kml', 1)):
        t = position_topic('vehicle_gps_position', [200000, 900000], 'int', [3, 3])
        for topic in (None, 'pos'):
            c = dict({0: IN}, **cli)
            if topic:
                c['--topic'] = topic
            k = Kml()
            r = go(('clikml', lab, topic), lambda: kml_main(c, dict(data_list=[t, cam, gps]), k))
            l2 = 'kml, %s%s' % (lab, ', other topic' if topic else '')
            R.saw('command lines', l2)
            if not usable(R, 'kml', l2, r, where):
                continue
            try:
                shapes, saved = r.kml.shapes(r)
            except Und as x:
                R.und('map', '%s' % x, W_KML)
                continue
            R.decide([s[0] for s in saved] == [C(name)] if all(is_const(s[0]) for s in saved) else None, 'kml', '%s: saved as %s' % (l2, name), where, '%s: saved as %s' % (l2, [show(s[0]) for s in saved]), 'kml.name')
            src = gps if topic else t
            want = [p for _t, p in kml_points(src, 0.1, 0)]
            got = [p for kd, _a, p in shapes if kd == 'linestring']
            R.decide(close([want], got), 'kml', '%s: positions of the chosen topic' % l2, where, '%s: %s' % (l2, first_diff([want], got)), 'kml.topic')
            R.decide(sum(kd == 'point' for kd, _a, _p in shapes) == points, 'kml', '%s: camera points' % l2, where, '%s: %d camera points' % (l2, sum(kd == 'point' for kd, _a, _p in shapes)), 'kml.cameras')
    where = 'pyulog/ulog2ros2bag.py: main'
    bat = Topic('battery_status', [TS, ('float', 'v')], [7])
    for lab, cli, name, fmt in (('default', {}, 'rosbag_flight', 'sqlite3'), ('named', {'-o': 'b'}, 'b', 'sqlite3'), ('mcap', {'--mcap': 1}, 'rosbag_flight', 'mcap'),
                                ('all', {'--mcap': 1, '-o': 'b2', '-m': 'battery_status'}, 'b2', 'mcap')):
        c = dict({0: IN}, **cli)
        r = go(('clibag', lab), lambda: bag_main(c, [bat]))
        l2 = 'bag, %s' % lab
        R.saw('command lines', l2)
        if not usable(R, 'bag', l2, r, where):
            continue
        opts = [dict(x.args[2]) for e in r.bag.log for a in e[1] + list(e[2].values()) for x in walk(a) if x.op == 'call' and x.args[0] == 'rosbag2_py.StorageOptions']
        R.decide(len(opts) == 1 and opts[0].get('uri') is C(name) and opts[0].get('storage_id') is C(fmt) if opts else None, 'bag', '%s: written to %s as %s' % (l2, name, fmt), where,
                 '%s: written as %s' % (l2, [{k: show(v) for k, v in o.items()} for o in opts]), 'bag')
        R.decide([x[0] for x in r.bag.log].count('write') == 1, 'bag', '%s: the messages are written' % l2, where, '%s: the messages are not written' % l2, 'bag.messages')
    where = 'pyulog/migrate_db.py: main'
    for lab, cli, want in (('default', {}, ('pyulog.sqlite3', None, False, False)), ('path', {'-d': 'a/b.db'}, ('a/b.db', None, False, False)), ('noop', {'-n': 1}, ('pyulog.sqlite3', None, True, False)),
                           ('force', {'-f': 1}, ('pyulog.sqlite3', None, False, True)), ('sql', {'-s': 'dir', '-d': 'q'}, ('q', 'dir', False, False)),
                           ('all', {'-s': 'dir', '-d': 'q', '-n': 1, '-f': 1}, ('q', 'dir', True, True))):
        seen = []

        def hook(it, f, a, k, node, st):
            if f.name != 'migrate_db':
                return None
            names = [x.arg for x in f.node.args.args]
            b = dict(zip(names, a))
            b.update(k)
            seen.append((b, st.pc))
            return NONE
        r = tool_run('pyulog.migrate_db', 'main', cli=cli, hook=hook)
        l2 = 'migration, %s' % lab
        R.saw('command lines', l2)
        if not usable(R, 'migration', l2, r, where):
            continue
        if len(seen) != 1 or seen[0][1]:
            R.decide(False if not seen else None, 'migration', l2, where, '%s: nothing is migrated' % l2, 'migration')
            continue
        b = seen[0][0]
        got = [b.get(n, d) for n, d in (('db_path', NONE), ('sql_dir', NONE), ('noop', FALSE), ('force', FALSE))]
        if not all(is_const(x) for x in got):
            R.und('migration', '%s: the arguments are not understood' % l2, where)
            continue
        got = tuple(cval(x) for x in got)
        R.decide(got[:2] == want[:2] and [bool(x) for x in got[2:]] == list(want[2:]), 'migration', '%s: as asked' % l2, where,
                 '%s: database, directory, noop and force are %s instead of %s' % (l2, got, want), 'migration')


def kml_main(c, lg, k):
    r = tool_run('pyulog.ulog2kml', 'main', log=lg, cli=c, ext=k.ext, meth=k.meth)
    r.kml = k
    return r


def bag_main(c, topics):
    b = Bag('0.15.9')
    r = tool_run('pyulog.ulog2ros2bag', 'main', log=dict(data_list=topics), cli=c, ext=b.ext, meth=b.meth, assume=float_assume(topics))
    r.bag = b
    return r


@guard
def input_untouched(R):
    names = ('flight.ulg', 'data/flight.ulg', '/logs/FLIGHT.ULG', 'flight', 'flight.ulg.ulg', '.ulg', 'flight.csv', 'flight_battery_status_0.csv', 'flight_0_to_device.dat', 'a.b/flight', 'flight.dat')
    empty = {'params': 1, 'ulog2csv': '-o', 'ulog2kml': '-o', 'extract_gps_dump': '-o', 'ulog2ros2bag': '-o'}
    for n, (tool, cli, flag, lg, extra, filt) in enumerate(cli_tools()):
        where = 'pyulog/%s.py: main' % tool
        if tool in empty:
            # an output that is named, but empty, is not the log
            kw = extra()
            if tool == 'ulog2ros2bag':
                kw['assume'] = float_assume(lg['data_list'])
            for name in ('flight', 'x/flight.ulg'):
                r = go(('noname', n, name), lambda: tool_run('pyulog.' + tool, 'main', log=lg, cli={**cli, 0: name, empty[tool]: ''}, **kw))
                for path, mode, _k, e in r.opens:
                    if is_const(mode) and set('wax+') & set(cval(mode)) and is_const(path):
                        R.decide(not same_file(cval(path), name), 'input', '%s, empty name for the output' % tool, where,
                                 '%s: it overwrites its input if the name of the output is empty' % tool, 'input:%s' % tool)
        wrote = False
        for name in names:
            c = {0: name}
            c.update(cli)
            kw = extra()
            if tool == 'ulog2ros2bag':
                kw['assume'] = float_assume(lg['data_list'])
            lab = '%s %s' % (tool, name)
            R.saw('inputs', lab)
            r = go(('input', n, name), lambda: tool_run('pyulog.' + tool, 'main', log=lg, cli=c, **kw))
            r.problems = [p for p in r.problems if ': print ' not in p and ': write ' not in p]
            if not usable(R, 'input', lab, r, where):
                continue
            for path, mode, _k, e in r.opens:
                if not is_const(mode):
                    R.und('input', '%s: a file is opened in an unknown mode' % lab, where)
                elif set('wax+') & set(cval(mode)):
                    wrote = True
                    R.decide(not same_file(cval(path), name) if is_const(path) else None, 'input', '%s: %s is another file' % (lab, show(path)), where, '%s: it overwrites its input' % lab, 'input:%s' % tool)
            for path, a, pc, _n, mod in r.touched:
                t = [x for x in a if is_const(x)]
                if any(same_file(cval(x), name) for x in t):
                    R.bad('input', '%s: %s is applied to the log' % (lab, path), where, 'input:%s' % tool)
                elif len(t) < len(a):
                    R.und('input', '%s: %s is applied to something unknown' % (lab, path), where)
            if not r.touched and not any(is_const(m) and set('wax+') & set(cval(m)) for _p, m, _k, _e in r.opens):
                R.ok('input', '%s: no file is written' % lab, where)
        del wrote


@guard
def arguments_kept(R):
    """ the lists and dictionaries given to a function, and the log, are afterwards what they were before """
    import copy as _copy
    a = position_topic('pos_a', [200000, 900000], 'int', [3, 3])
    b = position_topic('pos_b', [200000, 900000], 'int', [3, 3])
    cam = Topic('cam', [TS, ('uint32_t', 'seq'), ('double', 'lat'), ('double', 'lon'), ('double', 'alt')], [5])
    att = Topic('mine', [TS] + [('float', 'q[%d]' % i) for i in range(4)], [1, 2])
    att2 = Topic('sp', [TS] + [('float', 'q_d[%d]' % i) for i in range(4)], [1, 2])
    ev = event_topic([(10, 1, 0x43, (1, 2, 3)), (5, 200, 0x67, (0, 0, 0))])
    cols = [mk('sym', '~colors0'), mk('sym', '~colors1')]
    calls = {c: (lambda x, _k, _s, c=c: mk('call', c.args[0], tuple(x), ())) for c in cols}
    params = {'MAV_TYPE': 2, 'LPE_EN': 1, 'RC_MAP_ROLL': 1, 'RC_MAP_PITCH': 1, 'B': 1.5, 'A': -3}
    log = dict(data_list=[b, ev, a], initial_parameters=params, changed_parameters=[(20, 'B', 2.5), (10, 'A', 1)], dropouts=[Obj('ULog.MessageDropout', timestamp=9, duration=5), Obj('ULog.MessageDropout', timestamp=3, duration=7)],
               msg_info_dict={'sys_name': 'PX4', 'ver_sw': 'abc', 'b': 1, 'a': 2}, msg_info_multiple_dict={'boot': [['x', 'y'], ['z']], 'perf': [['1']]}, default_parameters={0: {'A': 1, 'B': 2.0}, 1: {'A': 5}})
    todo = []
    for kw in ({'position_topic_name': ['pos_a', 'pos_b'], 'colors': cols}, {'position_topic_name': ['pos_a', 'pos_b'], 'colors': cols, 'camera_trigger_topic_name': 'cam', 'style': {'line_width': 4}},
               {'position_topic_name': ['pos_b'], 'colors': [cols[0]], 'style': {}}, {'position_topic_name': 'pos_a', 'colors': cols[0], 'style': {'extrude': True}}):
        todo.append(('convert_ulog2kml', 'pyulog/ulog2kml.py', lambda kw=kw: kml_called(_copy.copy(kw), dict(data_list=[a, b, cam]), calls, Kml()), False))
    todo.append(('add_roll_pitch_yaw', 'pyulog/px4.py', lambda: px4_run('add_roll_pitch_yaw', [['mine', 'sp:_d', 'other']], dict(data_list=[att, att2])), False))
    for m, args in (('get_mav_type', []), ('get_estimator', []), ('get_configured_rc_input_names', [0])):
        todo.append((m, 'pyulog/px4.py', lambda m=m, args=args: px4_run(m, args, log), True))
    for v in (False, True):
        todo.append(('show_info', 'pyulog/info.py', lambda v=v: X.tool_run_self('pyulog.info', 'show_info', lambda host, r: r.ulog, [v], log=log, selfonly=True), True))
    todo.append(('get_logged_events', 'pyulog/px4_events.py', lambda: events_run([ev], {'metadata_events_sha256': 'ab12'}, {'metadata_events': [[b'a', b'b'], [b'c']]}), True))
    for d in (0, 1):
        todo.append(('get_defaults', 'pyulog/params.py', lambda d=d: X.tool_run_self('pyulog.params', 'get_defaults', lambda host, r: r.ulog, ['system' if d == 0 else 'current_setup'], log=log, selfonly=True), True))
    for n, (name, file, run, whole) in enumerate(todo):
        where = '%s: %s' % (file, name)
        R.saw('calls', name)
        X.KEEP = True
        try:
            r = go(('kept', n), run)
        finally:
            X.KEEP = False
        changed = [k for k, ref, before in r.given if r.it.freeze(r.st, ref, 8) is not before]
        R.decide(not changed, 'arguments', '%s: what it is given stays as it is' % name, where, '%s changes %s that the caller gave' % (name, changed[0] if changed else ''), 'arguments:%s' % name)
        if whole:
            odd = [k for k, v in r.before.items() if r.after.get(k) is not v]
            R.decide(not odd, 'log', '%s: the log stays as it is' % name, where, '%s changes %s of the log it is given' % (name, odd[0] if odd else ''), 'log:%s' % name)


def same_file(a, b):
    return isinstance(a, str) and os.path.normpath(a) == os.path.normpath(b)


# ---------------------------------------------------------------- what has to be installed

def not_standard(*also):
    import sys
    def missing(name):
        root = name.split('.')[0]
        return not (root in sys.stdlib_module_names or root in ('numpy', '__future__') or any(name == x or name.startswith(x + '.') for x in also))
    return missing


@guard
def requirements(R):
    from .scen import program
    pk = {'ulog2kml': ('simplekml',), 'px4_events': ('pyulog.libevents_parse',), 'messages': ('pyulog.libevents_parse',)}
    mods = sorted(m for m in program().trees if m.startswith('pyulog')) if hasattr(program(), 'trees') else []
    base = ['pyulog', 'pyulog.core', 'pyulog.db', 'pyulog.px4', 'pyulog.info', 'pyulog.params', 'pyulog.ulog2csv', 'pyulog.extract_message', 'pyulog.extract_gps_dump', 'pyulog.migrate_db',
            'pyulog.ulog2ros2bag', 'pyulog.ulog2kml', 'pyulog.px4_events', 'pyulog.messages']
    for mod in base:
        short = mod.split('.')[-1]
        if not program().has(mod):
            R.und('requirements', '%s is not there' % mod, mod)
            continue
        it, _st = X.lacking(mod, not_standard(*pk.get(short, ())))
        R.saw('modules', mod)
        R.decide(mod not in it.failed_mods, 'requirements', '%s can be imported with %s' % (mod, ' and '.join(('numpy',) + pk.get(short, ()))), 'pyulog/%s.py' % short,
                 '%s can not be imported without other packages than %s' % (mod, ' and '.join(('numpy',) + pk.get(short, ()))), 'requirements:%s' % short)
    del mods
    where = 'pyulog/ulog2ros2bag.py: main'
    bat = Topic('battery_status', [TS, ('float', 'v')], [7])
    for lab, have in (('no ROS 2', ()), ('no message definitions', ('rclpy', 'rosbag2_py')), ('no bag library', ('rclpy', 'px4_msgs'))):
        b = Bag('0.15.9')
        r = go(('ros', lab), lambda: tool_run('pyulog.ulog2ros2bag', 'main', log=dict(data_list=[bat]), cli={0: IN}, ext=b.ext, meth=b.meth, missing=not_standard(*have)))
        R.saw('scenarios', lab)
        r.problems = [p for p in r.problems if ': print ' not in p]
        if not usable(R, 'ros', lab, r, where):
            continue
        R.decide(not r.ulogs and not b.log, 'ros', '%s: nothing is converted, and it does not fail' % lab, where, '%s: it converts all the same' % lab, 'ros')


# ---------------------------------------------------------------- value changes of a data set

W_LVC = 'pyulog/core.py (ULog.Data.list_value_changes)'


@guard
def changes_listed(R):
    """ the listed changes of short data sets: with times of zero anywhere, and with any pattern of equal neighbours """
    import itertools
    times = [(), (0,), (5,), (0, 0), (0, 7), (5, 7), (5, 0)] + list(itertools.product((0, 1), repeat=3)) + [(1, 1, 1, 1), (1, 0, 1, 1), (0, 1, 0, 1), (1, 1, 0, 1),
                                                                                                       (0, 0, 1, 1), (1, 0, 0, 1)]
    times = [tuple(10 * (i + 1) if x == 1 else x for i, x in enumerate(t)) for t in times]
    for t in times:
        for x in itertools.product((3, 4), repeat=len(t)) if len(t) < 4 else ((3, 4, 3, 4), (3, 4, 3, 3), (3, 3, 4, 3), (3, 3, 3, 3), (4, 3, 3, 3), (3, 3, 3, 4)):
            make = lambda host, run, t=t, x=x: host.lift(Topic('foo', [TS, ('int32_t', 'a')], list(t), a=list(x)))
            lab = 'times %s, values %s' % (list(t), list(x))
            r = X.tool_run_self('pyulog.core', 'ULog.Data.list_value_changes', make, ['a'], selfonly=True)
            R.saw('data sets', lab)
            if r.raised:
                names = sorted({e[1] for e in r.escapes})
                R.bad('changes.listed', '%s: it fails with %s' % (lab, ', '.join(names)), W_LVC, 'changes.listed:fails')
                return
            v = r.it.freeze(r.st, r.ret) if isinstance(r.ret, T) else None
            keep = [(a, b) for a, b in zip(t, x) if a]
            exp = [k for i, k in enumerate(keep) if not i or k[1] != keep[i - 1][1]]
            got = listed_pairs(v)
            if got is None:
                R.und('changes.listed', '%s: the result is not understood: %s' % (lab, show(v, 5)[:120] if v is not None else v), W_LVC)
                return
            R.decide(got == exp, 'changes.listed', lab, W_LVC, '%s: the list is %s instead of %s' % (lab, got, exp), 'changes.listed')
            if got != exp:
                return


def listed_pairs(v):
    if v is None or v.op not in ('list', 'tuple', 'vec'):
        return None
    out = []
    for p in v.args:
        if isinstance(p, T) and p.op == 'p_item':
            p = p.args[0]
        if not isinstance(p, T) or p.op not in ('tuple', 'vec', 'list'):
            return None
        ys = [y.args[0] if y.op == 'p_item' else y for y in p.args]
        if len(ys) != 2 or not all(is_num(y) for y in ys):
            return None
        out.append(tuple(cval(y) for y in ys))
    return out


# ---------------------------------------------------------------- state that outlives a call

MUTATING = {'add', 'append', 'extend', 'insert', 'update', 'pop', 'popitem', 'clear', 'remove', 'discard', 'sort', 'reverse', 'setdefault', 'appendleft', 'fill'}
NEW = {'set', 'dict', 'list', 'bytearray', 'deque', 'defaultdict', 'OrderedDict', 'Counter', 'array', 'zeros', 'empty'}


class Stateful(ast.NodeVisitor):
    """ objects of a module or class that its functions change """

    def __init__(self, tree):
        self.tree, self.found, self.unclear, self.shared, self.functions = tree, [], [], {}, 0
        self.collect(tree.body, '')
        self.changed = {n.func.value.attr for n in ast.walk(tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING and
                        isinstance(n.func.value, ast.Attribute)} | {n.value.attr for n in ast.walk(tree) if isinstance(n, ast.Subscript) and
                                                                    isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute)}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions += 1
                self.function(n)

    def collect(self, body, cls):
        for n in body:
            if isinstance(n, ast.ClassDef):
                self.collect(n.body, n.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and self.mutable(n.value):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Name):
                        self.shared[(cls, t.id)] = n
            elif isinstance(n, (ast.If, ast.Try, ast.With)):
                self.collect(n.body + getattr(n, 'orelse', []), cls)

    def mutable(self, v):
        if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            return True
        return isinstance(v, ast.Call) and (v.func.id if isinstance(v.func, ast.Name) else getattr(v.func, 'attr', '')) in NEW

    def function(self, fn):
        a = fn.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        glob = {x for n in ast.walk(fn) if isinstance(n, ast.Global) for x in n.names}
        local = set(params) | {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - glob
        alias = {}
        pairs = list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y]
        for arg, d in pairs:
            if self.mutable(d):
                alias[arg.arg] = 'the default of %s' % arg.arg
            elif isinstance(d, ast.Name) and ('', d.id) in self.shared:
                alias[arg.arg] = d.id

        def of(v):
            if isinstance(v, ast.Name):
                if v.id in alias:
                    return alias[v.id]
                if v.id not in local and ('', v.id) in self.shared:
                    return v.id
            elif isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name):
                if (v.value.id, v.attr) in self.shared:
                    return '%s.%s' % (v.value.id, v.attr)
                if v.value.id in ('self', 'cls') and any(k[0] and k[1] == v.attr for k in self.shared) and v.attr not in self.own:
                    return v.attr
            elif isinstance(v, ast.BoolOp):
                return next((of(x) for x in v.values if of(x)), None)
            elif isinstance(v, ast.IfExp):
                return of(v.body) or of(v.orelse)
            elif isinstance(v, (ast.Subscript, ast.NamedExpr)):
                return of(v.value)
            return None
        weak = set()
        self.own = {t.attr for n in ast.walk(self.tree) if isinstance(n, (ast.Assign, ast.AnnAssign)) for t in (n.targets if isinstance(n, ast.Assign) else [n.target])
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self'}
        for _ in range(3):
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id not in glob and of(n.value):
                            alias.setdefault(t.id, of(n.value))
                            if not isinstance(n.value, (ast.Name, ast.Attribute)):
                                weak.add(t.id)
        once = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        once.setdefault(t.id, []).append(of(n.value))
        tested = {ast.dump(n.left) for n in ast.walk(fn) if isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops)} | \
            {ast.dump(n.args[0]) for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and n.args}
        for n in ast.walk(fn):
            hits = []
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING:
                hits.append((n.func.value, None))
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                for t in n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]:
                    if isinstance(n, ast.Assign) and isinstance(t, ast.Attribute) and t.attr in self.changed and of(n.value):
                        self.found.append((of(n.value), n, fn))
                    for t in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                        if isinstance(t, ast.Subscript):
                            hits.append((t.value, t.slice))
                        elif isinstance(n, ast.AugAssign) and isinstance(t, ast.Name) and t.id in alias and t.id not in weak:
                            hits.append((t, None))
            elif isinstance(n, ast.Global) and any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in n.names for x in ast.walk(fn)):
                self.unclear.append((', '.join(n.names), n, fn))
            for v, key in hits:
                what = of(v)
                if not what:
                    continue
                memo = key is not None and ast.dump(key).replace('Store()', 'Load()') in tested
                name = v.id if isinstance(v, ast.Name) else None
                mixed = name in once and None in once[name] and name not in params
                (self.unclear if memo or mixed else self.found).append((what, n, fn))


def stateless_in(path):
    @guard
    def stateless(R):
        with open(os.path.join(os.environ.get('PYULOG_REPO', '/repo'), path)) as f:
            s = Stateful(ast.parse(f.read()))
        for k in s.shared:
            R.saw('objects that outlive a call', '%s: %s' % (path, '.'.join(x for x in k if x)))
        R.saw('functions', '%s: %d' % (path, s.functions))
        for what, n, fn in s.found:
            R.bad('stateless', '%s changes %s, which later calls see' % (fn.name, what), '%s:%d (%s)' % (path, n.lineno, fn.name), 'stateless:%s' % what)
        for what, n, fn in s.unclear:
            R.und('stateless', '%s keeps something in %s' % (fn.name, what), '%s:%d (%s)' % (path, n.lineno, fn.name))
        R.ok('stateless', '%s: %d functions change nothing that outlives a call' % (path, s.functions), path)
    stateless.__name__ = 'stateless_%s' % os.path.basename(path)[:-3]
    return stateless


for _m in ('ulog2csv', 'extract_message', 'params', 'info', 'messages', 'px4_events', 'extract_gps_dump', 'ulog2kml', 'ulog2ros2bag', 'px4', 'db', 'migrate_db', 'core'):
    globals()['stateless_%s' % _m] = stateless_in('pyulog/%s.py' % _m)


# ---------------------------------------------------------------- comparisons of given objects

W_EQ = 'pyulog/core.py (%s.__eq__)'


def plain_of(t, r):
    """ the python value of a term over given objects, and of comparisons of them """
    if t is NONE or is_const(t):
        return cval(t)
    if t.op == 'ref':
        f = r.it.freeze(r.st, t)
        if f.op == 'ref':
            raise Und('object')
        return plain_of(f, r)
    if t.op == 'objdict' and t.args[0].op == 'ref':
        return {k[2]: plain_of(v, r) for k, v in r.st.cells.items() if k[0] == 'A' and k[1] is t.args[0]}
    if t.op == 'keys':
        x = t.args[0]
        if x.op == 'ref':
            return {repr(plain_of(p[1], r)) for p in r.st.cells[('D', x)]}
        return {repr(y) for y in plain_of(x, r)}
    if t.op in ('list', 'tuple', 'vec', 'toset', 'set'):
        xs = [plain_of(p.args[0] if p.op == 'p_item' else p, r) for p in t.args]
        if t.op in ('set', 'toset'):
            return {repr(x) for x in xs}
        return tuple(xs) if t.op == 'tuple' else xs if t.op != 'vec' else ('vec', xs)
    if t.op == 'dict':
        return {plain_of(p.args[0], r): plain_of(p.args[1], r) for p in t.args if p.op == 'p_kv' or (_ for _ in ()).throw(Und('dict'))}
    if t.op == 'inst':
        at = t.args[1]
        pairs = [(k, v) for k, v in (at if not isinstance(at, T) else at.args)]
        return ('inst', t.args[0], {str(k if not isinstance(k, T) else cval(k)): plain_of(v, r) for k, v in pairs})
    if t.op == 'ite':
        return plain_of(t.args[1] if plain_of(t.args[0], r) else t.args[2], r)
    if t.op == 'and':
        return all(plain_of(x, r) for x in t.args)
    if t.op == 'or':
        return any(plain_of(x, r) for x in t.args)
    if t.op in ('not', 'truthy'):
        return bool(plain_of(t.args[0], r)) == (t.op == 'truthy')
    if t.op == 'len':
        x = plain_of(t.args[0], r)
        return len(x[1] if isinstance(x, tuple) and x[:1] == ('vec',) else x)
    if t.op == 'eq':
        return plain_of(t.args[0], r) == plain_of(t.args[1], r)
    if t.op == 'call' and t.args[0] == 'numpy.array_equal':
        a, b = (plain_of(x, r) for x in (t.args[1].args if isinstance(t.args[1], T) else t.args[1]))
        kw = dict(t.args[2].args if isinstance(t.args[2], T) else t.args[2])
        nan = any(k == 'equal_nan' and v is TRUE for k, v in kw.items())
        if a[0] != 'vec' or b[0] != 'vec':
            raise Und('arrays')
        return len(a[1]) == len(b[1]) and all(x == y or nan and x != x and y != y for x, y in zip(a[1], b[1]))
    raise Und(show(t, 4))


def pairs_of_parts():
    """ (class, contents, other contents): equal exactly if the contents are """
    fd = lambda t, n: Obj('ULog._FieldData', type_str=t, field_name=n)
    out = [('ULog._FieldData', dict(field_name='a', type_str='int32_t'),
            [dict(field_name='A'), dict(field_name='a '), dict(field_name=''), dict(field_name='ab'), dict(field_name='b'), dict(type_str='uint32_t'),
             dict(type_str='int64_t'), dict(type_str='char'), dict(type_str='int8_t'), dict(field_name='int32_t', type_str='a')]),
           *[('ULog._FieldData', dict(field_name='a', type_str=x), [dict(type_str=y) for y in ('int8_t', 'uint8_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t', 'float', 'double', 'bool', 'char')
                                                                      if y != x]) for x in ('bool', 'char', 'float', 'uint64_t')],
           ('ULog.MessageDropout', dict(duration=100, timestamp=5), [dict(duration=101), dict(duration=0), dict(timestamp=6), dict(timestamp=0),
                                                                      dict(timestamp=-5), dict(duration=5, timestamp=100), dict(timestamp=5 + (1 << 53)),
                                                                      dict(duration=99, timestamp=6)]),
           ('ULog.MessageLogging', dict(log_level=54, timestamp=(1 << 60) + 1, message='Hello'),
            [dict(log_level=55), dict(log_level=6), dict(log_level=0), dict(timestamp=1 << 60), dict(timestamp=(1 << 60) + 2), dict(timestamp=0), dict(message='hello'),
             dict(message='Hello '), dict(message=''), dict(message='Hellp'), dict(message='Hello\n'), dict(message='Hallo')]),
           ('ULog.MessageLoggingTagged', dict(log_level=54, timestamp=(1 << 60) + 1, message='Hello', tag=7),
            [dict(log_level=55), dict(log_level=6), dict(timestamp=1 << 60), dict(timestamp=0), dict(message='hello'), dict(message='Hello '), dict(message=''),
             dict(message='Hello\n'), dict(tag=8), dict(tag=0), dict(tag=7 + 256), dict(tag=8, timestamp=(1 << 60))]),
           ('ULog.MessageFormat', dict(name='topic', fields=[('uint64_t', 0, 'timestamp'), ('float', 3, 'x'), ('int8_t', 2, '_padding0')]),
            [dict(name='topics'), dict(name='Topic'), dict(name=''), dict(fields=[]), dict(fields=[('uint64_t', 0, 'timestamp')]),
             dict(fields=[('uint64_t', 0, 'timestamp'), ('float', 3, 'x')]), dict(fields=[('uint64_t', 0, 'timestamp'), ('float', 3, 'x'), ('bool', 2, '_padding0')]),
             dict(fields=[('uint64_t', 0, 'timestamp'), ('float', 3, 'x'), ('int8_t', 2, '_padding0'), ('int8_t', 0, 'z')]),
             dict(fields=[('float', 3, 'x'), ('uint64_t', 0, 'timestamp'), ('int8_t', 2, '_padding0')]),
             dict(fields=[('uint64_t', 0, 'timestamp'), ('float', 3, 'y'), ('int8_t', 2, '_padding0')]),
             dict(fields=[('uint64_t', 0, 'timestamp'), ('float', 2, 'x'), ('int8_t', 2, '_padding0')]),
             dict(fields=[('uint64_t', 0, 'timestamp'), ('int32_t', 3, 'x'), ('int8_t', 2, '_padding0')]),
             dict(fields=[('uint64_t', 0, 'timestamp'), ('float', 3, 'x'), ('int8_t', 3, '_padding0')]),
             dict(fields=[('uint64_t', 0, 'timestamp'), ('float', 3, 'X'), ('int8_t', 2, '_padding0')]),
             dict(fields=[('uint64_t', 1, 'timestamp'), ('float', 3, 'x'), ('int8_t', 2, '_padding0')]),
             dict(fields=[('uint64_t', 0, 'timestamp'), ('float', 3, 'x'), ('int8_t', 2, '_padding0'), ('int8_t', 0, 'z')])])]
    nan = float('nan')
    A = X.Arr
    base = lambda: dict(multi_id=0, msg_id=1, name='topic', field_data=[fd('uint64_t', 'timestamp'), fd('float', 'x')], timestamp_idx=0,
                        data={'timestamp': A(1, 2, 3), 'x': A(0.5, nan, -1.5)})
    col = lambda **k: dict(data=dict(base()['data'], **k))
    out.append(('ULog.Data', base,
                [dict(multi_id=1), dict(msg_id=0), dict(msg_id=2), dict(name='topics'), dict(name=''), dict(timestamp_idx=1), dict(timestamp_idx=-1),
                 dict(field_data=[]), dict(field_data=[fd('uint64_t', 'timestamp')]), dict(field_data=[fd('float', 'x'), fd('uint64_t', 'timestamp')]),
                 dict(field_data=[fd('uint64_t', 'timestamp'), fd('double', 'x')]), dict(field_data=[fd('uint64_t', 'timestamp'), fd('float', 'y')]),
                 dict(field_data=[fd('uint64_t', 'timestamp'), fd('float', 'x'), fd('float', 'y')]),
                 dict(multi_id=1, msg_id=0), dict(data={}), dict(data={'timestamp': A(1, 2, 3)}), dict(data={'x': A(0.5, nan, -1.5)}),
                 dict(data={'timestamp': A(1, 2, 3), 'y': A(0.5, nan, -1.5)}), col(y=A(1, 2, 3)), col(x=A()), col(x=A(0.5, nan)), col(x=A(0.5, nan, -1.5, 0.)),
                 col(x=A(nan, 0.5, -1.5)), col(x=A(0.5, 0., -1.5)), col(x=A(0.5, nan, -1.4999)), col(x=A(0.5 + 1e-7, nan, -1.5)), col(x=A(nan, nan, nan)),
                 col(x=A(0.5, nan, 1.5)), col(timestamp=A(1, 2, 4)), col(timestamp=A(0, 2, 3)), col(timestamp=A(1, 3, 3)), col(timestamp=A(1, 2)),
                 dict(data={'timestamp': A(), 'x': A()}), col(timestamp=A(1, 2, 4), x=A(0.5, nan, -1.6))]))
    return out


def are_equal(cls, a, b):
    """ the verdict of the comparison of two objects with these contents """
    r = X.tool_run_self('pyulog.core', cls + '.__eq__', lambda host, run: host.lift(Obj(cls, **a)), [Obj(cls, **b)], selfonly=True)
    if r.raised:
        return 'raises', ', '.join(sorted({e[1] for e in r.escapes}))
    try:
        return 'value', plain_of(r.ret, r)
    except (Und, KeyError, TypeError, IndexError) as u:
        return None, str(u)


def told_apart(cls, attr, witness=()):
    """ are objects with other values of this attribute never equal (None: not known) """
    from .rules_query import ctor_attrs
    out = []
    for c, base, changes in pairs_of_parts():
        if c != cls:
            continue
        mk_ = base if callable(base) else (lambda base=base: dict(base))
        if (ctor_attrs(cls) or {None}) - set(mk_()):
            return None
        pairs = [(mk_(), dict(mk_(), **ch)) for ch in changes if set(ch) == {attr}]
        if witness:
            pairs = [(dict(mk_(), **{attr: witness[0]}), dict(mk_(), **{attr: witness[1]}))]
        for a, b in pairs + [p[::-1] for p in pairs]:
            kind, got = are_equal(cls, a, b)
            out.append(None if kind != 'value' or isinstance(got, tuple) else not got)
    return False if False in out else None if None in out or not out else True


@guard
def equality_pairs(R):
    """ parts of a log with given contents are equal exactly if the contents are """
    from .rules_query import ctor_attrs
    for cls, base, changes in pairs_of_parts():
        mk_ = base if callable(base) else (lambda base=base: dict(base))
        attrs = ctor_attrs(cls)
        w = W_EQ % cls
        if attrs is None or attrs - set(mk_()):
            R.und('equality.pairs', '%s: other attributes: %s' % (cls, sorted((attrs or set()) - set(mk_()))), w)
            continue
        for i, ch in enumerate([{}] + changes):
            for swap in (False, True) if ch else (False,):
                a, b = mk_(), dict(mk_(), **ch)
                if swap:
                    a, b = b, a
                lab = '%s: an object and another one with %s' % (cls, ', '.join('%s=%s' % (k, brief(x)) for k, x in ch.items()) or 'the same contents')
                R.saw('pairs', '%s/%d%s' % (cls, i, 'r' if swap else ''))
                kind, got = are_equal(cls, a, b)
                if kind == 'raises':
                    R.bad('equality.pairs', '%s: the comparison fails with %s' % (lab, got), w, 'equality.pairs:%s' % cls)
                    break
                if kind != 'value':
                    R.und('equality.pairs', '%s: %s' % (lab, got), w)
                    continue
                R.decide(bool(got) == (not ch) if not (isinstance(got, tuple)) else None, 'equality.pairs', '%s are%s equal' % (lab, ' not' if ch else ''), w,
                         '%s are%s equal' % (lab, '' if ch else ' not'), 'equality.pairs:%s:%s' % (cls, '+'.join(sorted(ch))))


def brief(x):
    if isinstance(x, X.Arr):
        return [brief(y) for y in x.items]
    if isinstance(x, Obj):
        return ' '.join(str(y) for y in x.attrs.values())
    if isinstance(x, dict):
        return {k: brief(v) for k, v in x.items()}
    if isinstance(x, list):
        return [brief(y) for y in x]
    return x if not isinstance(x, str) else repr(x)
