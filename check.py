#!/usr/bin/env python3
""" Decide one property of pyulog from its source: check.py <property id> """
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def known():
    out = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == 'finding:' and w[1].startswith('property=') and w[2].startswith('key='):
                out[(w[1][9:], w[2][4:])] = w[3].strip()
    return out


RULE_LIMIT = 150    # seconds for one rule


class TooLong(Exception):
    pass


def too_long(*_):
    raise TooLong('time limit of the rule')


def main():
    signal.signal(signal.SIGALRM, too_long)
    from sa.props import PROPS
    from sa.report import Report
    pid = sys.argv[1]
    prop = PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    os.environ['SA_TIER'] = tier
    t0 = time.time()
    R = Report(pid)
    rules = prop['rules']()
    for fn in rules:
        n0 = len(R.items)
        try:
            signal.alarm(RULE_LIMIT)
            fn(R)
        except Exception as e:  # pylint: disable=broad-except
            # the construct is outside of what the analysis understands: no verdict from this rule
            tb = traceback.extract_tb(e.__traceback__)[-1]
            R.und(fn.__name__, 'rule stopped: %s: %s (%s:%s)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename),
                                                              tb.lineno))
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
        finally:
            signal.alarm(0)
        if len(R.items) == n0:
            R.und(fn.__name__, 'rule had nothing to decide')
    ok, bad, und = R.by('ok'), R.by('violation'), R.by('undecided')
    kn = known()
    listed = [b for b in bad if (pid, b[3]) in kn]
    fresh = [b for b in bad if (pid, b[3]) not in kn]
    evdir = os.environ.get('SA_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join('evidence', '%s.replay.txt' % pid)
    cov = {
        'explanation': 'Static analysis of the current source: abstract interpretation of the entry points concerned '
                       '(values tracked as terms of provenance, loops generalised, guards kept), followed by the rules '
                       'listed under "rules". Nothing of the code under test is executed.',
        'rules': [{'rule': f.__name__, 'decides': (f.__doc__ or '').strip()} for f in rules],
        'obligations_decided': len(ok) + len(bad), 'obligations_held': len(ok), 'obligations_violated': len(fresh),
        'known_findings': len(listed), 'obligations_undecided': len(und),
        'analysed': {k: len(v) for k, v in sorted(R.analysed.items())},
        'samples': [{'rule': i[1], 'obligation': i[2][:300], 'at': i[4]} for i in pick(ok, 12)],
        'undecided': [{'rule': i[1], 'what': i[2][:300], 'at': i[4]} for i in und[:20]],
        'source': src_digest(),
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'assumptions': prop.get('assumes', []) + COMMON, 'wall_s': round(time.time() - t0, 3),
          'violations': len(fresh)}
    with open(os.path.join(evdir, '%s.json' % pid), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1)
    print('%s: %s' % (pid, prop['title']))
    print('%d obligations held, %d violated, %d known, %d undecided (%.1f s)' % (len(ok), len(fresh), len(listed), len(und),
                                                                                 time.time() - t0))
    for i in und[:6]:
        print('UNDECIDED %s: %s [%s]' % (i[1], i[2][:300], i[4]))
    seen = set()
    for b in listed:
        if b[3] not in seen:
            seen.add(b[3])
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[(pid, b[3])]))
    if fresh:
        with open(os.path.join(evdir, '%s.replay.txt' % pid), 'w', encoding='utf-8') as f:
            for b in fresh:
                f.write('property %s, rule %s\n  construct: %s\n  violation: %s\n  key: %s\n\n' % (pid, b[1], b[4], b[2], b[3]))
        for b in fresh[:10]:
            print('  %s: %s [%s]' % (b[1], b[2][:400], b[4]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    if not ok:
        print('nothing could be decided')
        return 2
    return 0


COMMON = ['the library functions of Python, numpy and sqlite3 behave as documented (modelled in sa/models.py)',
          'the source is not modified at run time (no monkey patching)']


def pick(l, n):
    step = max(1, len(l) // n)
    return l[::step][:n]


def src_digest():
    import hashlib
    from sa.scen import program, REPO
    h = hashlib.sha256()
    n = 0
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, 'pyulog'))):
        for f in sorted(files):
            if f.endswith(('.py', '.sql')):
                h.update(open(os.path.join(root, f), 'rb').read())
                n += 1
    return {'files': n, 'sha256': h.hexdigest()}


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Exception:       # pylint: disable=broad-exception-caught
        import traceback
        traceback.print_exc()
        print('the check could not be made')
        sys.exit(2)
