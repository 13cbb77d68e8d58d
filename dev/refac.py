#!/usr/bin/env python3
""" refac.py <module> [id...]: behaviour-preserving edits: every check must stay quiet """
import importlib, os, shutil, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.argv, args = sys.argv[:1], sys.argv[1:]
import seed
from seed import run, W, PY, HERE
sys.path.insert(0, os.path.dirname(HERE))


def one(sid, files):
    d = os.path.join(W, 'r-' + sid)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    run('git checkout -q -- .', d)
    for fn, eds in files.items():
        p = os.path.join(d, fn)
        t = open(p, encoding='utf-8').read()
        for old, new in eds:
            if t.count(old) != 1:
                return sid, 'EDIT %d matches of %r' % (t.count(old), old[:60])
            t = t.replace(old, new)
        open(p, 'w', encoding='utf-8').write(t)
    out = []
    if not os.environ.get('NOTEST'):
        t, ot = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--ignore=test/test_cli.py', '--ignore=test/test_px4_events.py', 'test'], d,
                {'PYTHONPATH': d, 'PYTHONDONTWRITEBYTECODE': '1', 'PATH': '/opt/venv/bin:' + os.environ['PATH']})
        last = ot.strip().splitlines()[-1] if ot.strip() else ''
        if '37 passed' not in last:
            out.append('TESTS ' + last)
    from sa.props import PROPS
    und = 0
    for p in os.environ['PROPS'].split() if 'PROPS' in os.environ else sorted(PROPS):
        c, oc = run([sys.executable, os.path.join(os.path.dirname(HERE), 'check.py'), p], os.path.dirname(HERE), {'PYULOG_REPO': d, 'SA_EVIDENCE': os.path.join(W, 'ev-r-' + sid)}, 900)
        if c != 0:
            l = [x for x in oc.splitlines() if x.startswith('  ')]
            out.append('  ALARM %s rc=%d %s' % (p, c, l[0][:260] if l else oc[-200:]))
        u = [x for x in oc.splitlines() if x.startswith('UNDECIDED')]
        und += len(u)
        if u and os.environ.get('SHOWUND'):
            out.append('  %s %s' % (p, u[0][:220]))
    shutil.rmtree(d, ignore_errors=True)
    return sid, 'undecided lines %d' % und + ''.join('\n' + x for x in out)


m = importlib.import_module(args[0])
ids = args[1:] or sorted(m.REFAC)
os.makedirs(W, exist_ok=True)
with ThreadPoolExecutor(8) as ex:
    for sid, t in ex.map(lambda i: one(i, m.REFAC[i]), ids):
        print(sid, t, flush=True)
