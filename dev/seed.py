#!/usr/bin/env python3
""" seed.py <seeds module> [id...]: make the planted bugs of a module, confirm them, run the checks on them """
import importlib, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
PY = '/opt/venv/bin/python'
W = os.environ.get('SEEDW', '/tmp/seedwork')


def run(cmd, cwd, env=None, timeout=300):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def one(sid, s):
    prop, fname, edits, demo, needs, breaks = s
    d = os.path.join(W, sid)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    run('git checkout -q -- .', d)
    files = edits if isinstance(edits, dict) else {fname: edits}
    for fn, eds in files.items():
        p = os.path.join(d, fn)
        t = open(p, encoding='utf-8').read()
        for old, new in eds:
            if t.count(old) != 1:
                return sid, 'EDIT %d matches of %r' % (t.count(old), old[:60])
            t = t.replace(old, new)
        open(p, 'w', encoding='utf-8').write(t)
    rc, diff = run('git diff', d)
    sd = os.path.join(os.path.dirname(HERE), 'seeded', sid)
    os.makedirs(sd, exist_ok=True)
    open(os.path.join(sd, 'patch.diff'), 'w', encoding='utf-8').write(diff)
    open(os.path.join(sd, 'demo.sh'), 'w').write('#!/bin/sh\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
    os.chmod(os.path.join(sd, 'demo.sh'), 0o755)
    open(os.path.join(sd, 'demo.py'), 'w', encoding='utf-8').write('from ulg import *\n' + demo.strip() + '\n')
    shutil.copy(os.path.join(HERE, 'ulg.py'), sd)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(sd, 'meta.json'), 'w'), indent=1)
    a, oa = run(['sh', os.path.join(sd, 'demo.sh')], '/repo', {'PYTHONDONTWRITEBYTECODE': '1'})
    b, ob = run(['sh', os.path.join(sd, 'demo.sh')], d, {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': d})
    out = []
    if a != 0:
        out.append('DEMO FAILS ON CLEAN: ' + oa[-300:])
    if b == 0:
        out.append('DEMO PASSES WITH BUG')
    t, ot = run([PY, '-m', 'pytest', '-q', '-x', '--deselect', 'nothing', 'test'] if False else
                [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--ignore=test/test_cli.py', '--ignore=test/test_px4_events.py', 'test'], d, {'PYTHONPATH': d, 'PYTHONDONTWRITEBYTECODE': '1', 'PATH': '/opt/venv/bin:' + os.environ['PATH']})
    last = ot.strip().splitlines()[-1] if ot.strip() else ''
    if '37 passed' not in last:
        out.append('TESTS ' + last)
    hits = []
    from sa.props import PROPS
    props = sorted(PROPS) if os.environ.get('ALL') else [prop]
    for p in props:
        if p not in PROPS:
            hits.append(p + ':-')
            continue
        c, oc = run([sys.executable, os.path.join(os.path.dirname(HERE), 'check.py'), p], os.path.dirname(HERE), {'PYULOG_REPO': d, 'SA_EVIDENCE': os.path.join(W, 'ev-' + sid)}, 900)
        if c == 1:
            hits.append(p)
            if p == prop:
                l = [x for x in oc.splitlines() if x.startswith('  ')]
                out.append('   ' + (l[0][:220] if l else ''))
        elif c != 0:
            hits.append('%s:rc%d' % (p, c))
    shutil.rmtree(d, ignore_errors=True)
    if any(x.startswith(('DEMO', 'TESTS')) for x in out):
        shutil.rmtree(sd)
        return sid, 'INVALID %s %s' % (prop, '\n'.join(out))
    return sid, '%s %s (%s) %s' % ('CAUGHT' if prop in hits else 'MISSED', prop, ' '.join(hits), '\n'.join(out))


def main():
    m = importlib.import_module(sys.argv[1])
    ids = sys.argv[2:] or sorted(m.SEEDS)
    os.makedirs(W, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        for sid, t in ex.map(lambda i: one(i, m.SEEDS[i]), ids):
            print(sid, t, flush=True)


if __name__ == "__main__":
    main()
    # bugs that only change lines of own commits are kept apart
    out = subprocess.run([sys.executable, os.path.join(HERE, "ownlines.py")], capture_output=True, text=True).stdout
    for l in out.splitlines():
        if l.endswith("own lines"):
            s = l.split()[0]
            dst = os.path.join(HERE, "seeded_own", s)
            shutil.rmtree(dst, ignore_errors=True)
            shutil.move(os.path.join(os.path.dirname(HERE), "seeded", s), dst)
