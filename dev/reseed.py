#!/usr/bin/env python3
""" reseed.py [prefix...]: run the checks again on every kept planted bug (no demos, no tests); rewrites results.json """
import glob, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
W = '/tmp/reseed'


def one(sid):
    sd = os.path.join(TOP, 'seeded', sid)
    if not os.path.isdir(sd):
        sd = os.path.join(HERE, 'seeded_sql', sid)
    if not os.path.isdir(sd):
        sd = os.path.join(HERE, 'seeded_own', sid)
    prop = json.load(open(sd + '/meta.json'))['property']
    d = os.path.join(W, sid)
    os.makedirs(d)
    try:
        shutil.copytree('/repo/pyulog', d + '/pyulog', symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
        p = subprocess.run(['git', 'apply', '--unsafe-paths', sd + '/patch.diff'], cwd=d, capture_output=True, env=dict(os.environ, GIT_CEILING_DIRECTORIES=W))
        if p.returncode:
            return sid, prop, 'NOPATCH ' + p.stderr.decode()[:100]
        p = subprocess.run([sys.executable, TOP + '/check.py', prop], cwd=TOP, capture_output=True, env=dict(os.environ, PYULOG_REPO=d, SA_EVIDENCE=W + '/ev-' + sid))
        o = p.stdout.decode()
        if p.returncode == 1:
            l = [x.strip() for x in o.splitlines() if x.startswith('  ')]
            return sid, prop, 'caught ' + (l[0][:160] if l else '')
        return sid, prop, 'MISSED rc=%d %s' % (p.returncode, o.strip().splitlines()[-1][:150] if o.strip() else p.stderr.decode()[-200:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(W + '/ev-' + sid, ignore_errors=True)


def main():
    ids = [os.path.basename(x) for x in sorted(glob.glob(TOP + '/seeded/*') + glob.glob(HERE + '/seeded_sql/*') + glob.glob(HERE + '/seeded_own/*')) if not sys.argv[1:] or os.path.basename(x).startswith(tuple(sys.argv[1:]))]
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    rp = os.path.join(HERE, 'results.json')
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    n = 0
    with ThreadPoolExecutor(8) as ex:
        for sid, prop, t in ex.map(one, ids):
            res[sid] = prop if t.startswith('caught') else 'missed'
            n += t.startswith('caught')
            if not t.startswith('caught'):
                print(sid, prop, t, flush=True)
    res = {k: v for k, v in sorted(res.items()) if os.path.isdir(os.path.join(TOP, 'seeded', k)) or os.path.isdir(os.path.join(HERE, 'seeded_sql', k)) or os.path.isdir(os.path.join(HERE, 'seeded_own', k))}
    json.dump(res, open(rp, 'w'), indent=0)
    print('%d of %d caught' % (n, len(ids)))
    shutil.rmtree(W, ignore_errors=True)


if __name__ == '__main__':
    main()
