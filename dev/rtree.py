""" rtree.py <module> <id>: leave a tree with that refactoring applied in /tmp/seedwork/t """
import sys, os, shutil, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
m = importlib.import_module(sys.argv[1])
d = '/tmp/seedwork/t'
shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo', d, symlinks=True)
os.system('cd %s && git checkout -q -- .' % d)
for fn, eds in m.REFAC[sys.argv[2]].items():
    p = os.path.join(d, fn); t = open(p).read()
    for a, b in eds:
        assert t.count(a) == 1, a
        t = t.replace(a, b)
    open(p, 'w').write(t)
