#!/usr/bin/env python3
""" mutate.py <file> <out> [every nth] [offset]: small edits of a source file; lists those that neither the tests nor the checks notice """
import ast, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
W = '/tmp/mut'
GROUPS = {'core': 'AB', 'db': 'C', 'migrate_db': 'D', 'ulog2csv': ['E01', 'E02', 'E12', 'E13', 'E14'], 'info': ['E04', 'E12', 'E13'], 'params': ['E03', 'E12', 'E13'], 'messages': ['E05', 'E12', 'E13'],
          'ulog2kml': ['E08', 'E12', 'E13'], 'extract_message': ['E15', 'E02', 'E12'], 'extract_gps_dump': ['E07', 'E12', 'E13'], 'ulog2ros2bag': ['E09', 'E12', 'E13', 'E14'],
          'px4': ['E10', 'E11'], 'px4_events': ['E06', 'E05', 'E14']}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
TXT = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '//', ast.BitAnd: '|', ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('print', 'isinstance', 'super'):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('add_argument', 'ArgumentParser'):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n) if x is not n}
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip |= {id(x) for x in ast.walk(n.body[0])}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.arg) and n.annotation:
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.FunctionDef) and n.returns:
            skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.If) and 'argv' in ast.dump(n.test) + '__main__' and '__name__' in ast.dump(n.test):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Try) and any('ImportError' in ast.dump(h.type) for h in n.handlers if h.type):
            skip |= {id(x) for x in ast.walk(n)}
    out = []

    def rep(n, new, what):
        s, e = pos(n)
        out.append((n.lineno, what, b[:s].decode() + new + b[e:].decode()))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0])
            l, r = seg(n.left), seg(n.comparators[0])
            rep(n, '(%s) %s (%s)' % (l, CMP[op], r), 'compare %s -> %s' % (TXT[op], CMP[op]))
            if op in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                rep(n, '(%s) %s (%s)' % (l, {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[TXT[op]], r), 'compare reversed %s' % TXT[op])
        elif isinstance(n, ast.BoolOp):
            vals = [seg(v) for v in n.values]
            rep(n, '((' + (') or (' if isinstance(n.op, ast.And) else ') and (').join(vals) + '))', 'and/or')
            for i in range(len(vals)):
                rest = vals[:i] + vals[i + 1:]
                rep(n, '((' + (') and (' if isinstance(n.op, ast.And) else ') or (').join(rest) + '))', 'operand %d dropped' % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(' + seg(n.operand) + ')', 'not dropped')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            l, r = seg(n.left), seg(n.right)
            rep(n, '((%s) %s (%s))' % (l, BIN[type(n.op)], r), 'operator -> %s' % BIN[type(n.op)])
            rep(n, '(%s)' % l, 'right operand dropped')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), 'bool')
            elif isinstance(v, int):
                rep(n, '(%d)' % (v + 1), '%d -> %d' % (v, v + 1))
                rep(n, '(%d)' % (v - 1), '%d -> %d' % (v, v - 1))
            elif isinstance(v, float):
                rep(n, repr(v * 2), 'float doubled')
            elif v is None:
                continue
            elif isinstance(v, str) and v and '\n' not in v and seg(n)[:1] in '\'"':
                rep(n, repr(v + 'x'), 'string %r changed' % v)
        elif isinstance(n, ast.If):
            rep(n.test, 'True', 'if True')
            rep(n.test, 'False', 'if False')
            if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                s, _ = pos(n.orelse[0])
                _, e = pos(n.orelse[-1])
                out.append((n.orelse[0].lineno, 'else dropped', b[:s].decode() + 'pass' + b[e:].decode()))
        elif isinstance(n, ast.IfExp):
            rep(n, '(' + seg(n.body) + ')', 'always body')
            rep(n, '(' + seg(n.orelse) + ')', 'always else')
        elif isinstance(n, (ast.Break, ast.Continue)):
            rep(n, 'pass', type(n).__name__ + ' dropped')
            rep(n, 'continue' if isinstance(n, ast.Break) else 'break', 'break/continue')
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise)) or isinstance(n, ast.Assign):
            rep(n, 'pass', 'statement dropped: ' + seg(n).split('\n')[0][:50])
            if isinstance(n, ast.AugAssign):
                rep(n, '%s = %s' % (seg(n.target), seg(n.value)), 'augmented -> plain')
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n.value, 'None', 'return None')
        elif isinstance(n, ast.Slice):
            lo, hi = n.lower, n.upper
            if lo is not None and not isinstance(lo, ast.Constant):
                rep(lo, '(%s)+1' % seg(lo), 'slice start + 1')
            if hi is not None and not isinstance(hi, ast.Constant):
                rep(hi, '(%s)-1' % seg(hi), 'slice end - 1')
        elif isinstance(n, ast.Call):
            f = seg(n.func)
            if f in ('sorted', 'list', 'set', 'reversed', 'int', 'str', 'float', 'bytes', 'bool', 'abs', 'tuple') and len(n.args) == 1 and not n.keywords:
                rep(n, '(%s)' % seg(n.args[0]), f + '() dropped')
            if f in ('max', 'min'):
                rep(n.func, {'max': 'min', 'min': 'max'}[f], 'max/min')
            if len(n.args) == 2 and not isinstance(n.args[0], ast.Starred) and not isinstance(n.args[1], ast.Starred):
                s, _ = pos(n.args[0])
                _, e = pos(n.args[1])
                out.append((n.lineno, 'arguments swapped', b[:s].decode() + seg(n.args[1]) + ', ' + seg(n.args[0]) + b[e:].decode()))
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    s, e = pos(k)
                    t = b[:s].decode()
                    u = t.rstrip()
                    if u.endswith(','):
                        out.append((n.lineno, 'keyword %s dropped' % k.arg, u[:-1] + b[e:].decode()))
        elif isinstance(n, ast.ListComp) or isinstance(n, ast.GeneratorExp):
            for g in n.generators:
                for c in g.ifs:
                    rep(c, 'True', 'comprehension filter dropped')
        elif isinstance(n, ast.ExceptHandler):
            if n.type is not None and isinstance(n.type, ast.Tuple):
                for i in range(len(n.type.elts)):
                    rep(n.type, '(' + ''.join(seg(x) + ', ' for j, x in enumerate(n.type.elts) if j != i) + ')', 'handler without ' + seg(n.type.elts[i]))
    seen, res = {src}, []
    for ln, what, t in sorted(out, key=lambda x: (x[0], x[1])):
        if t in seen:
            continue
        seen.add(t)
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append((ln, what, t))
    return res


def run(cmd, cwd, env, timeout):
    e = dict(os.environ)
    e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, ''


def main():
    name, outp = sys.argv[1], sys.argv[2]
    step, first = (int(x) for x in (sys.argv[3:] + ['1', '0'][len(sys.argv) - 3:])[:2])
    sys.path.insert(0, ROOT)
    from sa.props import PROPS
    g = GROUPS[name]
    props = [p for p in sorted(PROPS) if (p[0] in g if isinstance(g, str) else p in g)]
    src = open('/repo/pyulog/%s.py' % name, encoding='utf-8').read()
    ms = mutants(src)[first::step]
    lines = src.split('\n')
    log = open(outp, 'w')

    def one(k):
        ln, what, t = ms[k]
        d = '%s/%s-%d' % (W, name, k)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree('/repo/pyulog', d + '/pyulog', symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copytree('/repo/test', d + '/test', symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
        with open('%s/pyulog/%s.py' % (d, name), 'w', encoding='utf-8') as f:
            f.write(t)
        env = {'PYULOG_REPO': d, 'SA_EVIDENCE': d + '/ev', 'PYTHONDONTWRITEBYTECODE': '1'}
        hit, und = [], 0
        for p in props:
            c, o = run([sys.executable, ROOT + '/check.py', p], ROOT, env, 900)
            if c == 1:
                hit.append(p)
                break
            if c not in (0, 1):
                und += 100
            und += sum(1 for x in o.splitlines() if x.startswith('UNDECIDED'))
        res = 'caught ' + hit[0] if hit else ''
        if not hit:
            c, o = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--ignore=test/test_cli.py', '--ignore=test/test_px4_events.py', 'test'], d,
                       {'PYTHONPATH': d, 'PYTHONDONTWRITEBYTECODE': '1', 'PATH': '/opt/venv/bin:' + os.environ['PATH']}, 120)
            last = o.strip().splitlines()[-1] if o.strip() else ''
            res = ('SURVIVED und=%d' % und) if '37 passed' in last else 'tests und=%d %s' % (und, last[:40])
        shutil.rmtree(d, ignore_errors=True)
        return '%s:%d %s | %s | %s' % (name, ln, res, what, lines[ln - 1].strip()[:90])
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, range(len(ms))):
            log.write(r + '\n')
            log.flush()


if __name__ == '__main__':
    main()
