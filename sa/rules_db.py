""" Rules about the database form of a log: what is stored, how it is read back, and the schema """
import ast
import functools
import os
from .rules_data import *
from .rules_data import same
from .rules_write import unwrap, merged_by
from .rules_query import ctor_attrs
from .scen import db_run, func_run, program
from .view import _cache, pubmap, where_of
from . import sql as S

LOG = mk('sym', 'ulog')
PK = mk('attr', LOG, '_pk')
INT, TEXT, ANY, BLOB = 'int', 'text', 'any', 'blob'


_alive = []


def cached(key, fn):
    if key not in _cache:
        _alive.append(fn)    # keys may name objects by their identity
        try:
            _cache[key] = fn()
        except Und as e:
            _cache[key] = e
    if isinstance(_cache[key], Und):
        raise _cache[key]
    return _cache[key]


# ---------------------------------------------------------------- schema

def repo():
    return program().root


def migration_files():
    d = os.path.join(repo(), 'pyulog', 'sql')
    out = {}
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        p = f.split('.')
        if len(p) == 3 and p[0] == 'pyulog' and p[2] == 'sql' and p[1].isdigit():
            out[int(p[1])] = open(os.path.join(d, f), encoding='utf-8').read()
    return out


def schema_version():
    def get():
        it, st = None, None
        from .scen import new_interp
        it, st = new_interp('pyulog.db')
        c = it.resolve('pyulog.db', 'DatabaseULog', st)
        v = it.class_attr(c, 'SCHEMA_VERSION', st) if hasattr(it, 'class_attr') else None
        if v is None:
            import ast
            for n in ast.walk(program().tree('pyulog.db')):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'SCHEMA_VERSION' for t in n.targets) \
                        and isinstance(n.value, ast.Constant):
                    return n.value.value
            raise Und('no schema version')
        return cval(v)
    return cached('schema_version', get)


def schema():
    def build():
        s = S.Schema()
        files = migration_files()
        for i in range(1, schema_version() + 1):
            if i not in files:
                raise Und('migration file %d is missing' % i)
            try:
                s.run(files[i])
            except S.SqlUnknown as e:
                raise Und('migration file %d: %s' % (i, e))
        return s
    return cached('schema', build)


# ---------------------------------------------------------------- statements of the code

def ites(t):
    return [x for x in walk(t) if x.op == 'ite']


def variants(sqlt, params):
    """ the texts a statement can have, with the parameters that go with each """
    out = []

    def go(s, p, depth):
        if is_const(s):
            out.append((cval(s), p))
            return
        cs = ites(s)
        if not cs or depth > 4:
            out.append((None, p))
            return
        c = cs[0].args[0]
        for v in (TRUE, FALSE):
            go(subst(s, {c: v}), subst(p, {c: v}), depth + 1)
    go(sqlt, params, 0)
    return out


class Q:
    """ one statement at one place, in one variant """


def parse_stmt(text):
    key = ('sql', text)
    if key not in _cache:
        try:
            _cache[key] = S.parse_one(text)
        except S.SqlUnknown as e:
            _cache[key] = e
    return _cache[key]


def stmts_of(r, key):
    """ all statements that a run sends to the database """
    def build():
        out = []
        for e in r.trace:
            if e.kind != 'sql':
                continue
            conn, text, params, how = e.args
            for txt, p in variants(text, params):
                q = Q()
                q.e, q.conn, q.text, q.params, q.how = e, conn, txt, p, cval(how)
                q.where = where_of(e)
                q.s = parse_stmt(txt) if isinstance(txt, str) and q.how != 'executescript' else None
                q.term = text
                out.append(q)
        return out
    return cached(('stmts', key), build)


def dbrun(meth, *args, **kw):
    key = ('dbrun', meth, args, tuple(sorted(kw.items())))
    return cached(key, lambda: db_run(meth, list(args), dict(kw)))


APPEND = mk('sym', 'append_json')


def save_run():
    return dbrun('save', APPEND)


def load_run():
    return dbrun('load', FALSE)


def lazy_run():
    return dbrun('load', TRUE)


def get_run(lazy=None, caching=None):
    return dbrun('get_dataset', mk('sym', 'name'), mk('sym', 'multi'), *([lazy] if lazy is not None else [mk('sym', 'lazy')]),
                 NONE, caching if caching is not None else mk('sym', 'caching'))


RUNS = {'save': save_run, 'load': load_run, 'lazy load': lazy_run, 'get_dataset': get_run,
        'delete': lambda: dbrun('delete')}


def static_runs():
    h = mk('sym', 'db_handle')

    def handle(it, st):
        pass
    return {}


def all_statements():
    out = []
    for n, f in RUNS.items():
        out += [(n, q) for q in stmts_of(f(), n)]
    for n, f in (('exists_in_db', exists_run), ('primary_key_from_sha256sum', hash_run)):
        out += [(n, q) for q in stmts_of(f(), n)]
    return out


def static_run(meth, *args):
    def go():
        from .scen import new_interp, finish
        it, st = new_interp('pyulog.db')
        hv, st = it.run('pyulog.db', 'DatabaseULog.get_db_handle', [mk('sym', 'db_path')], {}, st=st)
        v, st = it.run('pyulog.db', 'DatabaseULog.' + meth, [hv] + list(args), {}, st=st)
        return finish(it, st, v)
    return cached(('static', meth, args), go)


def exists_run():
    return static_run('exists_in_db', mk('sym', 'primary_key'))


def hash_run():
    return static_run('primary_key_from_sha256sum', mk('sym', 'sha256sum'))


# ---------------------------------------------------------------- paths into a log

def made_of(src):
    """ (item, conditions, what it runs over) of a list that a comprehension made of something else """
    if src.op != 'ref':
        return None
    for r in (_cache.get(('dbrun', 'save', (APPEND,), ())), _cache.get(('dbrun', 'load', (FALSE,), ()))):
        if r is None or isinstance(r, Exception):
            continue
        f = r.it.freeze(r.st, src)
        if f.op != 'list' or len(f.args) != 1 or f.args[0].op != 'p_each':
            continue
        e, conds = f.args[0], []
        body = e.args[2]
        while len(body) == 1 and body[0].op == 'p_cond' and (not body[0].args[1] or not body[0].args[2]):
            c = body[0].args[0]
            conds.append(c if body[0].args[1] else lnot(c))
            body = body[0].args[1] or body[0].args[2]
        if len(body) == 1 and body[0].op == 'p_item':
            return body[0].args[0], conds, e.args[1]
    return None


def path(t, al=None):
    """ which part of the log a value is: a tuple of steps, or None.  Steps: '*' element, 'key', 'val', '.name', '[i]', 'index' """
    if t.op == 'last' and len(t.args) == 2:
        return path(t.args[1], al)
    if t.op == 'attr':
        if t.args[0] is LOG:
            return (t.args[1],)
        b = path(t.args[0], al)
        return b and b + ('.' + t.args[1],)
    if t.op == 'elem':
        src = t.args[1]
        if src.op == 'keys':
            b = path(src.args[0], al)
            return b and b + ('key',)
        if src.op == 'values':
            b = path(src.args[0], al)
            return b and b + ('val',)
        x = made_of(src)
        if x is not None:
            return path(x[0], al)
        if src.op in ('list', 'tuple', 'sorted', 'reversed', 'iter'):
            src = unwrap(src) if src.op != 'reversed' else src.args[0]
        b = path(src, al) if src is not t.args[1] or src.op in ('attr', 'elem', 'sub') else None
        return b and b + ('*',)
    if t.op == 'idx':
        x = made_of(t.args[1])
        if x is not None and not x[1]:
            b = path(x[2], al)
            return b and b + ('index',)
        b = path(t.args[1], al)
        return b and b + ('index',)
    if t.op == 'sub':
        b = path(t.args[0], al)
        if b is None:
            return None
        if is_num(t.args[1]):
            return b + ('[%d]' % cval(t.args[1]),)
        k = path(t.args[1], al)
        if k is not None:
            if k[-1] == 'index' and k[:-1] == b:
                return b + ('*',)
            if k == b + ('key',):
                return b + ('val',)
            if al is not None:
                al.append((b + ('key',), k))
            return b + ('val',)
        return None
    if t.op == 'list' and len(t.args) == 1 and isinstance(t.args[0], T) and t.args[0].op == 'p_spread':
        return path(t.args[0].args[0], al)
    return None


def codec(t, al=None):
    """ (path, how it is stored) of a saved value """
    p = path(t, al)
    if p is not None:
        return p, 'plain'
    if t.op == 'last' and len(t.args) == 2:
        return codec(t.args[1], al)
    if t.op == 'join' and is_const(t.args[0]) and cval(t.args[0]) == '' and t.args[1].op in ('list', 'tuple', 'gen'):
        b = t.args[1].args
        if len(b) == 1 and b[0].op == 'p_each' and len(b[0].args[2]) == 1 and b[0].args[2][0].op == 'p_item':
            x = b[0].args[2][0].args[0]
            if x.op == 'chr':
                p = path(x.args[0], al)
                return (p, 'chr') if p else None
    if t.op == 'join' and is_const(t.args[0]) and cval(t.args[0]) == '':
        e = [x for x in walk(t) if x.op == 'p_each']
        if len(e) == 1 and len(e[0].args[2]) == 1 and e[0].args[2][0].op == 'p_item' and e[0].args[2][0].args[0].op == 'chr':
            p = path(e[0].args[2][0].args[0].args[0], al)
            return (p, 'chr') if p else None
    if t.op == 'mcall' and t.args[1] == 'tobytes' and not t.args[2] and not t.args[3]:
        p = path(t.args[0], al)
        return (p, 'bytes') if p else None
    if t.op in ('int', 'bool') and len(t.args) == 1 and isinstance(t.args[0], T):
        c = codec(t.args[0], al)
        return c and (c[0], 'int' if c[1] == 'plain' else None)
    if t.op == 'ite':
        k = sampled(t)
        return (path(k[0], al), 'plain') if k and k[1] is None else None
    return None


def sampled(t):
    """ a value that is chosen by conditions on one part of the log: (the part, a value of it that is changed) """
    xs = []

    def find(x):
        if path(x) is not None:
            if x not in xs:
                xs.append(x)
            return
        for a in x.args:
            if isinstance(a, T):
                find(a)
    find(t)
    if len(xs) != 1:
        return None
    p = path(xs[0])
    k = kind_of(p, 'plain')
    reps = {INT: (0, 1, 5, -1, 300), TEXT: ('', 'a', ' a '), ANY: (0, 1, -7, 1.5, '', 'a')}.get(k)
    if reps is None:
        return None
    for v in reps:
        y = subst(t, {xs[0]: C(v)})
        if not is_const(y):
            return None
        if cval(y) != v or type(cval(y)) is not type(v):
            return xs[0], v
    return xs[0], None


CHANGES = {'add', 'mul', 'sub_', 'poly', 'floordiv', 'mod', 'strip', 'lower', 'upper', 'replace', 'slice', 'round', 'abs', 'strcat', 'lstrip',
           'rstrip', 'and', 'or', 'not', 'lt', 'le', 'eq', 'len', 'sorted', 'reversed', 'shr', 'shl', 'bitand', 'bitor', 'max', 'min', 'float',
           'str', 'trunc', 'div'}


def changed_path(t):
    """ a value that is certainly computed from a part of the log and not that part """
    if is_const(t):
        return True
    if t.op in CHANGES:
        return True
    if t.op == 'ite':
        k = sampled(t)
        if k and k[1] is not None:
            return True
        if k is None or isinstance(t.args[0], T) and any(x.op == 'isinstance' for x in walk(t.args[0])):
            # one case holds the part, the other something computed from it
            a, b = (strip_last(x) for x in t.args[1:3])
            return any(path(y) is not None and (x.op in ('strop', 'strip', 'slice', 'lower', 'upper', 'replace', 'round', 'poly', 'add', 'mul', 'abs',
                                                         'decode', 'encode', 'int', 'float', 'str') or changed_path(x)) and
                       any(z is y for z in walk(x)) for x, y in ((a, b), (b, a)))
        return False
    if t.op == 'strop':
        return True
    if t.op == 'ord' and t.args and isinstance(t.args[0], T):
        b = strip_last(t.args[0])
        x = strip_last(b.args[1]) if b.op == 'elem' and len(b.args) > 1 and isinstance(b.args[1], T) else None
        if x is not None and (x.op in ('strop', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace') or
                              x.op == 'mcall' and x.args[1] in ('strip', 'lower', 'upper', 'lstrip', 'rstrip', 'replace')):
            return True
    if t.op == 'mcall' and t.args[1] in ('strip', 'lower', 'upper', 'lstrip', 'rstrip', 'replace', 'astype', 'title', 'capitalize', 'round'):
        return True
    return False


# ---------------------------------------------------------------- what save stores

class Ins:
    pass


def flat_parts(parts, loops, conds):
    for p in parts:
        if p.op == 'p_each':
            yield from flat_parts(p.args[2], loops + [(p.args[0], p.args[1])], conds)
        elif p.op == 'p_cond':
            yield from flat_parts(p.args[1], loops, conds + [p.args[0]])
            yield from flat_parts(p.args[2], loops, conds + [lnot(p.args[0])])
        elif p.op == 'p_item':
            yield p.args[0], loops, conds
        else:
            yield p, loops, conds


def row_values(row, n):
    """ the n values of a parameter tuple """
    if row.op == 'plus':
        # a tuple of unknown length and known ones
        kn = [row_values(x, None) if x.op in ('tuple', 'list') else None for x in row.args]
        if sum(k is None for k in kn) > 1 or n is None:
            return None
        rest = n - sum(len(k) for k in kn if k is not None)
        if rest < 0:
            return None
        return [v for x, k in zip(row.args, kn) for v in (k if k is not None else [mk('sub', x, C(i)) for i in range(rest)])]
    if row.op not in ('tuple', 'list'):
        return None
    args = list(row.args)
    if n is None and any(a.op in ('star', 'p_spread', 'spread', 'p_each', 'p_cond') for a in args):
        return None
    out = []
    for a in args:
        if a.op == 'p_item':
            a = a.args[0]
        if a.op in ('star', 'p_spread', 'spread'):
            k = n - (len(args) - 1)
            src = a.args[0]
            if src.op in ('tuple',):
                out += list(src.args)
            elif k >= 0 and sum(x.op in ('star', 'p_spread', 'spread') for x in args) == 1:
                out += [mk('sub', src, C(i)) for i in range(k)]
            else:
                return None
        elif a.op in ('p_each', 'p_cond'):
            return None
        else:
            out.append(a)
    return out


def inserts():
    """ the rows that save stores: one entry per INSERT and variant """
    def build():
        r = save_run()
        out = []
        for q in stmts_of(r, 'save'):
            if q.s is None or isinstance(q.s, Exception) or q.s.kind != 'insert':
                continue
            base = Ins()
            base.q, base.s, base.e, base.where = q, q.s, q.e, q.where
            base.table = q.s.table
            n = q.s.params
            items = []
            loops0 = [(l[0], l[1] if len(l) > 1 else None) for l in q.e.loops]
            if q.how == 'executemany':
                for row, loops, conds in flat_parts(q.params.args if q.params.op in ('list', 'tuple', 'gen') else (), loops0, []):
                    items.append((row, loops, conds))
                if not items:
                    items.append((None, loops0, []))
            else:
                items.append((q.params, loops0, []))
            for row, loops, conds in items:
                i = Ins()
                i.__dict__.update(base.__dict__)
                i.loops, i.conds, i.many = loops, conds, q.how == 'executemany'
                i.values, i.wrap = {}, {}
                i.problem = None
                t = schema().table(q.s.table)
                cols = q.s.cols or ([c.name for c in t.cols] if t else [])
                i.cols = cols
                if q.s.rows is None or len(q.s.rows) != 1:
                    i.problem = 'not a single row'
                    out.append(i)
                    continue
                exprs = q.s.rows[0]
                if row is not None and row.op == 'dict':
                    named = {cval(p.args[0]): p.args[1] for p in row.args if p.op == 'p_kv' and is_const(p.args[0])}
                    vals = None
                else:
                    named = None
                    vals = row_values(row, n) if row is not None else None
                i.nvals = len(vals) if vals is not None else None
                if len(cols) == len(exprs):
                    for c, x in zip(cols, exprs):
                        wrap = None
                        if x[0] == 'call' and len(x[2]) == 1:
                            wrap, x = x[1], x[2][0]
                        if x[0] == 'param':
                            v = None
                            if isinstance(x[1], str) and named is not None:
                                v = named.get(x[1][1:])
                            elif vals is not None and isinstance(x[1], int) and x[1] < len(vals):
                                v = vals[x[1]]
                            if v is not None:
                                i.values[c.lower()] = v
                                i.wrap[c.lower()] = wrap
                        elif x[0] in ('num', 'str'):
                            i.values[c.lower()] = C(x[1])
                        elif x[0] == 'null':
                            i.values[c.lower()] = NONE
                out.append(i)
        if not out:
            raise Und('save inserts nothing recognisable')
        return out
    return cached('inserts', build)


def stored():
    """ (table, column) -> [(path, codec, value, insert)] """
    def build():
        al = []
        out = {}
        for i in inserts():
            for c, v in i.values.items():
                cd = codec(v, al)
                out.setdefault((i.table.lower(), c), []).append((cd[0] if cd else None, cd[1] if cd else None, v, i))
        return out, al
    return cached('stored', build)


class Alias:
    def __init__(self, pairs):
        self.to = {}
        for a, b in pairs:
            a, b = self.find(a), self.find(b)
            if a != b:
                self.to[a] = b

    def find(self, p):
        while p in self.to:
            p = self.to[p]
        return p


def aliases():
    def build():
        _, al = stored()
        tag = ('_logged_messages_tagged', 'val', '*', '.tag')
        return Alias(al + [(tag, ('_logged_messages_tagged', 'key')),
                           (('_message_formats', 'val', '.name'), ('_message_formats', 'key'))])
    return cached('aliases', build)


# ---------------------------------------------------------------- what load builds

class Leaf:
    def __init__(self, path, term, conds, e, loops):
        self.path, self.term, self.conds, self.e, self.loops = path, term, conds, e, loops


def strip_last(t):
    while t.op == 'last' and len(t.args) == 2:
        t = t.args[1]
    return t


def loaded(run=None):
    """ the parts of the log that load sets, with the value of each """
    r = run or load_run()

    def build():
        it, st = r.it, r.st
        edges = {}              # ref -> [(container term, step)]
        facts = []              # (container term, step, value, event)
        has = set()
        for e in r.trace:
            if e.kind == 'setattr' and isinstance(e.args[0], T) and isinstance(e.args[2], T):
                a = e.args[1] if isinstance(e.args[1], str) else cval(e.args[1])
                facts.append((e.args[0], '.' + a, e.args[2], e))
            elif e.kind in ('append', 'extend', 'insert') and len(e.args) > 1 and isinstance(e.args[0], T):
                facts.append((e.args[0], '*' if e.kind != 'extend' else '**', e.args[-1], e))
            elif e.kind == 'setitem':
                facts.append((e.args[0], 'key', e.args[1], e))
                facts.append((e.args[0], 'val', e.args[2], e))
        for c, step, v, e in facts:
            v = strip_last(v)
            if v.op == 'ref':
                edges.setdefault(v, []).append((c, step))
            if c.op == 'ref':
                has.add(c)

        def where_is(c, depth=0):
            """ paths of a container """
            c = strip_last(c)
            if depth > 8:
                return []
            if c is LOG:
                return [()]
            if c.op == 'ref':
                out = []
                for p, step in edges.get(c, []):
                    out += [x + ((step[1:],) if p is LOG and step[0] == '.' else (step,)) for x in where_is(p, depth + 1)]
                return out
            if c.op == 'attr':
                return [x + ((c.args[1],) if c.args[0] is LOG else ('.' + c.args[1],)) for x in where_is(c.args[0], depth + 1)]
            if c.op == 'sub':
                return [x + ('*' if is_num(c.args[1]) else 'val',) for x in where_is(c.args[0], depth + 1)]
            if c.op == 'mcall' and c.args[1] in ('setdefault', 'get'):
                return [x + ('val',) for x in where_is(c.args[0], depth + 1)]
            if c.op == 'ite':
                out = []
                for x in c.args[1:]:
                    for w in where_is(x, depth + 1):
                        if w not in out:
                            out.append(w)
                return out
            return []
        leaves = []

        def structure(p, v, conds, e, loops, depth=0):
            v = strip_last(v)
            if v.op == 'ref':
                if v in has and it.kind.get(v) in ('list', 'dict', 'set'):
                    # its contents arrive by events; static parts of the display do too
                    for q in st.cells.get(('S', v), ()):
                        if q[0] == 'item' and isinstance(q[1], T):
                            pass
                    return
                k = it.kind.get(v)
                if k == 'inst' or v in has:
                    return
                v = it.freeze(st, v)
                if v.op == 'ref' or depth > 6:
                    return
            if v.op in ('list', 'tuple', 'dict', 'set', 'gen'):
                n = 0
                for q in v.args:
                    part(p, q, conds, e, loops, depth + 1, v.op, n)
                    n += 1
                return
            if v.op == 'rows':
                leaves.append(Leaf(p + ('*',), mk('elem', 'all', v), conds, e, loops))
                return
            if v.op == 'inst':
                for f, x in v.args[1]:
                    structure(p + ('.' + f,), x, conds, e, loops, depth + 1)
                return
            leaves.append(Leaf(p, v, conds, e, loops))

        def part(p, q, conds, e, loops, depth, kind, n):
            if q.op == 'p_item':
                structure(p + (('[%d]' % n) if kind == 'tuple' else '*',), q.args[0], conds, e, loops, depth)
            elif q.op == 'p_kv':
                structure(p + ('key',), q.args[0], conds, e, loops, depth)
                structure(p + ('val',), q.args[1], conds, e, loops, depth)
            elif q.op == 'p_each':
                for x in q.args[2]:
                    part(p, x, conds, e, loops + [(q.args[0], q.args[1])], depth, 'list' if kind == 'tuple' else kind, n)
            elif q.op == 'p_cond':
                for x in q.args[1]:
                    part(p, x, conds + [q.args[0]], e, loops, depth, kind, n)
                for x in q.args[2]:
                    part(p, x, conds + [lnot(q.args[0])], e, loops, depth, kind, n)
            elif q.op in ('p_spread', 'spread'):
                src = q.args[0]
                if src.op == 'rows' and kind == 'dict':
                    x = mk('elem', 'all', src)
                    leaves.append(Leaf(p + ('key',), mk('sub', x, C(0)), conds, e, loops))
                    leaves.append(Leaf(p + ('val',), mk('sub', x, C(1)), conds, e, loops))
                elif src.op == 'rows':
                    leaves.append(Leaf(p + ('*',), mk('elem', 'all', src), conds, e, loops))
                else:
                    leaves.append(Leaf(p + ('**',), src, conds, e, loops))
            else:
                structure(p + (('[%d]' % n) if kind == 'tuple' else '*',), q, conds, e, loops, depth)
        for c, step, v, e in facts:
            w = strip_last(v)
            if step == '**' and w.op == 'ref' and it.kind.get(w) in ('list', 'set'):
                w = it.freeze(st, w)
            spread = step == '**' and w.op in ('list', 'tuple', 'gen', 'set', 'rows')
            for base in where_is(c):
                p = base if spread else base + ((step[1:],) if c is LOG else (step,))
                if spread:
                    structure(p, w, [], e, [(l[0], l[1] if len(l) > 1 else None) for l in e.loops])
                    continue
                loops = [(l[0], l[1] if len(l) > 1 else None) for l in e.loops]
                structure(p, v, [], e, loops)
        for x in leaves:
            x.r = r
        return leaves
    _alive.append(r)
    return cached(('loaded', id(r)), build)


def column_of(t):
    """ (query, index or slice, wrap) of a value that comes out of the database """
    t = strip_last(t)
    if t.op == 'sub' and is_num(t.args[1]):
        b, i = strip_last(t.args[0]), cval(t.args[1])
        while b.op == 'slice' and is_num(b.args[1]) and cval(b.args[1]) >= 0 and i >= 0:
            i += cval(b.args[1])
            b = strip_last(b.args[0])
        if b.op == 'row':
            return b.args[0], i
        if b.op == 'elem' and b.args[1].op == 'rows':
            return b.args[1].args[0], i
    return None


def select_of(query):
    txt = query.args[0]
    if not is_const(txt):
        return None
    s = parse_stmt(cval(txt))
    return s if not isinstance(s, Exception) and s.kind == 'select' else None


def table_col(sel, e):
    """ (table name, column name) an expression of a SELECT denotes """
    sc = schema()
    if e[0] != 'col':
        return None
    cands = []
    for n, a in sel.tables:
        if e[1] is not None and e[1].lower() != a.lower():
            continue
        t = sc.table(n)
        if t is None:
            return None
        if t.col(e[2]):
            cands.append((t.name, t.col(e[2]).name))
    return cands[0] if len(cands) == 1 else None


def columns_of(sel):
    """ the result columns, `*` expanded """
    out = []
    sc = schema()
    for e in sel.cols:
        if e[0] == 'star':
            for n, a in sel.tables:
                if e[1] is None or e[1].lower() == a.lower():
                    t = sc.table(n)
                    if t is None:
                        raise Und('no table %s' % n)
                    out += [(t.name, c.name) for c in t.cols]
        else:
            out.append(table_col(sel, e))
    return out


def null_test(c):
    """ (True if the condition says that a value is NULL, the value) """
    neg = c.op == 'not'
    c = c.args[0] if neg else c
    if c.op in ('is', 'eq') and NONE in c.args:
        return not neg, [x for x in c.args if x is not NONE][0]
    return True, None


def same_value(a, b):
    return strip_last(a) is strip_last(b)


def loads():
    """ [(path, (table, column) or None, codec, leaf, query)] """
    def build():
        out = []
        for l in loaded():
            if l.path and l.path[0] in ('_db', '_pk', flag_attr()[0]):
                continue
            t = strip_last(l.term)
            # a whole row or a part of it
            if t.op == 'elem' and t.args[1].op == 'rows':
                sel = select_of(t.args[1].args[0])
                if sel:
                    for i, c in enumerate(columns_of(sel)):
                        out.append((l.path + ('[%d]' % i,), c, 'plain', l, t.args[1].args[0]))
                    continue
            if t.op == 'slice' and t.args[0].op == 'elem' and t.args[0].args[1].op == 'rows' and is_num(t.args[1]):
                sel = select_of(t.args[0].args[1].args[0])
                hi = t.args[2] if len(t.args) > 2 else NONE
                if sel and (hi is NONE or is_num(hi)):
                    cs = columns_of(sel)
                    part = cs[cval(t.args[1]):cval(hi) if hi is not NONE else None]
                    for i, c in enumerate(part):
                        out.append((l.path + ('[%d]' % i,), c, 'plain', l, t.args[0].args[1].args[0]))
                    continue
            how = 'plain'
            x = t
            if x.op == 'ite':
                nul, c = null_test(x.args[0])
                a, b = x.args[1:] if nul else (x.args[2], x.args[1])
                if c is not None and same_value(b, c) and is_const(a) and cval(a) != cval(a):
                    how, x = 'nan', b
            if x.op in ('bool', 'int') and len(x.args) == 1:
                how, x = 'int', x.args[0]
            elif x.op == 'ord':
                b = strip_last(x.args[0])
                if b.op == 'elem':
                    how, x = 'chr', b.args[1]
            elif x.op == 'call' and x.args[0] == 'numpy.frombuffer' and x.args[1]:
                how, x = 'bytes', x.args[1][0]
            c = column_of(x)
            if c is not None:
                sel = select_of(c[0])
                cols = columns_of(sel) if sel else []
                out.append((l.path, cols[c[1]] if -len(cols) <= c[1] < len(cols) else None, how, l, c[0]))
            else:
                out.append((l.path, None, None, l, None))
        if not out:
            raise Und('load builds nothing recognisable')
        return out
    return cached('loads', build)


def dict_like(p):
    return p[:-1] + ('key',) if p and p[-1] == '*' else p


def norm(p):
    """ canonical path """
    return aliases().find(p)


def same_path(a, b):
    a, b = norm(a), norm(b)
    if a == b:
        return True
    # iterating a dictionary gives its keys
    return tuple('key' if x == '*' else x for x in a) == tuple('key' if x == '*' else x for x in b)


def pretty(p):
    return '/'.join(x.lstrip('._') if x not in ('*', 'key', 'val') else {'*': 'each', 'key': 'key', 'val': 'value'}[x] for x in p)


# ---------------------------------------------------------------- C01: what is saved is what is loaded

def public_attrs():
    """ attributes that the public properties of a log read """
    import ast
    u = next(n for n in program().tree('pyulog.core').body if isinstance(n, ast.ClassDef) and n.name == 'ULog')
    out = {}
    for m in u.body:
        if isinstance(m, ast.FunctionDef) and any(isinstance(d, ast.Name) and d.id == 'property' for d in m.decorator_list):
            for x in ast.walk(m):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == m.args.args[0].arg:
                    out.setdefault(x.attr, m.name)
    attrs = ctor_attrs('ULog') or set()
    return {a: p for a, p in out.items() if a in attrs}


def base_class(cls):
    """ class of the log that a class of the database module stands for """
    import ast
    name = cls.split(':')[-1].split('.')[-1]
    for n in ast.walk(program().tree('pyulog.db')):
        if isinstance(n, ast.ClassDef) and n.name == name and n.bases and isinstance(n.bases[0], ast.Attribute):
            return ast.unparse(n.bases[0])
    return cls.split(':')[-1]


def common_pc(events):
    pcs = [e.pc for e in events]
    if not pcs:
        return ()
    out = []
    for xs in zip(*pcs):
        if all(x == xs[0] for x in xs):
            out.append(xs[0])
        else:
            break
    return tuple(out)


def raised_otherwise(r):
    """ (condition, truth) pairs whose opposite ends in an exception """
    out = set()
    for e in r.trace:
        if e.kind == 'raise' and e.pc:
            c, b = e.pc[-1]
            out.add((c, not b))
    return out


def ifne(c, loops):
    """ a condition that only says that there is something to iterate over """
    srcs = set()
    for _, s in loops:
        if isinstance(s, T):
            srcs.add(s)
            for x in (s,) if s.op not in ('enumerate', 'items', 'values', 'keys', 'sorted', 'zip') else s.args:
                if isinstance(x, T):
                    srcs.add(x)
    for s in list(srcs):
        srcs |= {mk('truthy', s), truthy(s), lnot(eq(mklen(s), C(0))), lt(C(0), mklen(s))}
    return c in srcs


def extra_conds(e, conds, base, loops, r):
    ok = raised_otherwise(r)
    out = []
    for c, b in e.pc[len(base):]:
        if (c, b) in ok or ifne(c if b else lnot(c), loops):
            continue
        out.append(c if b else lnot(c))
    for c in conds:
        if not ifne(c, loops):
            out.append(c)
    return land(*out) if out else TRUE


def complete(gs, free=()):
    """ is one of these alternatives always taken; True / False / None """
    g = lor(*gs) if gs else FALSE
    if g is TRUE:
        return True
    if g is FALSE:
        return False
    res = True
    for f in free:
        pass
    vals = []
    for v in (TRUE, FALSE):
        h = subst(g, {f: v for f in free})
        vals.append(h)
        if h is FALSE:
            return False
        if h is not TRUE:
            res = None
    if res is True:
        return True
    if any(not opaque(h) and h is not TRUE for h in vals):
        return False
    return None


@guard
def saved_values(R):
    """ every part of the log is stored, unchanged and without conditions """
    st, _ = stored()
    r = save_run()
    ins = inserts()
    base = common_pc([i.e for i in ins])
    for i in ins:
        R.saw('INSERT statements', '%s (%s)' % (i.table, i.where))
        if i.problem:
            R.und('save.row', '%s: %s' % (i.table, i.problem), i.where)
    for t in sorted({i.table.lower() for i in ins}):
        mine = [i for i in ins if i.table.lower() == t]
        if len({id(i.e) for i in mine}) < len(mine) and len({id(i.e) for i in mine}) == 1 and not any(i.conds for i in mine):
            gs = [extra_conds(mine[0].e, [], base, mine[0].loops, r)]
        else:
            gs = [extra_conds(i.e, i.conds, base, i.loops, r) for i in mine]
        R.decide(complete(gs, [mk('truthy', APPEND), APPEND]), 'save.all', 'all entries are stored in %s' % mine[0].table, mine[0].where,
                 'entries are stored in %s only if %s' % (mine[0].table, show(lor(*gs), 5)), 'save.all:%s' % t)
    for i in ins:
        for lid, s in i.loops:
            k = merged_by(r, lid)
            if k is not None:
                R.bad('save.all', 'entries with the same %s are stored once in %s' % (show(k, 4), i.table), i.where,
                      'save.all:%s' % i.table.lower())
            if isinstance(s, T):
                for x in (s,) + tuple(a for a in s.args if isinstance(a, T)):
                    m = made_of(x)
                    if m is not None and m[1]:
                        c = land(*m[1])
                        R.decide(None if opaque(c) else False, 'save.all', 'all entries are stored in %s' % i.table, i.where,
                                 'entries are stored in %s only if %s' % (i.table, show(c, 4)), 'save.all:%s' % i.table.lower())
                    if x.op == 'slice':
                        R.bad('save.all', 'only a part of the entries is stored in %s: %s' % (i.table, show(x, 4)), i.where,
                              'save.all:%s' % i.table.lower())


@guard
def load_inverse(R):
    """ every part of the log is read from the column that it was stored in """
    st, _ = stored()
    unread = {i.table.lower() for i in inserts() if i.problem or i.nvals is None and i.s.params}
    got = {}
    for p, col, how, l, q in loads():
        where = where_of(l.e)
        R.saw('loaded parts', pretty(p))
        if col is None:
            if p[0] in {a for a in list(public_attrs()) + ['_sha256sum']} or any(x[0] and same_path(x[0], p) for v in st.values() for x in v):
                t = strip_last(l.term)
                if t.op in ('list', 'dict', 'tuple', 'set') and not t.args:
                    continue        # a fresh container that is filled later
                R.decide(False if changed_path(t) else None, 'load.value', '%s is read from the database' % pretty(p), where,
                         '%s is not what was stored, but %s' % (pretty(p), show(t, 5)), 'load:%s' % pretty(p))
            continue
        got.setdefault(norm(p), []).append((col, how, l, q))
        key = (col[0].lower(), col[1].lower())
        src = st.get(key)
        name = '%s.%s' % col
        R.saw('columns', name)
        if not src:
            R.decide(None if key[0] in unread else False, 'load.value', '%s is read from %s, which save stores' % (pretty(p), name), where,
                     '%s is read from %s, which save does not store' % (pretty(p), name), 'load:%s' % pretty(p))
            continue
        for sp, sh, v, i in src:
            if sp is None:
                R.decide(False if changed_path(strip_last(v)) else None, 'save.value', '%s holds %s as it is' % (name, pretty(p)), i.where,
                         '%s does not hold %s, but %s' % (name, pretty(p), show(v, 5)), 'save:%s' % name)
                continue
            if not same_path(sp, p):
                R.bad('load.value', '%s is read from %s, where save stores %s' % (pretty(p), name, pretty(sp)), where,
                      'load:%s' % pretty(p))
                continue
            okh = {('plain', 'plain'), ('plain', 'nan'), ('chr', 'chr'), ('bytes', 'bytes'), ('int', 'plain'), ('plain', 'int'), ('int', 'int')}
            R.decide(True if (sh, how) in okh else False, 'load.value', '%s comes back from %s as stored' % (pretty(p), name), where,
                     '%s is stored in %s as "%s" and read as "%s"' % (pretty(p), name, sh, how), 'load:%s' % pretty(p))
            if i.wrap.get(col[1].lower()):
                R.und('save.value', '%s is stored through %s()' % (name, i.wrap[col[1].lower()]), i.where)
    # nothing is left out
    for key, vs in sorted(st.items()):
        for sp, sh, v, i in vs:
            if sp is None or 'index' in sp:
                continue
            ok = any(same_path(sp, p) for p in got)
            R.decide(True if ok else (None if any(c is None and p[:1] == sp[:1] for p, c, _, _, _ in loads()) else False), 'load.all',
                     'stored %s is loaded' % pretty(sp), i.where, '%s is stored but not loaded' % pretty(sp), 'load.all:%s' % pretty(sp))
    roots = {p[0] for p, _, _, _, _ in loads()}
    sroots = {x[0][0] for v in st.values() for x in v if x[0]}
    for a, prop in sorted(public_attrs().items()):
        R.saw('attributes', a)
        R.decide(True if a in roots and a in sroots else False, 'lost', 'the log\'s %s is stored and loaded' % prop, 'pyulog/db.py',
                 'the log\'s %s is %s' % (prop, 'not stored' if a not in sroots else 'not loaded'), 'lost:%s' % a)
    # objects are complete
    r = load_run()
    for e in r.trace:
        if e.kind == 'new' and e.args[0].op == 'class':
            cls = e.args[0].args[0]
            b = base_class(cls)
            want = ctor_attrs(b) if b.startswith('ULog.') else None
            if not want:
                continue
            have = {f.args[1] if isinstance(f.args[1], str) else cval(f.args[1]) for f in r.trace if f.kind == 'setattr' and f.args[0] is e.args[1]}
            for a in sorted(want):
                R.decide(a in have, 'load.object', '%s.%s is set' % (b, a), where_of(e), 'loaded objects have no %s.%s' % (b, a),
                         'object:%s.%s' % (b, a))
    # no rows are skipped
    evs = {}
    facts = [l for l in loaded() if l.path and l.path[0] not in ('_db', '_pk', flag_attr()[0])]
    base = common_pc([l.e for l in facts])
    for l in facts:
        evs.setdefault((l.path[:1], l.path), []).append(l)
    for (_, p), ls in sorted(evs.items(), key=lambda x: x[0][1]):
        gs = []
        for l in ls:
            c = extra_conds(l.e, l.conds, base, l.loops, r)
            if p[-1] == 'key' or 'val' in p:
                # creating an entry for a key that is not there yet
                c = subst(c, {x: TRUE for x in walk(c) if x.op == 'not' and x.args[0].op == 'in'})
                c = subst(c, {x: TRUE for x in walk(c) if x.op == 'in'} if len(ls) > 1 else {})
            # the row that a LEFT JOIN gives for an entry without rows
            for x in list(walk(c)):
                nul, v = null_test(x)
                o = column_of(v) if v is not None else None
                sel = select_of(o[0]) if o else None
                if sel and any(h == 'left' for h, _ in sel.joins) and columns_of(sel)[o[1]] and \
                        columns_of(sel)[o[1]][0].lower() == sel.tables[-1][0].lower():
                    c = subst(c, {x: FALSE if nul else TRUE})
            gs.append(c)
        v = complete(gs)
        if v is not True:
            R.decide(v, 'load.rows', 'all rows of %s are loaded' % pretty(p), where_of(ls[0].e),
                     '%s is loaded only if %s' % (pretty(p), show(lor(*gs), 5)), 'load.rows:%s' % pretty(p))
        else:
            R.ok('load.rows', 'all rows of %s are loaded' % pretty(p), where_of(ls[0].e))


@guard
def sample_types(R):
    """ samples are stored as their bytes and read with the type of their field """
    for l in loaded():
        t = strip_last(l.term)
        if t.op == 'call' and t.args[0] == 'numpy.frombuffer':
            kw = dict(t.args[2])
            d = kw.get('dtype', t.args[1][1] if len(t.args[1]) > 1 else None)
            src = column_of(t.args[1][0])
            extra = set(kw) - {'dtype'} or len(t.args[1]) > 2
            R.decide(False if extra else True, 'sample.bytes', 'all bytes are read', where_of(l.e), 'only a part of the bytes is read', 'sample.bytes')
            if d is None:
                R.bad('sample.type', 'samples are read as double', where_of(l.e), 'sample.type')
                continue
            for typ in BASIC:
                it = l.r.it
                e = None
                tc = [x for x in walk(d) if column_of(x) is not None]
                if tc and src:
                    cc = column_of(tc[0])
                    cols = columns_of(select_of(cc[0]))
                    ok = cc[0] is src[0] and cols[cc[1]] and cols[cc[1]][1].lower() == 'datatype'
                    e = subst(d, {tc[0]: C(typ)})
                    e = it.freeze(l.r.st, e) if e.op == 'ref' else e
                    val = lookup(it, l.r.st, e)
                    want = NUMPY[typ]
                    want = want if isinstance(want, tuple) else (want,)
                    nm = val.args[0].split('.')[-1] if val is not None and val.op == 'ext' else None
                    R.decide(True if ok and nm in want else (None if nm is None or not ok else False), 'sample.type',
                             'samples of type %s are read as %s' % (typ, want[0]), where_of(l.e),
                             'samples of type %s are read as %s' % (typ, nm), 'sample.type:%s' % typ)
                else:
                    R.und('sample.type', 'type of the samples not understood: %s' % show(d, 4), where_of(l.e))
                    break


def lookup(it, st, t):
    """ value of a subscript chain into known containers """
    if t.op == 'sub':
        b = lookup(it, st, t.args[0]) if t.args[0].op == 'sub' else t.args[0]
        if b is None:
            return None
        if b.op == 'ref':
            if it.kind.get(b) == 'dict':
                for p in st.cells.get(('D', b), ()):
                    if p[0] == 'kv' and p[1] is t.args[1]:
                        return p[2]
            b = it.freeze(st, b)
        if b.op == 'dict':
            for p in b.args:
                if p.op == 'p_kv' and p.args[0] is t.args[1]:
                    return p.args[1]
            return None
        if b.op in ('list', 'tuple') and is_num(t.args[1]):
            xs = items_of(b)
            i = cval(t.args[1])
            return xs[i] if xs and -len(xs) <= i < len(xs) else None
        return None
    return t


KIND = [('_msg_info_dict/value', ANY), ('_msg_info_multiple_dict/value/each/each', ANY), ('_initial_parameters/value', ANY),
        ('_default_parameters/value/value', ANY), ('_changed_parameters/each/[2]', ANY)]
INTS = ('timestamp', 'duration', 'log_level', 'tag', 'multi_id', 'msg_id', 'timestamp_idx')


def kind_of(p, how):
    if how == 'bytes':
        return BLOB
    if how == 'chr':
        return TEXT
    if 'index' in p:
        return INT
    t = p[:1] + tuple({'*': 'each', 'key': 'key', 'val': 'value'}.get(x, x) for x in p[1:])
    s = '/'.join(t)
    for n, k in KIND:
        if s == n:
            return k
    if p[-1].lstrip('.') in INTS or p == ('_default_parameters', 'key') or p == ('_logged_messages_tagged', 'key'):
        return INT
    if p[0] in ('_file_version', '_start_timestamp', '_last_timestamp', '_sync_seq_cnt', '_appended_offsets', '_has_sync'):
        return INT
    if p == ('_changed_parameters', '*', '[0]') or p[-2:] == ('*', '[1]') and 'fields' in p[-3]:
        return INT
    return TEXT


@guard
def affinities(R):
    """ the columns hold the values of their kind without converting them """
    st, _ = stored()
    sc = schema()
    for key, vs in sorted(st.items()):
        t = sc.table(key[0])
        c = t and t.col(key[1])
        if c is None:
            continue
        for sp, sh, v, i in vs:
            if sp is None:
                continue
            k = kind_of(sp, sh)
            ok = {BLOB: True, TEXT: c.aff in ('TEXT', 'BLOB'), INT: c.aff in ('INTEGER', 'NUMERIC', 'BLOB'), ANY: c.aff == 'BLOB'}[k]
            R.saw('columns', '%s.%s' % (t.name, c.name))
            R.decide(ok, 'affinity', '%s.%s keeps %s values' % (t.name, c.name, k), 'pyulog/sql',
                     '%s.%s (%s) converts the values of %s' % (t.name, c.name, c.type or 'no type', pretty(sp)),
                     'affinity:%s.%s' % (t.name, c.name))
            if k == ANY and sh == 'plain':
                back = [h for p, col, h, l, q in loads() if col and (col[0].lower(), col[1].lower()) == key]
                R.decide(None if not back else all(h == 'nan' for h in back), 'nan', 'NULL in %s.%s is read as NaN' % (t.name, c.name), i.where,
                         'a value of %s that is not a number becomes NULL in %s.%s' % (pretty(sp), t.name, c.name),
                         'nan:%s.%s' % (t.name, c.name))


@guard
def row_order(R):
    """ lists come back in their order """
    sc = schema()
    ins = inserts()
    done = set()
    for p, col, how, l, q in loads():
        if col is None or q is None or q in done or not any(x.op == 'rows' and x.args[0] is q for x in walk(l.term)):
            continue
        sel = select_of(q)
        if sel is None:
            continue
        done.add(q)
        t = sc.table(col[0])
        mine = [i for i in ins if i.table.lower() == col[0].lower()]
        if not mine or not mine[0].loops:
            R.und('order', 'how %s is filled is not understood' % col[0], where_of(l.e))
            continue
        R.saw('queries', cval(q.args[0]).strip().split('\n')[0].strip() + ' ... ' + col[0])
        src = mine[0].loops[-1][1]
        if not isinstance(src, T):
            R.und('order', 'how %s is filled is not understood' % col[0], where_of(l.e))
            continue
        if src.op in ('items', 'keys', 'values'):
            R.ok('order', '%s holds a mapping' % t.name, where_of(l.e))
            continue
        inner = src.args[0] if src.op == 'enumerate' else src
        sp = path(inner)
        if sp is None and any(x.op in ('reversed', 'sorted') for x in walk(src)):
            R.bad('order', 'the entries of %s are stored in another order' % t.name, mine[0].where, 'order:%s' % t.name)
            continue
        where = where_of(l.e)
        st, _ = stored()
        if sel.order:
            e, d = sel.order[0]
            c = table_col(sel, e) if e[0] == 'col' else None
            vals = st.get((c[0].lower(), c[1].lower()), []) if c else []
            paths = {v[0] for v in vals}
            if e[0] == 'col' and e[2].lower() == 'rowid' or c and t.col(c[1]) and t.col(c[1]).pk and c[0] == t.name:
                R.decide(d == 'ASC', 'order', '%s is read in the order of storing' % t.name, where, '%s is read backwards' % t.name, 'order:%s' % t.name)
            elif paths and all(x and x[-1] == 'index' for x in paths):
                R.decide(d == 'ASC', 'order', '%s is read by index' % t.name, where, '%s is read backwards' % t.name, 'order:%s' % t.name)
            elif sp == ('_data_list',):
                names = []
                for e, d in sel.order:
                    c = table_col(sel, e) if e[0] == 'col' else None
                    v = st.get((c[0].lower(), c[1].lower()), []) if c else []
                    names.append((v[0][0][-1] if v and v[0][0] else None, d))
                R.decide(True if names[:2] == [('.name', 'ASC'), ('.multi_id', 'ASC')] else (False if all(n for n, _ in names) else None),
                         'order', 'datasets are read in the order of the parser, by name and instance', where,
                         'datasets are read in the order %s' % names, 'order:%s' % t.name)
            else:
                R.decide(False if paths and all(paths) else None, 'order', '%s is read in order' % t.name, where,
                         '%s is read in the order of %s' % (t.name, ', '.join(pretty(x) for x in paths if x)), 'order:%s' % t.name)
            continue
        # without ORDER BY: rows come by rowid or by the index that serves the condition, which has to keep that order
        cols = {c[2].lower() for x in conj(sel.where) for c in (x[2], x[3]) if x[0] == 'bin' and c[0] == 'col'} | \
               {c[2].lower() for _, j in sel.joins for x in conj(j) for c in (x[2], x[3]) if x[0] == 'bin' and c[0] == 'col'}
        wrong = []
        for n, i in sc.indexes.items():
            if i['table'].lower() == t.name.lower() and i['cols'][0][0].lower() in cols and (len(i['cols']) > 1 or i['cols'][0][1] != 'ASC'):
                wrong.append(n)
        for u in t.uniq:
            if len(u) > 1 and u[0].lower() in cols:
                wrong.append('UNIQUE (%s)' % ', '.join(u))
        if sp == ('_data_list',):
            R.und('order', 'datasets are read without an order', where)
            continue
        R.decide(not wrong, 'order', '%s is read in the order of storing' % t.name, where,
                 '%s is read through %s, in another order' % (t.name, ', '.join(wrong)), 'order:%s' % t.name)


def conj(e):
    if e is None:
        return []
    if e[0] == 'bin' and e[1] == 'AND':
        return conj(e[2]) + conj(e[3])
    return [e]


# ---------------------------------------------------------------- C02, C03: statements and schema

@guard
def statements_valid(R):
    """ every statement fits the schema that the migrations build """
    sc = schema()
    for run, q in all_statements():
        if q.s is None and isinstance(q.text, str):
            continue
        if q.text is None:
            R.und('statement', 'a statement is not constant', q.where)
            continue
        R.saw('statements', '%s: %s' % (run, ' '.join(q.text.split())[:70]))
        if isinstance(q.s, Exception):
            R.und('statement', '%s: %s' % (run, q.s), q.where)
            continue
        s = q.s
        for problem in check_statement(sc, s):
            R.bad('statement', '%s: %s' % (run, problem), q.where, 'statement:%s' % problem)
        else:
            R.ok('statement', '%s: %s' % (run, ' '.join(q.text.split())[:70]), q.where)
        # placeholders
        n = s.params
        if q.how == 'execute':
            if q.params is NONE:
                k = 0
            elif q.params.op in ('tuple', 'list') and not any(x.op in ('star', 'p_spread', 'spread', 'p_each', 'p_cond') for x in q.params.args):
                k = len(q.params.args)
            elif q.params.op == 'dict':
                continue
            else:
                k = None
            R.decide(None if k is None else k == n, 'placeholders', '%d placeholders get values' % n, q.where,
                     '%s: %d values for %d placeholders' % (run, k or 0, n), 'placeholders:%s' % ' '.join(q.text.split())[:60])
    for i in inserts():
        if i.many and i.problem is None:
            R.decide(None if i.nvals is None else i.nvals == i.s.params, 'placeholders', '%s: %d placeholders get values' % (i.table, i.s.params),
                     i.where, '%s: %s values for %d placeholders' % (i.table, i.nvals, i.s.params), 'placeholders:%s' % i.table)
    # declared types that sqlite3 would convert
    for t in sc.tables.values():
        for c in t.cols:
            first = c.type.split()[0].lower() if c.type else ''
            R.decide(first not in ('date', 'timestamp'), 'converter', '%s.%s has no converter' % (t.name, c.name), 'pyulog/sql',
                     '%s.%s (%s) is converted by sqlite3 when read' % (t.name, c.name, c.type), 'converter:%s.%s' % (t.name, c.name))


def check_statement(sc, s):
    out = []

    def cols_ok(e, tabs):
        if not isinstance(e, tuple):
            return
        if e[0] == 'col':
            if e[1] is not None and e[1].lower() not in [a.lower() for _, a in tabs]:
                out.append('no table or alias %s' % e[1])
                return
            n = 0
            for t, a in tabs:
                if e[1] is None or e[1].lower() == a.lower():
                    tt = sc.table(t)
                    if tt is not None and (tt.col(e[2]) or e[2].lower() in ('rowid', '_rowid_', 'oid')):
                        n += 1
            if n == 0:
                out.append('no column %s in %s' % (e[2], ', '.join(t for t, _ in tabs)))
            elif n > 1:
                out.append('column %s is ambiguous' % e[2])
            return
        for x in e[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                cols_ok(x, tabs)
            elif isinstance(x, tuple):
                for y in x:
                    cols_ok(y, tabs)
    if s.kind == 'select':
        for t, _ in s.tables:
            if sc.table(t) is None:
                out.append('no table %s' % t)
        if out:
            return out
        for e in s.cols + ([s.where] if s.where else []) + [e for e, _ in s.order] + [c for _, c in s.joins if c]:
            cols_ok(e, s.tables)
    elif s.kind in ('insert', 'update', 'delete'):
        t = sc.table(s.table)
        if t is None:
            return ['no table %s' % s.table]
        if s.kind == 'insert':
            names = s.cols if s.cols is not None else [c.name for c in t.cols]
            for n in names:
                if t.col(n) is None:
                    out.append('no column %s in %s' % (n, t.name))
            if len({n.lower() for n in names}) != len(names):
                out.append('a column of %s is named twice' % t.name)
            for row in s.rows or []:
                if len(row) != len(names):
                    out.append('%d values for %d columns of %s' % (len(row), len(names), t.name))
            given = {n.lower() for n in names}
            for c in t.cols:
                if c.notnull and c.default is None and not c.pk and c.name.lower() not in given:
                    out.append('%s.%s gets no value' % (t.name, c.name))
        elif s.kind == 'update':
            for n, e in s.sets:
                if t.col(n) is None:
                    out.append('no column %s in %s' % (n, t.name))
                cols_ok(e, [(t.name, t.name)])
        if getattr(s, 'where', None):
            cols_ok(s.where, [(t.name, t.name)])
    return out


UNIQUE_OK = [('_initial_parameters', 'key'), ('_msg_info_dict', 'key'), ('_msg_info_multiple_dict', 'key'), ('_message_formats', 'key'),
             ('_default_parameters', 'key')]


@guard
def constraints(R):
    """ no constraint of the schema rejects a log """
    sc = schema()
    st, _ = stored()
    tabs = {i.table.lower() for i in inserts()}
    for t in sc.tables.values():
        if t.name.lower() not in tabs:
            continue
        for u in [[c.name] for c in t.cols if c.unique] + t.uniq:
            cols = {x.lower() for x in u}
            paths = set()
            refs = set()
            for x in cols:
                c = t.col(x)
                if c is None:
                    continue
                if c.ref:
                    refs.add(x)
                for v in st.get((t.name.lower(), x), []):
                    if v[0]:
                        paths.add(v[0])
            ok = None
            names = {p[-1] for p in paths}
            if any(p[0] == '_sha256sum' for p in paths) or any(t.col(x) and t.col(x).pk for x in cols):
                ok = True
            elif refs and any(p[-1] == 'index' for p in paths):
                ok = True
            elif refs and {'.name', '.multi_id'} <= names and t.name.lower() == 'ulogdataset':
                ok = True
            elif refs and any(p in UNIQUE_OK and p != ('_default_parameters', 'key') or p == ('_default_parameters', 'val', 'key') and
                              ('_default_parameters', 'key') in paths for p in paths):
                ok = True
            elif refs and any(p[-1] == '.field_name' or p[-1] == '[2]' and 'fields' in p[-3] for p in paths):
                ok = True
            elif paths and len(paths) == len(cols - refs):
                ok = False
            elif not paths and refs and refs == cols:
                ok = False
            R.decide(ok, 'unique', 'UNIQUE (%s) of %s holds for every log' % (', '.join(u), t.name), 'pyulog/sql',
                     'UNIQUE (%s) of %s rejects logs or parts of them' % (', '.join(u), t.name), 'unique:%s(%s)' % (t.name, ','.join(sorted(cols))))
        for c in t.cols:
            if c.check:
                kinds = {kind_of(v[0], v[1]) for v in st.get((t.name.lower(), c.name.lower()), []) if v[0]}
                samples = [x for k in kinds for x in {INT: (0, 1, 200), TEXT: ('', 'a', 'Name_1', 'x' * 200), BLOB: (b'', b'\0\1' * 4),
                                                      ANY: (0, 1, -1, 1.5, -2.5, '', 'a')}.get(k, ())]
                no = None
                try:
                    no = [x for x in samples if S.evaluate(c.check, x) is False]
                except (S.SqlUnknown, TypeError, KeyError):
                    pass
                R.decide(None if no is None or not samples else not no, 'check', 'the CHECK constraint of %s.%s holds for every log' % (t.name, c.name),
                         'pyulog/sql', 'the CHECK constraint of %s.%s rejects %s' % (t.name, c.name, ', '.join(repr(x) for x in (no or [])[:3])),
                         'check:%s.%s' % (t.name, c.name))
            R.saw('columns', '%s.%s' % (t.name, c.name))
        R.ok('constraints', t.name, 'pyulog/sql')


@guard
def bound_values(R):
    """ values reach the database as bound parameters only """
    for run, q in all_statements():
        R.saw('statements', '%s (%s)' % (run, q.where))
        if isinstance(q.text, str):
            R.ok('bound', 'the text is constant', q.where)
            continue
        parts = [x for x in walk(q.term) if x.op in ('attr', 'elem', 'sym', 'row', 'rows', 'unpack')]
        R.decide(False if parts else None, 'bound', 'the text is constant', q.where,
                 '%s: the text of the statement contains %s' % (run, show(parts[0], 4) if parts else ''),
                 'bound:%s:%s' % (run, show(parts[0], 3) if parts else ''))


# ---------------------------------------------------------------- C04: atomic save and delete

def tx_rules(R, name, r, writes):
    """ all of these writes happen in one transaction that is undone as a whole """
    if not writes:
        R.und('tx', '%s writes nothing recognisable' % name)
        return
    conns = {q.conn for q in writes}
    R.decide(len(conns) == 1 or None, 'tx.one', '%s uses one connection' % name, writes[0].where)
    conn = writes[0].conn
    order = {id(e): n for n, e in enumerate(r.trace)}
    first = min(order[id(q.e)] for q in writes)
    last = max(order[id(q.e)] for q in writes)
    for e in r.trace:
        if e.kind == 'connect' and e.args[0] is conn:
            kw = dict(e.args[2].args[0]) if e.args[2].args else {}
            iso = kw.get('isolation_level')
            auto = kw.get('autocommit')
            R.decide(False if iso is NONE or auto is TRUE else (True if (iso is None or is_const(iso)) and auto is None else None), 'tx.mode',
                     'statements open a transaction', where_of(e), 'the connection commits every statement on its own', 'tx.mode')
    begin = [order[id(e)] for e in r.trace if e.kind == 'tx_begin' and e.args[0] is conn]
    commits = [(order[id(e)], e) for e in r.trace if e.kind == 'commit' and e.args[0] is conn]
    after = [x for x in commits if x[0] > last]
    mid = [x for x in commits if first <= x[0] <= last]
    R.decide(bool(after), 'tx.commit', '%s is committed' % name, writes[-1].where, '%s is never committed' % name, 'tx.commit:%s' % name)
    R.decide(not mid, 'tx.atomic', '%s is committed once, at the end' % name, where_of(mid[0][1]) if mid else writes[0].where,
             '%s commits a part of its changes' % name, 'tx.atomic:%s' % name)
    scripts = [e for e in r.trace if e.kind == 'sql' and e.args[0] is conn and cval(e.args[3]) == 'executescript' and first <= order[id(e)] <= last]
    R.decide(not scripts, 'tx.atomic', '%s runs no script inside of its transaction' % name, writes[0].where,
             'a script commits a part of %s' % name, 'tx.script:%s' % name)
    for q in stmts_of_conn(r, conn):
        if q.s is not None and not isinstance(q.s, Exception) and q.s.kind in ('commit', 'begin', 'rollback') and first <= order[id(q.e)] <= last:
            R.bad('tx.atomic', '%s runs %s inside of its transaction' % (name, q.s.kind), q.where, 'tx.atomic:%s' % name)
    scoped = begin and min(begin) < first
    esc = {id(x[4]) for x in r.escapes}
    for q in writes:
        R.saw('writes', '%s (%s)' % (name, q.where))
        R.decide(True if id(q.e.node) in esc else None if not scoped else False, 'tx.errors', 'an error leaves the transaction', q.where,
                 'an error while writing is swallowed and the rest is committed', 'tx.errors:%s' % name)
    rb = [order[id(e)] for e in r.trace if e.kind == 'rollback' and e.args[0] is conn]
    R.decide(True if scoped and any(x > last for x in rb) else (True if rb else None), 'tx.rollback', 'a failed %s is rolled back' % name, writes[0].where)


def stmts_of_conn(r, conn):
    return [q for q in stmts_of(r, ('conn', id(r))) if q.conn is conn]


def pk_at(cells):
    return cells.get(('A', LOG, '_pk'))


@guard
def atomic_save(R):
    r = save_run()
    ins = inserts()
    qs = []
    for i in ins:
        if i.q not in qs:
            qs.append(i.q)
    tx_rules(R, 'save', r, qs)
    root = [i for i in ins if i.table.lower() == 'ulog']
    order = {id(e): n for n, e in enumerate(r.trace)}
    nodes = {id(q.e.node) for q in qs}
    # the key is only known once the log is stored
    for x in r.escapes:
        if id(x[4]) in nodes:
            v = pk_at(x[3])
            v = v if v is None else strip_last(v)
            bad = v is not None and any(y.op == 'rowid' for y in walk(v))
            R.decide(not bad, 'save.state', 'a failed save leaves the log unsaved', 'pyulog/db.py:%s' % getattr(x[4], 'lineno', '?'),
                     'after a failed save the log counts as saved', 'save.state')
    v = r.st.cells.get(('A', LOG, '_pk'))
    rows = [x for x in walk(v) if x.op == 'rowid'] if v is not None else []
    tabs = set()
    for x in rows:
        s = parse_stmt(cval(x.args[0].args[0])) if is_const(x.args[0].args[0]) else None
        if s is not None and not isinstance(s, Exception) and s.kind == 'insert':
            tabs.add(s.table.lower())
    R.decide(True if tabs == {'ulog'} else (False if tabs or v is None else None), 'save.key', 'the key is the row of the log', 'pyulog/db.py',
             'the key is %s' % ('the row of ' + ', '.join(tabs) if tabs else 'not set'), 'save.key')
    # a log is not stored twice
    w = [q for q in qs]
    for q in w[:1]:
        e = q.e
        g = land(*[c if b else lnot(c) for c, b in e.pc])
        no = subst(g, {mk('is', NONE, PK): FALSE, mk('is', PK, NONE): FALSE})
        R.decide(True if no is FALSE else (False if not opaque(no) and g is TRUE else None), 'save.once', 'a log with a key is not saved again', q.where,
                 'a log that is in the database can be saved again', 'save.once')
        hq = [x for x in walk(g) if x.op == 'row' and is_const(x.args[0].args[0])]
        ok = None
        for x in hq:
            sel = select_of(x.args[0])
            if sel and len(sel.tables) == 1 and sel.tables[0][0].lower() == 'ulog':
                cs = conj(sel.where)
                pr = x.args[0].args[1]
                if len(cs) == 1 and cs[0][0] == 'bin' and cs[0][1] == '=' and any(y[0] == 'col' and y[2].lower() == 'sha256sum' for y in cs[0][2:]) \
                        and pr.op in ('tuple', 'list') and len(pr.args) == 1 and path(items_of(pr)[0]) == ('_sha256sum',):
                    yes = subst(g, {y: TRUE for y in walk(g) if y.op == 'truthy' and y.args[0] is x})
                    found_ = [y for y in walk(yes) if y.op == 'is' and NONE in y.args and any(z is x for z in walk(y))]
                    yes = subst(yes, {y: FALSE for y in found_})
                    ok = True if yes is FALSE else None
        R.decide(ok if hq else (False if not any(x.op in ('row', 'rows', 'callv') for x in walk(g)) else None), 'save.hash',
                 'a log whose digest is stored is not saved again', q.where, 'a file can be saved twice', 'save.hash')
    exc = {x[1] for x in r.escapes}
    R.decide('KeyError' in exc or None, 'save.refused', 'saving again raises a KeyError', 'pyulog/db.py')


def log_state():
    """ the attributes of a log that saving or writing it uses """
    def go():
        r = save_run()
        out = {'_lazy_loaded'} if any(x.op == 'attr' and x.args[0] is LOG and x.args[1] == '_lazy_loaded' for e in r.trace for c, _b in e.pc for x in walk(c)) else set()
        for e in r.trace:
            for t in [a for a in e.args if isinstance(a, T)] + [c for c, _b in e.pc]:
                out |= {x.args[1] for x in walk(t) if x.op == 'attr' and x.args[0] is LOG}
        return out
    return cached(('logstate',), go)


@guard
def atomic_delete(R):
    r = RUNS['delete']()
    qs = [q for q in stmts_of(r, 'delete') if q.s is not None and not isinstance(q.s, Exception) and q.s.kind in ('delete', 'update', 'insert')]
    tx_rules(R, 'delete', r, qs)
    for q in qs:
        if q.s.kind != 'delete':
            R.und('delete.rows', 'delete runs %s' % q.s.kind, q.where)
            continue
        cs = conj(q.s.where)
        ps = items_of(q.params) if q.params.op in ('tuple', 'list') else None
        if q.params.op == 'dict':
            pname = [x[1].lstrip(':@$') for c in cs if c[0] == 'bin' for x in c[2:] if x[0] == 'param' and isinstance(x[1], str)]
            named = {cval(x.args[0]): x.args[1] for x in q.params.args if x.op == 'p_kv' and is_const(x.args[0])}
            ps = [named[n] for n in pname] if all(n in named for n in pname) else None
        if q.s.table.lower() == 'ulog':
            ok = False if not cs else None
            if len(cs) == 1 and cs[0][0] == 'bin':
                c = [x for x in cs[0][2:] if x[0] == 'col']
                p = [x for x in cs[0][2:] if x[0] == 'param']
                if c and p and ps and cs[0][1] == '=':
                    ok = True if c[0][2].lower() == 'id' and ps[0] is PK else (False if c[0][2].lower() != 'id' or path(ps[0]) else None)
                elif cs[0][1] != '=':
                    ok = False
            elif cs and all(x[0] == 'bin' and any(y[0] == 'col' for y in x[2:]) and any(y[0] == 'param' for y in x[2:]) for x in cs):
                # without the key itself it is another set of rows
                keyed = [x for x in cs if x[1] in ('=', '==', 'is') and any(y[0] == 'col' and y[2].lower() == 'id' for y in x[2:])]
                ok = None if keyed or not ps or not all(path(x) or x is PK for x in ps) else False
            R.decide(ok, 'delete.rows', 'exactly the row of the log is deleted', q.where, 'delete removes the rows %s' % ' '.join(q.text.split()),
                     'delete.rows')
        e = q.e
        g = land(*[c if b else lnot(c) for c, b in e.pc])
        no = subst(g, {mk('is', NONE, PK): TRUE, mk('is', PK, NONE): TRUE})
        R.decide(True if no is FALSE else None, 'delete.guard', 'only a log with a key is deleted', q.where)
    if not any(q.s.kind == 'delete' and q.s.table.lower() == 'ulog' for q in qs):
        R.decide(False if not any(q.text is None or isinstance(q.s, Exception) for q in stmts_of(r, 'delete')) else None, 'delete.rows',
                 'the row of the log is deleted', 'pyulog/db.py', 'delete does not delete the row of the log', 'delete.rows')
    v = r.st.cells.get(('A', LOG, '_pk'))
    R.decide(True if v is NONE else (False if v is None or is_const(v) or v is PK or v.op == 'ite' and not opaque(v) else None), 'delete.state', 'a deleted log has no key', 'pyulog/db.py',
             'a deleted log keeps its key', 'delete.state')
    for k, v in sorted(((k, v) for k, v in r.st.cells.items() if k[0] == 'A' and k[1] is LOG and k[2] not in ('_pk', '_db') and isinstance(v, T)), key=lambda kv: kv[0][2]):
        # what was read of the log stays (an attribute that nothing else looks at does not count)
        if k[2] in log_state():
            v = r.it.freeze(r.st, v)
            R.decide(True if v is mk('attr', LOG, k[2]) else (False if is_const(v) or v.op in ('list', 'dict') and not v.args else None), 'delete.kept', 'the log in memory stays as it is', 'pyulog/db.py',
                     'deleting changes the log in memory: %s becomes %s' % (k[2], show(v, 3)), 'delete.kept')
    nodes = {id(q.e.node) for q in qs}
    for x in r.escapes:
        if id(x[4]) in nodes:
            v = pk_at(x[3])
            R.decide(v is None or v is PK, 'delete.failed', 'after a failed delete the log keeps its key',
                     'pyulog/db.py:%s' % getattr(x[4], 'lineno', '?'), 'after a failed delete the log counts as deleted', 'delete.failed')


@guard
def cascades(R):
    """ deleting the row of a log deletes everything that was stored for it """
    sc = schema()
    root = sc.table('ULog')
    if root is None:
        raise Und('no table ULog')
    for i in inserts():
        t = sc.table(i.table)
        if t is None or t is root:
            continue
        R.saw('tables', t.name)
        fks = [c for c in t.cols if c.ref]
        good = False
        for c in fks:
            if c.ref['delete'] != 'CASCADE':
                continue
            cur, seen = c, set()
            while cur is not None:
                rt = sc.table(cur.ref['table'])
                if rt is None or rt in seen:
                    break
                if rt is root:
                    good = c
                    break
                seen.add(rt)
                nxt = [x for x in rt.cols if x.ref and x.ref['delete'] == 'CASCADE']
                cur = nxt[0] if nxt else None
            if good:
                break
        R.decide(bool(good), 'cascade', 'rows of %s go with their log' % t.name, 'pyulog/sql',
                 'rows of %s stay behind when their log is deleted' % t.name, 'cascade:%s' % t.name)
        if good:
            v = i.values.get(good.name.lower())
            R.decide(True if v is not None and v.op == 'rowid' else (None if v is None and (i.problem or i.nvals is None and i.s.params) else
                                                                     False if v is None or is_const(v) else None), 'cascade.value',
                     '%s.%s names the row it belongs to' % (t.name, good.name), i.where, '%s.%s is not set' % (t.name, good.name),
                     'cascade.value:%s' % t.name)
        for c in fks:
            if sc.table(c.ref['table']) is None:
                R.bad('cascade', '%s.%s refers to the missing table %s' % (t.name, c.name, c.ref['table']), 'pyulog/sql',
                      'cascade:%s' % t.name)


@guard
def foreign_keys_on(R):
    from .scen import new_interp, finish
    it, st = new_interp('pyulog.db')
    hv, st = it.run('pyulog.db', 'DatabaseULog.get_db_handle', [mk('sym', 'db_path')], {}, st=st)
    r = RUNS['delete']()
    for c in [e for e in r.trace if e.kind == 'connect']:
        on = [q for q in stmts_of(r, 'delete') if q.conn is c.args[0] and q.s is not None and not isinstance(q.s, Exception)]
        state, begun = None, False
        for q in on:
            if q.s.kind in ('begin', 'commit', 'rollback', 'end'):
                begun = q.s.kind == 'begin'
            if q.s.kind == 'pragma' and begun:
                continue            # without effect inside of a transaction
            if q.s.kind == 'pragma' and q.s.name == 'foreign_keys':
                if q.s.value is not None and len(q.e.pc) <= len(c.pc):
                    state = q.s.value in ('on', '1', 'true', 'yes')
            elif q.s.kind == 'delete':
                R.decide(True if state else False, 'foreign_keys', 'the connection enforces references', where_of(c),
                         'the connection does not enforce references, so nothing is deleted with the log', 'foreign_keys')
        R.saw('connections', where_of(c))


@guard
def references(R):
    """ every stored row belongs to the row that was stored for its parent """
    sc = schema()
    ins = inserts()
    for i in ins:
        t = sc.table(i.table)
        if t is None or t.name.lower() == 'ulog':
            continue
        fks = [c for c in t.cols if c.ref]
        R.saw('tables', t.name)
        if not fks:
            R.bad('reference', '%s refers to nothing' % t.name, 'pyulog/sql', 'reference:%s' % t.name)
        for c in fks:
            v = i.values.get(c.name.lower())
            if v is None:
                R.decide(False if i.problem is None and i.nvals is not None or c.name.lower() not in [x.lower() for x in i.cols] else None,
                         'reference', '%s.%s is set' % (t.name, c.name), i.where, '%s.%s is not set' % (t.name, c.name), 'reference:%s' % t.name)
                continue
            v = strip_last(v)
            if v.op != 'rowid' or not is_const(v.args[0].args[0]):
                R.decide(False if path(v) is not None or is_const(v) else None, 'reference', '%s.%s is the row of its parent' % (t.name, c.name),
                         i.where, '%s.%s is %s' % (t.name, c.name, show(v, 4)), 'reference:%s' % t.name)
                continue
            s = parse_stmt(cval(v.args[0].args[0]))
            if isinstance(s, Exception):
                R.und('reference', str(s), i.where)
                continue
            ok = s.kind == 'insert' and s.table.lower() == c.ref['table'].lower()
            R.decide(ok, 'reference', '%s.%s is the row of %s' % (t.name, c.name, c.ref['table']), i.where,
                     '%s.%s refers to %s but gets the row of %s' % (t.name, c.name, c.ref['table'], getattr(s, 'table', s.kind)),
                     'reference:%s' % t.name)
            par = [j for j in ins if j.table.lower() == c.ref['table'].lower()]
            for j in par[:1]:
                if j.many:
                    R.bad('reference', 'the row of %s is not known after executemany' % j.table, j.where, 'reference:%s' % t.name)
                pl, cl = [x[0] for x in j.loops], [x[0] for x in i.loops]
                R.decide(cl[:len(pl)] == pl, 'reference.same', 'rows of %s belong to the entry of %s of the same pass' % (t.name, j.table), i.where,
                         'rows of %s all belong to the last row of %s' % (t.name, j.table), 'reference.same:%s' % t.name)


# ---------------------------------------------------------------- C06: only rows of this log, in full

def restricts(sel, params, alias, t):
    """ column -> value that the rows of a table are restricted to """
    out = {}
    ps = items_of(params) if params.op in ('tuple', 'list') else None
    extra = []
    for x in conj(sel.where):
        if x[0] == 'bin' and x[1] in ('=', 'IS'):
            c = [y for y in x[2:] if y[0] == 'col']
            p = [y for y in x[2:] if y[0] in ('param', 'num', 'str')]
            if len(c) == 1 and len(p) == 1:
                tc = table_col(sel, c[0])
                v = C(p[0][1]) if p[0][0] != 'param' else (ps[p[0][1]] if ps is not None and isinstance(p[0][1], int) and p[0][1] < len(ps) else None)
                if tc:
                    out.setdefault(tc, []).append(v)
                    continue
        extra.append(x)
    return out, extra


def alias_col(sel, e):
    """ (alias, table, column) of a column expression """
    sc = schema()
    cands = []
    for n, a in sel.tables:
        if e[1] is not None and e[1].lower() != a.lower():
            continue
        t = sc.table(n)
        if t is None:
            return None
        if t.col(e[2]):
            cands.append((a.lower(), t, t.col(e[2])))
    return cands[0] if len(cands) == 1 else None


def scoped(sel, params, depth=0):
    """ is a query restricted to the rows of this log: True / False / None, and why """
    sc = schema()
    if depth > 6:
        return None, 'nested too deeply'
    ps = items_of(params) if params.op in ('tuple', 'list') else None
    for n, a in sel.tables:
        if sc.table(n) is None:
            return None, 'no table %s' % n
    good, links, unclear = set(), [], False
    conds = conj(sel.where)
    for how, j in sel.joins:
        if j is not None:
            conds = conds + conj(j)
    for x in conds:
        if x[0] == 'in' and len(x[2]) == 1 and x[2][0][0] == 'select':
            x = ('bin', '=', x[1], x[2][0])
        elif x[0] == 'in' and len(x[2]) == 1:
            x = ('bin', '=', x[1], x[2][0])
        if x[0] != 'bin' or x[1] not in ('=', 'IS'):
            unclear = True
            continue
        cols = [y for y in x[2:] if y[0] == 'col']
        if len(cols) == 2:
            cs = [alias_col(sel, y) for y in cols]
            if None in cs:
                unclear = True
            else:
                links.append(cs)
            continue
        other = [y for y in x[2:] if y[0] in ('param', 'num', 'str', 'select')]
        if len(cols) != 1 or len(other) != 1:
            unclear = True
            continue
        ac, o = alias_col(sel, cols[0]), other[0]
        if ac is None:
            unclear = True
            continue
        al, t, c = ac
        key = t.name.lower() == 'ulog' and c.pk
        if o[0] == 'select':
            inner = o[1]
            one = columns_of(inner)
            one = one[0] if one and len(one) == 1 else None
            if not (key or c.ref or c.pk):
                continue
            target = t.name if c.pk else c.ref['table']
            it = sc.table(one[0]) if one else None
            ic = it.col(one[1]) if it is not None else None
            if ic is None:
                unclear = True
                continue
            if not (ic.pk and it.name.lower() == target.lower() or ic.ref and ic.ref['table'].lower() == target.lower()):
                return False, '%s.%s is compared with %s.%s' % (t.name, c.name, it.name, ic.name)
            k, w = scoped(inner, params, depth + 1)
            if k is not True:
                return k, w
            good.add(al)
            continue
        v = C(o[1]) if o[0] != 'param' else (ps[o[1]] if ps is not None and isinstance(o[1], int) and o[1] < len(ps) else None)
        if v is None:
            unclear = True
            continue
        v = strip_last(v)
        if key:
            if v is PK:
                good.add(al)
            elif is_const(v):
                return False, '%s.%s is %s' % (t.name, c.name, show(v, 3))
            else:
                unclear = True
        elif c.ref:
            if c.ref['table'].lower() == 'ulog' and v is PK:
                good.add(al)
            elif v is PK:
                return False, '%s.%s is compared with the key of the log' % (t.name, c.name)
            else:
                oc = column_of(v)
                osel = select_of(oc[0]) if oc else None
                cn = columns_of(osel)[oc[1]] if osel else None
                ot = cn and sc.table(cn[0])
                if ot is not None and ot and cn[0].lower() == c.ref['table'].lower() and ot.col(cn[1]).pk:
                    k, w = scoped(osel, oc[0].args[1], depth + 1)
                    if k is not True:
                        return k, w
                    good.add(al)
                elif cn:
                    return False, '%s.%s is compared with %s.%s' % (t.name, c.name, cn[0], cn[1])
                else:
                    unclear = True
    n = -1
    while n != len(good):
        n = len(good)
        for cs in links:
            for (aa, at, ac), (ba, bt, bc) in (cs, cs[::-1]):
                if ac.ref and ac.ref['table'].lower() == bt.name.lower():
                    if bc.pk:
                        if ba in good:
                            good.add(aa)
                    else:
                        return False, '%s.%s is joined with %s.%s' % (at.name, ac.name, bt.name, bc.name)
                if ac.pk and bc.ref and bc.ref['table'].lower() == at.name.lower() and ba in good:
                    good.add(aa)        # the row that a row of this log refers to
                if ac.pk and bc.pk and at is bt and ba in good:
                    good.add(aa)
                if ac.ref and bc.ref and ac.ref['table'].lower() == bc.ref['table'].lower() and ba in good:
                    good.add(aa)
    for n, a in sel.tables:
        if a.lower() not in good:
            if unclear:
                return None, 'condition not understood'
            return False, 'rows of %s of other logs are read as well' % n
    return True, ''


@guard
def load_scoped(R):
    """ load reads the rows of its own log only, and all of them """
    sc = schema()
    for name, r in (('load', load_run()), ('lazy load', lazy_run()), ('get_dataset', get_run(FALSE, FALSE)), ('get_dataset', get_run(FALSE, TRUE))):
        for q in stmts_of(r, (name, id(r))):
            if q.s is None or isinstance(q.s, Exception):
                if q.text is None or isinstance(q.s, Exception):
                    R.und('scope', '%s: statement not understood' % name, q.where)
                continue
            s = q.s
            if s.kind in ('insert', 'update', 'delete', 'drop', 'create', 'rename', 'addcol', 'renamecol', 'dropcol'):
                R.bad('scope.reads', '%s changes the database' % name, q.where, 'scope.reads')
                continue
            if s.kind != 'select' or not s.tables:
                continue
            if check_statement(sc, s):
                continue
            R.saw('queries', '%s: %s' % (name, ' '.join(q.text.split())[:80]))
            k, w = scoped(s, q.params)
            lab = ' '.join(q.text.split())[:70]
            R.decide(k, 'scope', 'only rows of the log: %s' % lab, q.where, '%s: %s (%s)' % (name, w, lab), 'scope:%s' % s.tables[-1][0])
            R.decide(True if s.limit is None else (None if s.limit == ('num', 1) else False), 'scope.all', 'no limit: %s' % lab, q.where,
                     '%s: only some rows are read: %s' % (name, lab), 'scope.all:%s' % s.tables[-1][0])
            if s.distinct:
                R.bad('scope.all', '%s: equal rows are read once: %s' % (name, lab), q.where, 'scope.all:%s' % s.tables[-1][0])
            res, extra = restricts(s, q.params, None, None)
            for x in extra:
                R.decide(False if x[0] == 'bin' and x[1] in ('<', '>', '<=', '>=', '<>', 'LIKE', 'IS NOT') and not
                         (x[1] == 'IS NOT') else None, 'scope.all', 'no further condition: %s' % lab, q.where,
                         '%s: only some rows are read: %s' % (name, lab), 'scope.all:%s' % s.tables[-1][0])
            for (tn, cn), vals in res.items():
                c = sc.table(tn).col(cn)
                for v in vals:
                    if v is not None and is_const(v) and not c.ref and not c.pk:
                        R.bad('scope.all', '%s: only rows with %s = %s are read' % (name, cn, show(v, 3)), q.where, 'scope.all:%s' % tn)
            inner = [h for h, _ in s.joins if h == 'inner']
            if inner and any(c and sc.table(s.tables[0][0]).col('Id') for c in [1]):
                child = s.tables[1][0]
                R.bad('scope.join', 'an entry of %s without rows in %s is not read' % (s.tables[0][0], child), q.where,
                      'join:%s' % s.tables[0][0])


# ---------------------------------------------------------------- C07: the digest that identifies a log

def digest_run(kind):
    def go():
        from .scen import new_interp, finish
        it, st = new_interp('pyulog.db')
        h = mk('sym', 'log_file')
        it.assume[mk('is', NONE, h)] = it.assume[mk('is', h, NONE)] = False
        it.assume[truthy(h)] = True
        it.assume[mk('isinstance', h, mk('ext', 'builtins.str'))] = kind == 'path'
        if kind != 'path':
            it.kind[h] = 'file'
            st.cells[('P', h)] = mk('sym', 'pos0')
            it.assume[truthy(mk('attr', h, 'closed'))] = kind == 'closed'
        v, st = it.run('pyulog.db', 'DatabaseULog.calc_sha256sum', [h], {}, st=st)
        return finish(it, st, v, h=h)
    return cached(('digest', kind), go)


def wherever(p, want):
    """ whether a position in the file is the one wanted, wherever the file was """
    try:
        return all(numeval(p, {mk('sym', 'pos0'): n}) == want(n) for n in (0, 1, 7, 15, 16, 17, 100, 4095, 4096, 4097, 10 ** 6, 2 ** 31, 2 ** 33)) if p is not None else None
    except (KeyError, Und, TypeError):
        return None


@guard
def digest(R):
    """ the digest covers the whole file and leaves an open file as it was """
    for kind in ('path', 'closed', 'open'):
        r = digest_run(kind)
        lab = {'path': 'a path', 'closed': 'a closed file', 'open': 'an open file'}[kind]
        R.saw('arguments', lab)
        ret = r.it.freeze(r.st, r.ret)
        hs = [e for e in r.trace if e.kind == 'hash_new']
        algs = {cval(e.args[1]) if is_const(e.args[1]) else None for e in hs}
        R.decide(True if algs == {'sha256'} else (False if algs and None not in algs else None), 'digest.kind', 'SHA256 is used', where_of(hs[0]) if hs else '',
                 'the digest is %s' % algs, 'digest.kind')
        R.decide(True if ret.op == 'hexdigest' and hs and ret.args[0] is hs[0].args[0] else (False if ret is NONE or is_const(ret) else None), 'digest.result',
                 'the digest is returned in hexadecimal', 'pyulog/db.py', 'no digest is returned for %s' % lab, 'digest.result')
        pos, started = {}, set()
        reads = []
        for e in r.trace:
            if e.kind == 'open':
                pos[e.args[0]] = C(0)
                want = r.h if kind == 'path' else mk('attr', r.h, 'name')
                ok = e.args[1] is want and is_const(e.args[2]) and cval(e.args[2]) in ('rb', 'br')
                bad = is_const(e.args[2]) and 'b' not in str(cval(e.args[2]))
                R.decide(True if ok else (False if bad or e.args[1].op in ('sym', 'attr') and e.args[1] is not want else None), 'digest.open',
                         'the file is opened for reading bytes', where_of(e), '%s is opened as %s, %s' % (lab, show(e.args[1], 3), show(e.args[2], 2)),
                         'digest.open')
            elif e.kind == 'seek':
                pos[e.args[0]] = e.args[3]
            elif e.kind == 'read':
                reads.append(e)
                if e.args[0] not in started:
                    started.add(e.args[0])
                    p = pos.get(e.args[0], mk('sym', 'pos0') if e.args[0] is r.h else None)
                    at = wherever(p, lambda n: 0)
                    R.decide(at if at is not None else (False if p is not None and (is_const(p) or p.op == 'sym') else None), 'digest.start',
                             'reading starts at the beginning', where_of(e), '%s is digested from position %s' % (lab, show(p, 3) if p else '?'),
                             'digest.start:%s' % kind)
        if not reads:
            R.und('digest.read', 'no read found for %s' % lab)
        ups = [e for e in r.trace if e.kind == 'hash_update']
        for e in reads:
            t = mk('read', *e.args[:3])
            n = e.args[2]
            full = n is NONE or is_const(n) and isinstance(cval(n), int) and cval(n) < 0
            u = [x for x in ups if x.args[1] is t or (x.args[1].op == 'bytes' and x.args[1].args == (t,))]
            ahead = [x for x in ups if x.args[1].op == 'read' and x.args[1].args[0] is e.args[0] and x.args[1].args[2] is n and x.loops and
                     x.args[1].args[1].op == 'lv']
            if not u and ahead:
                # the block of the next pass is read at the end of this one
                x = ahead[0].args[1]
                R.decide(True if not e.loops or e.args[1] is add(x.args[1], mklen(x)) else None, 'digest.update', 'every block enters the digest', where_of(e))
                if not e.loops:
                    continue
                u, t = ahead[:1], x
            if not u:
                R.decide(None if any(any(y is t for y in walk(x.args[1])) for x in ups) else (False if ups and not e.loops and
                         all(x.args[1].op == 'read' or is_const(x.args[1]) for x in ups) else None), 'digest.update',
                         'every block enters the digest', where_of(e), 'a block that is read does not enter the digest', 'digest.update')
                continue
            extra = [(c if b else lnot(c)) for c, b in u[0].pc if (c, b) not in e.pc]
            g = land(*extra) if extra else TRUE
            g1 = subst(g, {truthy(t): TRUE, mk('truthy', t): TRUE, lnot(eq(mklen(t), C(0))): TRUE, eq(t, C(b'')): FALSE, eq(C(b''), t): FALSE})
            R.decide(True if g1 is TRUE else (False if g1 is FALSE else None), 'digest.update', 'every block enters the digest', where_of(u[0]),
                     'blocks enter the digest only if %s' % show(g, 4), 'digest.update')
            if not e.loops:
                R.decide(True if full else (False if is_const(n) else None), 'digest.all', 'all of the file is read', where_of(e),
                         'only the first %s bytes enter the digest' % show(n, 2), 'digest.all')
                continue
            i = r.it.loopinfo.get(e.loops[-1][0])
            outs = [land(*[c if b else lnot(c) for c, b in pc]) for pc, _ in i['brk'] + i['exits']] if i else []
            it = i['iter'] if i else None
            if i is not None and isinstance(it, T) and it.op not in ('while', 'iter', 'callv'):
                R.decide(False if it.op == 'range' and all(is_const(a) for a in it.args) else None, 'digest.all', 'reading goes on up to the end', where_of(e),
                         'a fixed number of blocks is read', 'digest.all')
                continue
            more = {truthy(t): TRUE, mk('truthy', t): TRUE, eq(mklen(t), C(0)): FALSE, eq(t, C(b'')): FALSE, eq(C(b''), t): FALSE, eq(C(0), mklen(t)): FALSE}
            res = []
            for o in outs:
                o = subst(o, more)
                if o is not FALSE and is_const(n) and isinstance(cval(n), int):
                    # a file opened here gives full blocks up to the end; one that is given may return less at any time
                    sizes = (1, cval(n) - 1, cval(n)) if e.args[0] is r.h else (cval(n),)
                    try:
                        res.append(not any(numeval(o, {mklen(t): z}) for z in sizes))
                        continue
                    except (KeyError, Und, TypeError):
                        pass
                res.append(True if o is FALSE else (False if o is TRUE or all(y is not mklen(t) for y in walk(o)) and
                                                         any(y is t for y in walk(o)) and not opaque(subst(o, {t: mk('sym', 'block')})) else None))
            ok = None if not outs else (True if all(x is True for x in res) else (False if False in res else None))
            R.decide(ok, 'digest.all', 'reading goes on up to the end', where_of(e), 'reading stops before the end', 'digest.all')
        if kind == 'open':
            p = r.st.cells.get(('P', r.h))
            R.decide(True if wherever(p, lambda n: n) else (False if wherever(p, lambda n: n) is False or p is not None and (is_const(p) or p.op in ('while', 'add', 'mu')) or any(
                e.kind == 'read' and e.args[0] is r.h for e in r.trace) and not any(e.kind == 'seek' and e.args[0] is r.h and e.args[3] is mk('sym', 'pos0')
                                                                                    for e in r.trace) else None),
                     'digest.position', 'the position of an open file is restored', 'pyulog/db.py', 'the position of an open file is changed', 'digest.position')
            R.decide(not any(e.kind == 'close' and e.args[0] is r.h for e in r.trace), 'digest.close', 'an open file stays open', 'pyulog/db.py',
                     'the file of the caller is closed', 'digest.close')
        else:
            for e in r.trace:
                if e.kind == 'open':
                    ok = any(x.kind == 'close' and x.args[0] is e.args[0] for x in r.trace)
                    R.decide(ok, 'digest.close', 'the opened file is closed', where_of(e), 'the file stays open', 'digest.close')
    it, st = None, None
    from .scen import new_interp
    it, st = new_interp('pyulog.db')
    v, st = it.run('pyulog.db', 'DatabaseULog.calc_sha256sum', [NONE], {}, st=st)
    R.decide(True if v is NONE else (False if v is None or is_const(v) else None), 'digest.none', 'without a file there is no digest', 'pyulog/db.py')


@guard
def digest_lookup(R):
    """ a log is found by its digest """
    r = hash_run()
    qs = [q for q in stmts_of(r, 'primary_key_from_sha256sum') if q.s is not None and not isinstance(q.s, Exception) and q.s.kind == 'select']
    if len(qs) != 1:
        raise Und('%d queries' % len(qs))
    q = qs[0]
    ret = r.it.freeze(r.st, r.ret)
    ps = items_of(q.params) if q.params.op in ('tuple', 'list') else None
    cs = conj(q.s.where)
    ok = None
    if len(q.s.tables) == 1 and q.s.tables[0][0].lower() == 'ulog':
        if not cs:
            ok = False
        elif len(cs) == 1 and cs[0][0] == 'bin':
            c = [x for x in cs[0][2:] if x[0] == 'col']
            p = [x for x in cs[0][2:] if x[0] == 'param']
            if len(c) == 1 and len(p) == 1 and ps is not None and len(ps) == 1:
                ok = cs[0][1] == '=' and c[0][2].lower() == 'sha256sum' and ps[0] is mk('sym', 'sha256sum')
                if not ok and cs[0][1] == '=' and opaque(ps[0]):
                    ok = None
    R.decide(ok, 'lookup.where', 'the log with exactly this digest is searched', q.where, 'the lookup selects by %s' % ' '.join(q.text.split()), 'lookup.where')
    R.saw('queries', ' '.join(q.text.split()))
    row = [x for x in walk(ret) if x.op == 'row']
    cols = columns_of(q.s)
    yes = subst(ret, {y: TRUE for y in walk(ret) if y.op == 'truthy' and y.args[0].op == 'row'})
    yes = subst(yes, {y: FALSE for y in walk(yes) if y.op == 'is' and NONE in y.args and any(z.op == 'row' for z in y.args)})
    no = subst(ret, {y: FALSE for y in walk(ret) if y.op == 'truthy' and y.args[0].op == 'row'})
    no = subst(no, {y: TRUE for y in walk(no) if y.op == 'is' and NONE in y.args and any(z.op == 'row' for z in y.args)})
    o = column_of(yes)
    ok = None
    if o is not None and cols:
        c = cols[o[1]]
        ok = bool(c) and c[0].lower() == 'ulog' and schema().table('ULog').col(c[1]).pk
    elif is_const(yes):
        ok = False
    R.decide(ok, 'lookup.key', 'its key is returned', q.where, 'the lookup returns %s' % show(yes, 4), 'lookup.key')
    R.decide(True if no is NONE else (False if is_const(no) else None), 'lookup.none', 'None without such a log', q.where, 'an unknown digest gives %s' % show(no, 3),
             'lookup.none')


def ctor_run(pk, lf, lazy=None, opts=()):
    def go():
        from .scen import new_interp, finish
        it, st = new_interp('pyulog.db')
        hv, st = it.run('pyulog.db', 'DatabaseULog.get_db_handle', [mk('sym', 'db_path')], {}, st=st)
        p = mk('sym', 'pk') if pk else NONE
        f = mk('sym', 'log_file') if lf else NONE
        for x in (p, f):
            if x is not NONE:
                it.assume[mk('is', NONE, x)] = it.assume[mk('is', x, NONE)] = False
        it.assume[truthy(f)] = True
        it.assume[mk('isinstance', f, mk('ext', 'builtins.str'))] = True
        v, st = it.run('pyulog.db', 'DatabaseULog', [hv, p, f] + ([lazy] if lazy is not None else []),
                       {**({'parse_header_only': TRUE} if lf else {}), **dict(opts)}, st=st)
        return finish(it, st, v, h=f, pk=p)
    return cached(('dbctor', pk, lf, lazy, opts), go)


def open_ctor():
    """ a log is made from an open file """
    from .scen import new_interp, finish
    it, st = new_interp('pyulog.db')
    hv, st = it.run('pyulog.db', 'DatabaseULog.get_db_handle', [mk('sym', 'db_path')], {}, st=st)
    f = mk('sym', 'log_file')
    it.assume[mk('is', NONE, f)] = it.assume[mk('is', f, NONE)] = False
    it.assume[truthy(f)] = True
    it.assume[mk('isinstance', f, mk('ext', 'builtins.str'))] = False
    it.assume[truthy(mk('attr', f, 'closed'))] = False
    v, st = it.run('pyulog.db', 'DatabaseULog', [hv, NONE, f], {'parse_header_only': TRUE}, st=st)
    return finish(it, st, v, h=f)


@guard
def digest_stored(R):
    """ a log that is read from a file carries the digest of this file """
    r = ctor_run(False, True)
    v = r.st.cells.get(('A', r.ret, '_sha256sum'))
    v = r.it.freeze(r.st, v) if v is not None else None
    opens = {e.args[0]: e.args[1] for e in r.trace if e.kind == 'open'}
    ok = None
    if v is not None and v.op == 'hexdigest':
        fs = {x.args[0] for x in walk(v) if x.op == 'read'}
        ok = bool(fs) and all(f is r.h or opens.get(f) is r.h for f in fs)
    elif v is None or v is NONE:
        ok = False
    R.decide(ok, 'digest.stored', 'the digest of the file is kept', 'pyulog/db.py', 'a log read from a file has no digest', 'digest.stored')
    R.saw('constructions', 'from a file')
    # an open file need not have a name by which it can be opened again
    r = cached(('openctor',), open_ctor)
    ends = [n for n, e in enumerate(r.trace) if e.args and e.args[0] is r.h and (e.kind == 'close' or e.kind == 'mcall' and cval(e.args[1]) == 'close')]
    begins = [n for n, e in enumerate(r.trace) if e.kind == 'hash_new']
    R.decide(max(begins) < min(ends) if begins and ends else None, 'digest.open', 'an open file is digested before it is closed', 'pyulog/db.py',
             'the digest of an open file is only taken when it is closed already', 'digest.open')
    R.saw('constructions', 'from an open file')
    st, _ = stored()
    vs = [x for x in st.get(('ulog', 'sha256sum'), [])]
    R.decide(True if vs and all(x[0] == ('_sha256sum',) for x in vs) else (False if not vs or all(x[0] for x in vs) else None), 'digest.saved',
             'the digest is saved', 'pyulog/db.py', 'the digest is not saved with the log', 'digest.saved')


# ---------------------------------------------------------------- C08: lazy loading and the cache

def lits_for(t, env):
    """ settle a term under truth values for the conditions of a dataset lookup """
    return subst(t, env)


def misfit(g, el, name, multi):
    """ the condition g lets an entry of another name or instance through """
    en, em = mk('attr', el, 'name'), mk('attr', el, 'multi_id')
    for a in ('a', 'b'):
        for m in (0, 1, 2):
            if (a, m) != ('a', 1) and subst(g, {name: C('a'), multi: C(1), en: C(a), em: C(m)}) is TRUE:
                return True
    return False


@guard
def dataset_cache(R):
    """ datasets come from the cache only when it holds what was asked for """
    r = get_run()
    dl = mk('attr', LOG, '_data_list')
    name, multi, lazy, caching = (mk('sym', x) for x in ('name', 'multi', 'lazy', 'caching'))
    loops = [(l, i) for l, i in r.it.loopinfo.items() if i['final'] and i['iter'] is dl]
    if len(loops) != 1:
        raise Und('%d loops over the datasets' % len(loops))
    lid, i = loops[0]
    el = mk('elem', lid, dl)
    ret = r.it.freeze(r.st, r.ret)
    pick = None
    if i['brk'] and not i.get('rets'):
        g = lor(*[land(*[c if b else lnot(c) for c, b in pc]) for pc, _ in i['brk']])
        brk = mk('brk', lid, 0)
    elif i.get('rets') and not i['brk'] and all(x[-1] is el for x in i['rets']):
        # a helper that returns the entry
        brk = g = lor(*[land(*[c if b else lnot(c) for c, b in x[0]]) for x in i['rets']])
    else:
        # the first entry of a filtered list
        for x in walk(ret):
            if x.op == 'list' and len(x.args) == 1 and x.args[0].op == 'p_each' and x.args[0].args[0] == lid and len(x.args[0].args[2]) == 1:
                c = x.args[0].args[2][0]
                if c.op == 'p_cond' and (len(c.args[1]), len(c.args[2])) in ((0, 1), (1, 0)):
                    it_ = (c.args[1] + c.args[2])[0]
                    if it_.op == 'p_item' and it_.args[0] is el:
                        pick, g = x, c.args[0] if c.args[1] else lnot(c.args[0])
        if pick is None:
            # the last entry that fits: only whether it fits can be told
            wrong = False
            targets = {x.id for x in ast.walk(i['node'].target) if isinstance(x, ast.Name)}
            for pc, st in i['back']:
                for k, v in (st.cells if hasattr(st, 'cells') else st).items():
                    if k[0] == 'V' and k[-1] in targets:
                        continue
                    if isinstance(v, T) and v.op == 'ite' and v.args[1] is el or v is el:
                        g = land(v.args[0] if v is not el else TRUE, *[c if b else lnot(c) for c, b in pc])
                        wrong = wrong or misfit(subst(g, {truthy(caching): TRUE}), el, name, multi)
            if wrong:
                R.bad('cache.match', 'a cached dataset of another name or instance is returned', 'pyulog/db.py', 'cache.match')
            else:
                R.und('cache.match', 'search not understood')
            return
        brk = truthy(pick)
    n, m = eq(mk('attr', el, 'name'), name), eq(mk('attr', el, 'multi_id'), multi)
    g = subst(g, {truthy(caching): TRUE})
    res = []
    for a in (TRUE, FALSE):
        for b in (TRUE, FALSE):
            x = subst(g, {n: a, m: b})
            want = a is TRUE and b is TRUE
            res.append((None if opaque(x) else False) if x not in (TRUE, FALSE) else (x is TRUE) == want)
    R.decide(False if False in res else (True if all(res) else None), 'cache.match', 'the cached dataset has the same name and instance', 'pyulog/db.py',
             'a cached dataset of another name or instance is returned', 'cache.match')
    if pick is not None:
        el = mk('sub', pick, C(0))
    qs = [q for q in stmts_of(r, 'get_dataset') if q.s is not None and not isinstance(q.s, Exception) and q.s.kind == 'select' and q.s.tables]
    data = mk('attr', el, 'data')
    exi = ite(brk, el, NONE)
    for found in (True, False):
        for cach in (True, False):
            for lz in (True, False):
                for dat in ((True, False) if found else (False,)):
                    B = lambda b: TRUE if b else FALSE
                    env = {truthy(caching): B(cach), truthy(lazy): B(lz), brk: B(found), mk('is', NONE, el): FALSE, mk('is', el, NONE): FALSE, truthy(el): TRUE,
                           truthy(data): B(dat), mk('truthy', data): B(dat), mk('is', NONE, data): FALSE, mk('is', data, NONE): FALSE,
                           eq(mklen(data), C(0)): B(not dat)}
                    if brk is g:
                        env.update({n: B(found), m: B(found)})
                    S_ = lambda t: subst(subst(t, env), env)
                    cond = lambda e: S_(land(*[c if b else lnot(c) for c, b in e.pc])) if e.pc else TRUE
                    lab = 'cached %s, caching %s, lazy %s, data %s' % (found, cach, lz, dat)
                    R.saw('situations', lab)
                    hit = found and cach and (lz or dat)
                    reads = [q for q in qs if cond(q.e) is not FALSE]
                    v = S_(ret)
                    if hit:
                        R.decide(True if not reads else (False if any(cond(q.e) is TRUE for q in reads) else None), 'cache.hit', 'nothing is read: %s' % lab, 'pyulog/db.py',
                                 'the database is read although the dataset is there', 'cache.hit')
                        R.decide(True if v is el else (False if v is NONE or v.op == 'inst' else None), 'cache.hit', 'the dataset itself is returned: %s' % lab,
                                 'pyulog/db.py', 'a dataset in the cache is not returned', 'cache.hit')
                        continue
                    main = [q for q in reads if any(t[0].lower() == 'ulogdataset' for t in q.s.tables)]
                    fields = [q for q in reads if any(t[0].lower() == 'ulogfield' for t in q.s.tables)]
                    R.decide(True if main and cond(main[0].e) is TRUE else (False if not main or not opaque(cond(main[0].e)) else None), 'cache.miss', 'the dataset is read: %s' % lab, 'pyulog/db.py',
                             'a dataset without its data is taken from the cache (%s)' % lab, 'cache.miss')
                    rows = [x for q in main for e2 in [q.e] for x in walk(ret) if x.op == 'row' and parse_stmt(cval(x.args[0].args[0])) is q.s] if main else []
                    got = {truthy(x): TRUE for x in rows}
                    got.update({mk('is', NONE, x): FALSE for x in rows})
                    got.update({mk('is', x, NONE): FALSE for x in rows})
                    v = subst(v, got)
                    if not lz:
                        c = [subst(cond(q.e), got) for q in fields]
                        R.decide(True if TRUE in c else (False if not fields else None), 'cache.data', 'its samples are read: %s' % lab, 'pyulog/db.py',
                                 'the samples of the dataset are not read (%s)' % lab, 'cache.data')
                    elif fields:
                        R.decide(False if any(subst(cond(q.e), got) is TRUE for q in fields) else None, 'cache.lazy', 'no samples are read: %s' % lab, 'pyulog/db.py',
                                 'lazy access reads the samples', 'cache.lazy')
                    upd = {e.args[1] if isinstance(e.args[1], str) else cval(e.args[1]): e for e in r.trace
                           if e.kind == 'setattr' and e.args[0] in (el, exi) and subst(cond(e), got) is not FALSE}
                    if found and cach:
                        R.decide(True if v is el else (False if v.op == 'inst' or v is NONE else None), 'cache.update', 'the dataset of the log is completed: %s' % lab,
                                 'pyulog/db.py', 'the samples that were read are not kept in the log', 'cache.update')
                        for a in ('msg_id', 'timestamp_idx', 'field_data', 'data'):
                            R.decide(True if a in upd else False, 'cache.update', 'its %s is set: %s' % (a, lab), 'pyulog/db.py',
                                     'a completed dataset keeps its old %s' % a, 'cache.update:%s' % a)
                    else:
                        R.decide(True if v.op == 'inst' else (False if v is el or v is NONE else None), 'cache.new', 'a new dataset is returned: %s' % lab, 'pyulog/db.py',
                                 'without caching, the dataset is not read again (%s)' % lab, 'cache.new')
                        R.decide(not upd, 'cache.new', 'the datasets of the log stay as they are: %s' % lab, 'pyulog/db.py',
                                 'without caching, a dataset of the log is changed', 'cache.new')
                    ke = [e for e in r.trace if e.kind == 'raise' and e.args[0] == 'KeyError' or e.kind == 'raise' and is_const(e.args[0]) and cval(e.args[0]) == 'KeyError']
                    allrows = {x for e in ke for c, _ in e.pc for x in walk(c) if x.op == 'row'}
                    miss = {mk('is', NONE, x): TRUE for x in allrows}
                    miss.update({truthy(x): FALSE for x in allrows})
                    here = {mk('is', NONE, x): FALSE for x in allrows}
                    here.update({truthy(x): TRUE for x in allrows})
                    gm = lor(*[subst(cond(e), miss) for e in ke]) if ke else FALSE
                    gh = lor(*[subst(cond(e), here) for e in ke]) if ke else FALSE
                    R.decide(True if gm is TRUE and gh is FALSE else (False if gh is TRUE or not ke else None), 'cache.unknown',
                             'a KeyError exactly for datasets that do not exist: %s' % lab, 'pyulog/db.py',
                             'asking for %s' % ('an existing dataset raises' if gh is TRUE else 'a missing dataset does not raise a KeyError'), 'cache.unknown')
    # what is put into the dataset of the log is what a new one would get
    new = [e for e in r.trace if e.kind == 'setattr' and e.args[0].op == 'ref']
    byattr = {}
    for e in new:
        a = e.args[1] if isinstance(e.args[1], str) else cval(e.args[1])
        byattr.setdefault(a, []).append(r.it.freeze(r.st, e.args[2]))
    for e in r.trace:
        if e.kind == 'setattr' and e.args[0] in (el, exi):
            a = e.args[1] if isinstance(e.args[1], str) else cval(e.args[1])
            v = r.it.freeze(r.st, e.args[2])
            w = byattr.get(a, [])
            if a in ('msg_id', 'timestamp_idx', 'field_data', 'data'):
                ok = True if any(v is x for x in w) else None
                if ok is None and w and (is_const(v) or any(v is x for b, xs in byattr.items() if b != a for x in xs)):
                    ok = False
                R.decide(ok, 'cache.values', 'a completed dataset gets the %s that was read' % a, where_of(e), 'a completed dataset gets %s as its %s' % (show(v, 3), a),
                         'cache.values:%s' % a)
            else:
                R.bad('cache.values', 'reading the samples changes the %s of the dataset' % a, where_of(e), 'cache.values:%s' % a)


@functools.lru_cache(None)
def flag_attr():
    """ the attribute that tells logs without their samples, and its value for them """
    a, b = lazy_run(), load_run()
    for k, v in a.st.cells.items():
        if k[0] == 'A' and k[1] is LOG and k in b.st.cells:
            x, y = (r.it.freeze(r.st, r.st.cells[k]) for r in (a, b))
            if is_const(x) and is_const(y) and isinstance(cval(x), bool) and isinstance(cval(y), bool) and x is not y:
                return k[2], x
    return '_lazy_loaded', TRUE


def flag_of(r, s):
    n, w = flag_attr()
    v = r.st.cells.get(('A', s, n))
    if v is None:
        return v
    f = truthy(r.it.freeze(r.st, v))
    return f if w is TRUE else lnot(f)


def depends(f):
    """ a condition over the contents of the log or of its file """
    at = cond_atoms(f)
    return bool(at) and all(a.op in ('lt', 'eq', 'in', 'truthy', 'is') and not any(
        x.op in ('top', 'havoc', 'undef', 'nondet', 'call', 'p_other') for x in walk(a)) for a in at)


@guard
def lazy_flag(R):
    """ logs without their samples are known as such and are neither written nor stored """
    for lab, r, want in (('load of everything', load_run(), FALSE), ('lazy load', lazy_run(), TRUE)):
        f = flag_of(r, LOG)
        R.saw('flags', lab)
        R.decide(True if f is want else (False if f is None or is_const(f) or f.op == 'truthy' or depends(f) else None), 'lazy.flag', '%s: %s' % (lab, show(want)), 'pyulog/db.py',
                 'after %s, the log counts as %s' % (lab, 'complete' if want is TRUE else 'incomplete'), 'lazy.flag:%s' % lab)
    for lab, pk, lf, lazy, want in (('file', False, True, TRUE, FALSE), ('file', False, True, FALSE, FALSE), ('database', True, False, TRUE, TRUE),
                                    ('database', True, False, FALSE, FALSE)):
        r = ctor_run(pk, lf, lazy)
        f = flag_of(r, r.ret)
        lab = 'from a %s, lazy=%s' % (lab, cval(lazy))
        R.saw('flags', lab)
        R.decide(True if f is want else (False if f is None or is_const(f) or f.op == 'truthy' or depends(f) else None), 'lazy.flag', '%s: %s' % (lab, show(want)), 'pyulog/db.py',
                 'a log %s counts as %s' % (lab, 'complete' if want is TRUE else 'incomplete'), 'lazy.flag:%s' % lab)
    fn, fw = flag_attr()
    cond = lambda e: land(*[c if b else lnot(c) for c, b in e.pc]) if e.pc else TRUE
    fl = truthy(mk('attr', LOG, fn))
    # asking for one dataset does not make the others complete
    r = get_run()
    v = r.st.cells.get(('A', LOG, fn))
    if v is not None:
        f = r.it.freeze(r.st, v)
        g = truthy(f) if f.op != 'attr' else fl
        g = subst(g, {fl: fw, mk('attr', LOG, fn): fw})
        g = g if fw is TRUE else lnot(g)
        several = any(x.op in ('all', 'any', 'each', 'p_each', 'count', 'sum', 'comp', 'lv', 'loop', 'callv') for x in walk(g))
        R.decide(True if g is TRUE else (None if several or opaque(g) else False), 'lazy.kept', 'a dataset that is read does not complete the log', 'pyulog/db.py',
                 'reading one dataset makes a lazily loaded log count as complete', 'lazy.kept')
    for meth, args, kinds in (('write_ulog', (mk('sym', 'path'),), ('open', 'write')), ('save', (APPEND,), ('sql',))):
        r = dbrun(meth, *args)
        n = 0
        for e in r.trace:
            if e.kind in kinds:
                if e.kind == 'sql':
                    t = variants(e.args[1], e.args[2])[0][0]
                    s = parse_stmt(t) if isinstance(t, str) else None
                    if s is not None and not isinstance(s, Exception) and s.kind not in ('insert', 'update', 'delete'):
                        continue
                g = subst(land(*[c if b else lnot(c) for c, b in e.pc]) if e.pc else TRUE, {fl: fw})
                n += 1
                R.decide(True if g is FALSE else (False if not opaque(g) or not any(fl is y for c, _ in e.pc for y in walk(c)) else None), 'lazy.refused',
                         '%s: not for logs without samples' % meth, where_of(e), '%s accepts a log without its samples' % meth, 'lazy.refused:%s' % meth)
        if not n:
            R.und('lazy.refused', '%s: no output found' % meth)
        else:
            exc = [e for e in r.trace if e.kind == 'raise' and subst(cond(e), {fl: fw}) is not FALSE and
                   subst(cond(e), {fl: FALSE if fw is TRUE else TRUE}) is FALSE]
            R.decide(True if exc else None, 'lazy.refused', '%s raises' % meth, 'pyulog/db.py')


# ---------------------------------------------------------------- C09: what can be opened

@guard
def version_gate(R):
    """ a database with an older schema is refused before it is used """
    sv = schema_version()
    files = migration_files()
    R.decide(max(files, default=0) == sv, 'gate.files', 'the schema version is the last migration', 'pyulog/sql',
             'the last migration is %s, the schema version %s' % (max(files, default=0), sv), 'gate.files')
    for lab, pk, lf in (('from the database', True, False), ('from a file', False, True)):
        r = ctor_run(pk, lf)
        vers = set()
        for e in r.trace:
            for c, _ in e.pc:
                for x in walk(c):
                    o = column_of(x) if x.op in ('sub', 'row') else None
                    if o and is_const(o[0].args[0]):
                        s = parse_stmt(cval(o[0].args[0]))
                        if not isinstance(s, Exception) and s.kind == 'pragma' and s.name == 'user_version' and s.value is None:
                            vers.add(x)
        if not vers:
            R.decide(False if not any('user_version' in show(e.args[1], 3) for e in r.trace if e.kind == 'sql') else None, 'gate.checked',
                     'the version is checked', 'pyulog/db.py', 'opening a log %s does not look at the schema version' % lab, 'gate.checked')
            continue
        R.saw('constructions', lab)
        for v in range(0, sv + 1):
            env = {x: C(v) for x in vers}
            cond = lambda e: subst(land(*[c if b else lnot(c) for c, b in e.pc]) if e.pc else TRUE, env)
            rs = [e for e in r.trace if e.kind == 'raise' and e.mod == 'pyulog.db' and e.args[0] in ('ValueError', C('ValueError')) and any(x in vers for c, _ in e.pc for x in walk(c))]
            up = [e for e in rs if cond(e) is TRUE]
            if v < sv:
                R.decide(True if up else (False if all(cond(e) is FALSE for e in rs) else None), 'gate.old', 'version %d is refused %s' % (v, lab), 'pyulog/db.py',
                         'a database of version %d is accepted' % v, 'gate.old:%s' % lab)
                used = []
                for e in r.trace:
                    if e.kind in ('sql', 'open') and cond(e) is not FALSE:
                        if e.kind == 'sql':
                            t = variants(e.args[1], e.args[2])[0][0]
                            s = parse_stmt(t) if isinstance(t, str) else None
                            if s is not None and not isinstance(s, Exception) and s.kind == 'pragma':
                                continue
                        used.append(e)
                R.decide(True if not used else (False if any(cond(e) is TRUE for e in used) else None), 'gate.first', 'nothing of version %d is used %s' % (v, lab),
                         where_of(used[0]) if used else '', 'a database of version %d is used before it is refused' % v, 'gate.first:%s' % lab)
            else:
                R.decide(True if all(cond(e) is FALSE for e in rs) else (False if up else None), 'gate.current', 'the current version is accepted %s' % lab, 'pyulog/db.py',
                         'the current version is refused', 'gate.current:%s' % lab)


def other_keys(v, pk):
    """ the key itself if `v` always is it, NONE if it is something else for some key """
    for n in (-3, -1, 0, 1, 2, 77):
        x = v
        while x.op == 'ite':
            try:
                x = x.args[1] if numeval(subst(x.args[0], {truthy(pk): C(n != 0), mk('truthy', pk): C(n != 0), eq(pk, NONE): FALSE, mk('is', NONE, pk): FALSE,
                                                          mk('is', pk, NONE): FALSE}), {pk: n}) else x.args[2]
            except (KeyError, Und, TypeError):
                return v
        if x is pk or is_const(x) and cval(x) == n:
            continue
        if is_const(x) or not any(y is pk for y in walk(x)) and not any(y.op in ('lv', 'callv', 'call', 'mcall') for y in walk(x)):
            return NONE
        return v
    return pk


@guard
def arguments(R):
    """ exactly one of key and file """
    sv = schema_version()
    filt = (('message_name_filter_list', mk('sym', 'filter')),)
    for lab, pk, lf, want, opts in (('neither', False, False, True, ()), ('both', True, True, True, ()), ('neither', False, False, True, filt),
                                    ('both', True, True, True, filt), ('key', True, False, False, ()), ('file', False, True, False, ())):
        r = ctor_run(pk, lf, None, opts)
        cur = {}
        for e in r.trace:
            for c, _ in e.pc:
                for x in walk(c):
                    o = column_of(x) if x.op in ('sub', 'row') else None
                    if o and is_const(o[0].args[0]) and 'user_version' in str(cval(o[0].args[0])):
                        cur[x] = C(sv)
        own = [e for e in r.trace if e.kind == 'raise' and e.mod == 'pyulog.db' and e.args[0] in ('ValueError', C('ValueError'))]
        gs = [subst(land(*[c if b else lnot(c) for c, b in e.pc]) if e.pc else TRUE, cur) for e in own]
        R.saw('constructions', lab)
        if want:
            use = [e for e in r.trace if e.kind in ('open', 'setattr') and subst(land(*[c if b else lnot(c) for c, b in e.pc]) if e.pc else TRUE, cur) is not FALSE]
            ok = True if TRUE in gs else (False if all(g is FALSE for g in gs) else None)
            R.decide(ok, 'arguments', '%s is refused' % lab, 'pyulog/db.py', 'a log can be opened with %s key %s file' % (lab, 'nor' if lab == 'neither' else 'and'),
                     'arguments:%s' % lab)
        else:
            R.decide(True if all(g is FALSE for g in gs) else (False if TRUE in gs else None), 'arguments', '%s alone is accepted' % lab, 'pyulog/db.py',
                     'opening a log with a %s alone is refused' % lab, 'arguments:%s' % lab)
        if lab == 'key':
            v = r.st.cells.get(('A', r.ret, '_pk'))
            if v is not None and v is not r.pk:
                v = other_keys(v, r.pk)
            R.decide(True if v is r.pk else (False if v is None or is_const(v) else None), 'arguments.key', 'the log has the given key', 'pyulog/db.py',
                     'the log does not get its key', 'arguments.key')
            n = [e for e in r.trace if e.kind == 'sql' and is_const(e.args[1]) and 'FROM ULogDataset' in ' '.join(cval(e.args[1]).split())]
            R.decide(True if n else None, 'arguments.load', 'a log with a key is loaded', 'pyulog/db.py')
        if lab == 'file':
            v = r.st.cells.get(('A', r.ret, '_pk'))
            R.decide(True if v is NONE else (False if v is None or is_const(v) else None), 'arguments.key', 'a log from a file has no key', 'pyulog/db.py',
                     'a log from a file has the key %s' % (show(v, 3) if v else 'missing'), 'arguments.key')


@guard
def unknown_key(R):
    """ loading a key that does not exist raises """
    r = exists_run()
    ret = r.it.freeze(r.st, r.ret)
    rows = [x for x in walk(ret) if x.op == 'row']
    qs = [q for q in stmts_of(r, 'exists_in_db') if q.s is not None and not isinstance(q.s, Exception) and q.s.kind == 'select']
    if len(qs) != 1:
        raise Und('%d queries' % len(qs))
    q = qs[0]
    cs = conj(q.s.where)
    ps = items_of(q.params) if q.params.op in ('tuple', 'list') else None
    ok = None
    if [t[0].lower() for t in q.s.tables] != ['ulog']:
        ok = False
    elif not cs:
        ok = False
    elif len(cs) == 1 and cs[0][0] == 'bin' and ps is not None and len(ps) == 1:
        c = [x for x in cs[0][2:] if x[0] == 'col']
        ok = cs[0][1] == '=' and len(c) == 1 and c[0][2].lower() == 'id' and ps[0] is mk('sym', 'primary_key')
        if not ok and opaque(ps[0]):
            ok = None
    R.decide(ok, 'exists.where', 'the row of exactly this key is searched', q.where, 'existence is decided by %s' % ' '.join(q.text.split()), 'exists.where')
    count = len(q.s.cols) == 1 and 'count' in str(q.s.cols[0]).lower() if hasattr(q.s, 'cols') else None
    x = [y for y in walk(ret) if y.op == 'sub' and y.args[0].op == 'row']
    if x and 'count' in ' '.join(q.text.lower().split()):
        pk = mk('sym', 'primary_key')
        for key in (1, 2, 1 << 40, 0, -1):
            res = [truthy(subst(ret, {x[0]: C(n), pk: C(key)})) for n in (0, 1)][:2 if key > 0 else 1]
            R.decide(True if res == [FALSE, TRUE][:len(res)] else (False if all(is_const(y) for y in res) else None), 'exists.result',
                     'true for one row, false for none (key %d)' % key, q.where,
                     'existence is %s (key %d)' % (', '.join('%s for %s' % (show(y, 3), n) for y, n in zip(res, ('no row', 'one'))), key), 'exists.result')
    else:
        no = truthy(subst(ret, {**{truthy(y): FALSE for y in rows}, **{mk('is', NONE, y): TRUE for y in rows}}))
        yes = truthy(subst(ret, {**{truthy(y): TRUE for y in rows}, **{mk('is', NONE, y): FALSE for y in rows}}))
        R.decide(True if (no, yes) == (FALSE, TRUE) else (False if is_const(no) and is_const(yes) else None), 'exists.result', 'true for one row, false for none', q.where,
                 'existence is %s for no row and %s for one' % (show(no, 3), show(yes, 3)), 'exists.result')
    for lab, r in (('load', load_run()), ('lazy load', lazy_run())):
        ke = [e for e in r.trace if e.kind == 'raise' and e.args[0] in ('KeyError', C('KeyError')) and e.mod == 'pyulog.db']
        reads = [e for e in r.trace if e.kind == 'setattr' and e.args[0] is LOG]
        ok = None
        if ke:
            g = land(*[c if b else lnot(c) for c, b in ke[0].pc])
            env = {}
            for y in walk(g):
                if y.op == 'sub' and y.args[0].op == 'row':
                    env[y] = C(0)
            z = subst(g, env)
            z = subst(z, {**{truthy(y): FALSE for y in walk(z) if y.op == 'row'}, **{mk('is', NONE, y): TRUE for y in walk(z) if y.op == 'row'}})
            ok = True if z is TRUE else (False if z is FALSE else None)
        elif not ke:
            ok = False
        R.decide(ok, 'unknown', '%s: a key that does not exist raises a KeyError' % lab, 'pyulog/db.py', '%s of a key that does not exist does not raise a KeyError' % lab,
                 'unknown:%s' % lab)


# ---------------------------------------------------------------- C10: JSON

def strval(t, text, of):
    """ value of a string term after replacing one part of it by a text """
    if t is of:
        return text
    if is_const(t):
        return cval(t)
    if t.op == 'mcall' and is_const(t.args[1]) if t.op == 'mcall' and isinstance(t.args[1], T) else False:
        m, args = cval(t.args[1]), t.args[2]
    elif t.op == 'mcall':
        m, args = t.args[1], t.args[2]
    elif t.op == 'replace':
        m, args = 'replace', t.args[1:]
    elif t.op in ('str', 'tostr'):
        return strval(t.args[0], text, of)
    elif t.op == 'strcat':
        ps = [strval(a, text, of) for a in t.args]
        return None if any(p is None for p in ps) else ''.join(ps)
    elif t.op == 'call' and t.args[0] == 're.sub':
        a = [strval(x, text, of) for x in t.args[1]]
        if len(a) != 3 or any(x is None for x in a):
            return None
        import re
        return re.sub(*a)
    else:
        return None
    base = strval(t.args[0], text, of)
    a = [strval(x, text, of) if isinstance(x, T) else x for x in args]
    if base is None or any(x is None for x in a) or m not in ('replace', 'strip', 'lower', 'upper', 'lstrip', 'rstrip'):
        return None
    try:
        return getattr(base, m)(*a)
    except Exception:
        return None


SAMPLES = ['nan', 'inf', '-inf', '0', '1', '-1', '0.5', '-2.25', '1e-07', '-3.5e+20', '18446744073709551615', '-0.0']


def computed(t):
    """ a series whose numbers are changed """
    return t.op == 'mcall' and t.args[1] in ('round', 'clip', 'cumsum', 'astype', 'byteswap', 'take', 'view') or \
        t.op == 'call' and str(t.args[0]) in ('numpy.round', 'numpy.around', 'numpy.nan_to_num', 'numpy.clip', 'numpy.float32', 'numpy.trunc', 'numpy.abs',
                                              'numpy.unique', 'numpy.sort', 'numpy.flip') or t.op in ('poly', 'round', 'abs', 'reversed', 'sorted', 'slice')


def key_text(x, el, t):
    """ the value of an expression over the time of a sample """
    if x is el:
        return t
    if is_const(x):
        return cval(x)
    if x.op in ('str', 'int', 'float', 'round', 'abs', 'tostr') and isinstance(x.args[0], T) and len(x.args) == 1:
        y = key_text(x.args[0], el, t)
        return None if y is None else {'str': str, 'tostr': str, 'int': int, 'float': float, 'round': round, 'abs': abs}[x.op](y)
    if x.op == 'strcat':
        ys = [key_text(y, el, t) for y in x.args]
        return None if any(not isinstance(y, str) for y in ys) else ''.join(ys)
    if x.op in ('poly', 'mod', 'floordiv', 'div', 'ite', 'min', 'max', 'shr', 'shl', 'bitand'):
        try:
            return numeval(x, {el: t})
        except (KeyError, ZeroDivisionError, TypeError):
            return None
    return None


@guard
def json_text(R):
    """ the JSON form of a series is valid JSON with the same numbers """
    import json
    done = False
    for i in inserts():
        if i.table.lower() != 'ulogfield':
            continue
        v = i.values.get('valuejson')
        if v is None or v is NONE:
            continue
        done = True
        strs = [x for x in walk(v) if x.op == 'str' and isinstance(x.args[0], T) and x.args[0].op == 'dict']
        if len(strs) != 1:
            R.und('json', 'text is made as %s' % show(v, 4), i.where)
            continue
        s = strs[0]
        bad = []
        und = False
        for a in SAMPLES:
            for b in (a, 'nan', '-inf', '7'):
                text = "{'12': %s, '1000345': %s}" % (a, b)
                R.saw('texts', text)
                out = strval(v, text, s)
                if out is None:
                    und = True
                    continue
                try:
                    d = json.loads(out, parse_constant=lambda c: (_ for _ in ()).throw(ValueError(c)))
                except ValueError:
                    bad.append('%s becomes %s' % (text, out))
                    continue
                want = [None if x in ('nan', 'inf', '-inf') else json.loads(x) for x in (a, b)]
                if list(d.items()) != list(zip(['12', '1000345'], want)):
                    bad.append('%s becomes %s' % (text, out))
        R.decide(None if und else not bad, 'json', 'valid JSON with the same numbers', i.where, bad[0] if bad else '', 'json')
        # what is paired with what
        z = [x for x in walk(s) if x.op == 'zip']
        if len(z) == 1 and len(z[0].args) == 2:
            def plain(t):
                while True:
                    if t.op == 'ref':
                        t = save_run().it.freeze(save_run().st, t)
                        if t.op == 'ref':
                            return t
                    elif t.op == 'mcall' and t.args[1] in ('tolist', 'copy'):
                        t = t.args[0]
                    else:
                        return t
            k, w = z[0].args
            val = i.values.get('valuearray')
            val = val.args[0] if val is not None and val.op == 'mcall' and val.args[1] == 'tobytes' else None
            ww = plain(w)
            if ww.op == 'ite' and val is not None:
                # a series that is changed for some types only
                alts = [plain(x) for x, cond in paths_of(ww)]
                odd = [x for x in alts if x is not val]
                for x in odd:
                    lossy = computed(x) and not (x.op == 'mcall' and x.args[1] == 'astype' and
                                                 any(is_const(y) and cval(y) == 'f' for c in cond_atoms(ww.args[0]) for y in walk(c)))
                    ww = x if lossy else ww
                if not odd:
                    ww = val
            each = save_run().it.freeze(save_run().st, w) if w.op == 'ref' else w
            if each.op == 'list' and len(each.args) == 1 and each.args[0].op == 'p_each' and len(each.args[0].args[2]) == 1 and \
                    each.args[0].args[2][0].op == 'p_item' and plain(each.args[0].args[1]) is val:
                el = mk('elem', each.args[0].args[0], each.args[0].args[1])
                item = each.args[0].args[2][0].args[0]
                for t in (0, 1, -1, 127, (1 << 53) + 1, -0.0, 0.0, 0.1, -2.5, 1e-30, 3e38):
                    got = subst(item, {el: C(t)})
                    if is_const(got):
                        R.decide(repr(cval(got)) == repr(t), 'json.values', 'the value %r stays' % t, i.where, 'the value %r becomes %r' % (t, cval(got)), 'json.value')
            R.decide(True if val is not None and ww is val else (False if val is not None and (path(ww) and path(val) and path(ww) != path(val) or computed(ww)) else None), 'json.values',
                     'the values are those of the stored series', i.where, 'the JSON form holds %s instead of the series' % show(ww, 4), 'json.values')
            kk = k
            if kk.op == 'ref':
                kk = save_run().it.freeze(save_run().st, kk)
            names = [y for y in walk(kk) if y.op == 'sub' and is_const(y.args[1]) and isinstance(cval(y.args[1]), str)]
            names += [y for y in walk(k) if y.op == 'sub' and is_const(y.args[1]) and isinstance(cval(y.args[1]), str)]
            ok = None
            other = [y for t in (k, kk) for y in walk(t) if y.op == 'sub' and not is_const(y.args[1]) and (path(y.args[0]) or ('',))[-1] == '.data']
            if other and not names:
                ok = False
                names = other
            elif names:
                ok = all(cval(y.args[1]) == 'timestamp' for y in names) and (val is None or any(y.args[0] is val.args[0] for y in names))
            for e in [x for x in walk(kk) if x.op == 'p_each']:
                el = mk('elem', e.args[0], e.args[1])
                for t in (0, 1, 999, (1 << 53) + 1, (1 << 60) + 7, (1 << 63) + 5, (1 << 64) - 1):
                    if len(e.args[2]) == 1 and e.args[2][0].op == 'p_item':
                        got = key_text(e.args[2][0].args[0], el, t)
                        if got is not None:
                            R.decide(got == str(t), 'json.times', 'the key of time %d' % t, i.where, 'the key of time %d is %r' % (t, got), 'json.keytext')
            R.decide(ok, 'json.times', 'the keys are the times of the same dataset', i.where, 'the keys of the JSON form are %s' % (show(names[0], 4) if names else '?'),
                     'json.times')
        else:
            R.und('json.values', 'pairs not understood', i.where)
    if not done:
        R.und('json', 'no JSON is stored')
    # only if asked for, and a placeholder that validates
    for i in inserts():
        if i.table.lower() != 'ulogfield':
            continue
        v = i.values.get('valuejson')
        cells = dict(zip([c.lower() for c in i.cols], [None] * len(i.cols)))
        R.saw('inserts', i.where)


# ---------------------------------------------------------------- C11: loading again

@guard
def reload(R):
    """ loading a log again gives the same contents """
    for lab, r in (('load', load_run()), ('lazy load', lazy_run())):
        seen = set()
        for k, v in r.st.cells.items():
            if k[0] != 'A' or k[1] is not LOG:
                continue
            a = k[2]
            f = r.it.freeze(r.st, v)
            if f is mk('attr', LOG, a):
                continue
            seen.add(a)
            old = {y.args[1] for y in walk(f) if y.op == 'attr' and y.args[0] is LOG} - {'_pk', '_db'}
            R.saw('attributes', '%s: %s' % (lab, a))
            R.decide(not old, 'reload', '%s does not depend on what was loaded before' % a, 'pyulog/db.py',
                     'after loading again, %s depends on what was loaded before (%s)' % (a, ', '.join(sorted(old))), 'reload:%s' % a)
        for e in r.trace:
            if e.kind in ('append', 'setitem', 'extend', 'insert', 'update', 'setdefault', 'add', 'iadd', 'clear', 'delitem', 'pop', 'remove'):
                t = e.args[0]
                base = t
                while isinstance(base, T) and base.op in ('sub', 'get', 'setdefault', 'elem') and isinstance(base.args[0], T):
                    base = base.args[0]
                if isinstance(base, T) and base.op == 'attr' and base.args[0] is LOG and e.kind != 'clear':
                    cl = [x for x in r.trace if x.kind == 'clear' and x.args[0] is base]
                    R.decide(None if cl else False, 'reload.grows', '%s is filled anew' % base.args[1], where_of(e),
                             'loading again adds to %s' % base.args[1], 'reload:%s' % base.args[1])
        R.decide(True if len(seen) > 10 else None, 'reload', '%s: attributes found' % lab, 'pyulog/db.py')
