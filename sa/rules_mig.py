""" Rules about the migration of databases: what happens to their schema and their rows """
import copy
from .rules_db import *
from .rules_db import cached, migration_files, schema_version
from . import sql as S
from .scen import new_interp, finish
from .engine import AnalysisError

PATH, DIR = '/PKG/database', '/PKG/pyulog/sql'
OWN = '/PKG/scripts'
MUTATING = ('create', 'index', 'dropindex', 'drop', 'rename', 'renamecol', 'addcol', 'dropcol', 'insert', 'update', 'delete')


class Sql:
    """ a statement that the migration sends """
    def __init__(self, conn, toks, stmt, tx, e):
        self.conn, self.toks, self.s, self.tx, self.e = conn, toks, stmt, tx, e

    @property
    def mutates(self):
        return self.s.kind in MUTATING or self.s.kind == 'pragma' and self.s.name == 'user_version' and self.s.value is not None


def migrate(version, noop=False, force=False, files=None, fail=None, own=False, exists=True):
    """ the analysed run of migrate_db over a database of the given version, which may be any value """
    def build():
        it, st = new_interp('pyulog.migrate_db')
        d = OWN if own else DIR
        fs = migration_files() if files is None else files
        it.fs = {'%s/pyulog.%d.sql' % (d, k): v for k, v in fs.items()}
        if exists:
            it.fs[PATH] = ''
        it.assume[truthy(mk('call', 'os.path.isdir', (C(d),), ()))] = True

        def row(q):
            t = q.args[0] if q.op == 'query' else None
            if t is not None and is_const(t) and 'user_version' in cval(t).lower():
                return mk('tuple', version if isinstance(version, T) else C(version))
            return None
        it.row_hook = row
        if fail is not None:
            n = []

            def broken(name, text):
                if name != 'execute' or is_const(text) and not str(cval(text)).strip().upper().startswith('PRAGMA'):
                    n.append(1)
                    return len(n) == fail
                return False
            it.sql_fail = broken
        v, st = it.run('pyulog.migrate_db', 'migrate_db', [C(PATH)],
                       {'noop': C(noop), 'force': C(force), 'sql_dir': C(OWN) if own else NONE}, st=st)
        r = finish(it, st, v)
        r.raised = st.dead
        return r
    return cached(('migrate', repr(version), noop, force, repr(sorted(files.items())) if files is not None else None, fail, own, exists), build)


class Database:
    """ a database and its connections; the statements of a run are applied in order """

    def __init__(self, schema=None, version=0):
        self.schema = schema or S.Schema()
        self.version = version
        self.fk, self.tx, self.saved = {}, {}, None
        self.ntx = 0
        self.log, self.versions = [], []
        self.failed = False

    def begin(self, conn):
        self.ntx += 1
        self.tx[conn] = self.ntx
        self.saved = copy.deepcopy(self.schema), self.version
        self.schema.tx = True

    def end(self, conn, keep):
        if self.tx.get(conn) is None:
            return
        self.tx[conn] = None
        if not keep:
            p = self.schema.problems
            self.schema, self.version = self.saved
            self.schema.problems = p
        self.schema.tx = False

    def apply(self, r, until=None):
        """ run over the trace """
        for e in r.trace:
            if e.kind == 'sql':
                self.statement(e, e.args[0], e.args[1], cval(e.args[3]) if is_const(e.args[3]) else None)
            elif e.kind == 'commit' and not e.pc and e.args[0] in self.tx:
                self.end(e.args[0], True)

    def statement(self, e, conn, text, how):
        if e.pc:
            raise Und('a statement is executed under a condition that is not settled: %s' % ' and '.join(show(c if b else lnot(c), 4) for c, b in e.pc))
        if e.loops:
            raise Und('statements are executed in a loop that is not unrolled')
        if not is_const(text):
            raise Und('a statement is not constant: %s' % show(text, 4))
        self.tx.setdefault(conn, None)
        if how == 'executescript' and self.tx[conn] is not None:
            self.end(conn, True)
        try:
            for toks in S.statements(cval(text)):
                s = S.P(toks).statement()
                if s.kind in ('insert', 'update', 'delete') and self.tx[conn] is None and how != 'executescript':
                    self.begin(conn)
                if s.kind == 'begin':
                    if self.tx[conn] is not None:
                        self.schema.bad('nested', 'BEGIN inside of a transaction')
                    else:
                        self.begin(conn)
                elif s.kind == 'commit':
                    if self.tx[conn] is None:
                        self.schema.bad('nested', 'COMMIT outside of a transaction')
                    self.end(conn, True)
                elif s.kind == 'rollback':
                    self.end(conn, False)
                elif s.kind == 'pragma':
                    if s.name == 'foreign_keys' and s.value is not None:
                        if self.tx[conn] is None:
                            self.fk[conn] = s.value in ('on', '1', 'true', 'yes')
                    elif s.name == 'user_version' and s.value is not None:
                        if not s.value.lstrip('-').isdigit():
                            raise Und('user_version = %s' % s.value)
                        self.version = int(s.value)
                        self.versions.append((int(s.value), self.tx[conn]))
                self.log.append(Sql(conn, toks, s, self.tx[conn], e))
                if s.kind in MUTATING:
                    self.schema.step(s, self.fk.get(conn, False))
        except S.SqlUnknown as x:
            raise Und('SQL: %s' % x)


def fresh():
    """ the schema of every version, made from nothing """
    def build():
        out = {}
        try:
            applied(0, exists=False)
        except Und:
            return {v: by_hand(0, upto=v).schema for v in range(1, schema_version() + 1)}
        db = Database()
        r = migrate(0, exists=False)
        for e in r.trace:
            if e.kind == 'sql':
                db.statement(e, e.args[0], e.args[1], cval(e.args[3]))
                if db.version and db.version not in out:
                    out[db.version] = copy.deepcopy(db.schema)
                    out[db.version].problems = []
        return out
    return cached('fresh', build)


def applied(version, schema=None, **kw):
    """ the database after the migration """
    r = migrate(version, **kw)
    db = Database(schema, version if isinstance(version, int) else 0)
    db.run = r
    db.apply(r)
    return db


class Script:
    pc, loops = (), ()


def by_hand(v, schema=None, upto=None, fk=False):
    """ only the scripts, one after the other """
    db = Database(schema, v)
    db.fk['c'] = fk
    for n in range(v + 1, (upto or schema_version()) + 1):
        t = migration_files().get(n)
        if t is None:
            raise Und('migration file %d is missing' % n)
        db.statement(Script(), 'c', C(t), 'executescript')
    return db


KINDS = {'TEXT': 'text', 'BLOB': 'any', 'INTEGER': 'number', 'REAL': 'number', 'NUMERIC': 'number'}


def origin_of(o):
    """ (table, column, casts) of a value that stems from one column """
    casts = []
    while o and o[0] == 'cast':
        casts.append(o[2].upper())
        o = o[1]
    return (o[1], o[2], casts) if o and o[0] == 'col' else None


@guard
def data_kept(R):
    """ every row and every value survives a migration from any version """
    sv = schema_version()
    base = fresh()
    for v in range(1, sv):
        if v not in base:
            R.und('rows', 'the schema of version %d is not known' % v)
            continue
        s = copy.deepcopy(base[v])
        s.seed_rows()
        old = copy.deepcopy(s)
        lab = 'from version %d' % v
        try:
            db = applied(v, s)
        except Und as x:
            R.und('run', '%s: %s' % (lab, x))
            db = by_hand(v, s)
        s = db.schema
        R.saw('start versions', str(v))
        for kind, text in dict.fromkeys(s.problems):
            if kind in ('cascade', 'subset', 'ignored', 'deleted', 'merge'):
                R.bad('rows', '%s: %s' % (lab, text), 'pyulog/sql', 'rows:%s' % text)
            elif kind in ('skipped', 'rows'):
                R.und('script', '%s: %s' % (lab, text), 'pyulog/sql')
            else:
                R.bad('script', '%s the scripts fail: %s' % (lab, text), 'pyulog/sql', 'script:%s' % text)
        for t in old.tables.values():
            R.saw('tables', t.name)
            homes = [n for n in s.tables.values() if t.name in n.rows]
            home = s.table(t.name)
            if home is not None and home in homes:
                n = home
            elif len(homes) == 1:
                n = homes[0]
            else:
                n = None
            R.decide(n is not None, 'rows', '%s: the rows of %s are kept' % (lab, t.name), 'pyulog/sql', '%s: the rows of %s are lost' % (lab, t.name),
                     'rows:%s' % t.name)
            if n is None:
                continue
            if n is not home:
                R.und('rows', '%s: the rows of %s are in %s' % (lab, t.name, n.name))
            for c in t.cols:
                d = n.col(c.name)
                R.saw('columns', '%s.%s' % (t.name, c.name))
                name = '%s.%s' % (t.name, c.name)
                if d is None:
                    used = any(origin_of(x.origin) and origin_of(x.origin)[:2] == (t.name, c.name) for x in n.cols)
                    R.decide(None if used else False, 'values', '%s: %s is kept' % (lab, name), 'pyulog/sql', '%s: %s is dropped' % (lab, name), 'values:%s' % name)
                    continue
                o = origin_of(d.origin)
                if o is None or o[:2] != (t.name, c.name):
                    R.bad('values', '%s: %s does not keep its values, but gets %s' % (lab, name, describe(d.origin)), 'pyulog/sql', 'values:%s' % name)
                    continue
                bad = None
                kind = KINDS[c.aff]
                for x in o[2] + [d.aff]:
                    k = KINDS.get(x if x in KINDS else S.affinity(x))
                    if x in ('INT', 'INTEGER') and kind == 'number':
                        continue
                    if k not in (kind, 'any'):
                        bad = x
                R.decide(not bad, 'values', '%s: %s keeps its values' % (lab, name), 'pyulog/sql', '%s: the values of %s are converted to %s' % (lab, name, bad),
                         'values:%s' % name)
        # the result is the schema of a new database
        want = base.get(sv)
        if want is None:
            R.und('same', 'the schema of version %d is not known' % sv)
            continue
        for t in want.tables.values():
            n = s.table(t.name)
            if n is None:
                R.bad('same', '%s: there is no table %s' % (lab, t.name), 'pyulog/sql', 'same:%s' % t.name)
                continue
            a, b = sorted((c.name.lower(), c.aff, bool(c.ref) and c.ref['table'].lower()) for c in t.cols), \
                sorted((c.name.lower(), c.aff, bool(c.ref) and c.ref['table'].lower()) for c in n.cols)
            R.decide(a == b, 'same', '%s: %s is as in a new database' % (lab, t.name), 'pyulog/sql', '%s: %s is not as in a new database' % (lab, t.name), 'same:%s' % t.name)
        extra = sorted(set(s.tables) - set(want.tables))
        R.decide(not extra, 'same', '%s: no other tables' % lab, 'pyulog/sql', '%s: there are more tables: %s' % (lab, ', '.join(extra)), 'same.extra')


def describe(o):
    if o is None or o[0] == 'null':
        return 'nothing'
    if o[0] == 'col':
        return '%s.%s' % o[1:3]
    if o[0] == 'cast':
        return '%s as %s' % (describe(o[1]), o[2])
    return str(o[0])


def scripts(db):
    """ [(version, transactions of its changes, statements)] """
    out, cur = [], []
    for q in db.log:
        if q.mutates:
            if q.s.kind == 'pragma':
                out.append((int(q.s.value), {x.tx for x in cur} | {q.tx}, cur))
                cur = []
            else:
                cur.append(q)
    return out, cur


@guard
def sequence(R):
    """ one version after the other, each together with its number """
    sv = schema_version()
    files = migration_files()
    for n in range(1, sv + 1):
        R.saw('scripts', 'pyulog.%d.sql' % n)
        if n not in files:
            R.bad('script', 'there is no script for version %d' % n, 'pyulog/sql', 'script:%d' % n)
            continue
        try:
            kinds = [S.P(t).statement().kind for t in S.statements(files[n])]
        except S.SqlUnknown as x:
            R.und('script', 'pyulog.%d.sql: %s' % (n, x))
            continue
        R.decide(kinds[:1] == ['begin'] and kinds[-1:] == ['commit'] and not {'begin', 'commit', 'rollback'} & set(kinds[1:-1]), 'script',
                 'the script for version %d is one transaction' % n, 'pyulog/sql/pyulog.%d.sql' % n, 'the script for version %d is not one transaction' % n,
                 'script.tx:%d' % n)
    for v, exists in [(0, False)] + [(v, True) for v in range(0, sv + 1)]:
        for own in (False, True):
            db = applied(v, force=True, exists=exists, own=own)
            lab = 'from version %d' % v if exists else 'from nothing'
            R.saw('start versions', lab)
            if db.run.raised:
                R.bad('runs', '%s: the migration fails' % lab, 'pyulog/migrate_db.py', 'runs:%s' % lab)
                continue
            got, rest = scripts(db)
            seq = [x[0] for x in got]
            R.decide(seq == list(range(v + 1, sv + 1)), 'order', '%s: versions %d to %d in order' % (lab, v + 1, sv), 'pyulog/migrate_db.py',
                     '%s: the versions are set to %s' % (lab, seq), 'order:%s' % lab)
            R.decide(db.version == sv, 'order', '%s: the database ends with version %d' % (lab, sv), 'pyulog/migrate_db.py',
                     '%s: the database ends with version %s' % (lab, db.version), 'order.end:%s' % lab)
            for n, txs, stmts in got:
                if n not in files:
                    continue
                R.saw('scripts', 'pyulog.%d.sql' % n)
                R.decide(len(txs) == 1 and None not in txs, 'atomic', '%s: version %d is made in one transaction' % (lab, n), 'pyulog/migrate_db.py',
                         'version %d is not made in one transaction together with its number' % n, 'atomic:%d' % n)
                try:
                    want = [t for t in S.statements(files[n]) if S.P(t).statement().kind in MUTATING]
                except S.SqlUnknown as x:
                    R.und('script', 'pyulog.%d.sql: %s' % (n, x))
                    continue
                R.decide([q.toks for q in stmts] == want, 'script', '%s: version %d comes from its script' % (lab, n), 'pyulog/migrate_db.py',
                         '%s: version %d does not come from its script' % (lab, n), 'script:%d' % n)
            R.decide(not rest, 'atomic', '%s: nothing is changed after the last version' % lab, 'pyulog/migrate_db.py', '%s: changes after the last version' % lab,
                     'atomic.rest')
            open_ = [c for c, t in db.tx.items() if t is not None]
            R.decide(not open_, 'atomic', '%s: no transaction stays open' % lab, 'pyulog/sql', '%s: a transaction stays open' % lab, 'atomic.open')
    more = dict(files)
    more[sv + 1] = 'BEGIN;\nCREATE TABLE Extra (Id INT);\nCOMMIT;\n'
    for v in (1, sv):
        db = applied(v, base(v), files=more, own=True)
        R.saw('start versions', 'from version %d with a script too many' % v)
        R.decide(db.version == sv and db.schema.table('Extra') is None, 'newest', 'scripts beyond the expected version are left out', 'pyulog/migrate_db.py',
                 'scripts beyond the expected version are executed', 'newest.more')
    R.decide(sv == max(files) if files else False, 'newest', 'the code expects the newest version that there is a script for', 'pyulog/db.py',
             'the code expects version %s, the newest script makes %s' % (sv, max(files) if files else None), 'newest')


@guard
def failing(R):
    """ a script that fails leaves the version before it """
    sv = schema_version()
    for k in range(1, sv + 1):
        r = migrate(0, exists=False, fail=k)
        may = [i for i, e in enumerate(r.trace) if e.kind == 'raise' and is_const(e.args[0]) and cval(e.args[0]) == 'sqlite3.Error']
        if not may:
            R.und('failed', 'the failing script %d is not found' % k)
            continue
        R.saw('failing scripts', str(k))
        later = r.trace[may[0] + 1:]
        more = []
        undone, kept = set(), []
        for e in later:
            if e.kind == 'sql':
                try:
                    ss = [S.P(t).statement() for t in S.statements(cval(e.args[1]))] if is_const(e.args[1]) else [None]
                except S.SqlUnknown:
                    ss = [None]
                if any(s is not None and s.kind == 'rollback' for s in ss):
                    undone.add(e.args[0])
                if any(s is not None and s.kind == 'commit' for s in ss) and len(ss) == 1 and e.args[0] not in undone:
                    kept.append(e)
                if any(s is None or s.kind in MUTATING or s.kind == 'pragma' and s.name == 'user_version' and s.value is not None for s in ss):
                    more.append(e)
            elif e.kind == 'rollback':
                undone.add(e.args[0])
            elif e.kind == 'commit' and e.args[0] not in undone:
                kept.append(e)
        R.decide(not more, 'failed', 'after script %d failed nothing else is executed' % k, 'pyulog/migrate_db.py', 'after a script failed the migration goes on',
                 'failed.more')
        R.decide(not kept, 'failed', 'a script that fails is not committed', 'pyulog/migrate_db.py', 'a script that failed is committed in part', 'failed.kept')
        R.decide(True if r.raised else (False if not r.escapes or not any(x[0] == 'explicit' for x in r.escapes) else None), 'failed.report',
                 'the failure is reported', 'pyulog/migrate_db.py', 'a script that fails goes unnoticed', 'failed.report')
    files = migration_files()
    for n in range(2, sv + 1):
        for what, text in (('is missing', None), ('has no BEGIN', 'CREATE TABLE Extra (Id INT);\nCOMMIT;\n'), ('has no COMMIT', 'BEGIN;\nCREATE TABLE Extra (Id INT);\n'),
                           ('has statements before BEGIN', 'CREATE TABLE Extra (Id INT);\nBEGIN;\nCREATE TABLE More (Id INT);\nCOMMIT;\n'),
                           ('has statements after COMMIT', 'BEGIN;\nCREATE TABLE More (Id INT);\nCOMMIT;\nCREATE TABLE Extra (Id INT);\n')):
            fs = dict(files)
            if text is None:
                del fs[n]
            else:
                fs[n] = text
            db = applied(1, base(1), files=fs)
            R.saw('unusable scripts', 'script %d %s' % (n, what))
            got, rest = scripts(db)
            R.decide(True if db.run.raised else False, 'unusable', 'a script that %s is reported' % what, 'pyulog/migrate_db.py',
                     'a script that %s goes unnoticed' % what, 'unusable:%s' % what)
            R.decide([x[0] for x in got] == list(range(2, n)) and not rest, 'unusable', 'nothing of or after a script that %s is executed' % what,
                     'pyulog/migrate_db.py', 'with script %d, that %s, the versions %s are made' % (n, what, [x[0] for x in got]), 'unusable.run:%s' % what)


def base(v):
    return copy.deepcopy(fresh().get(v) or S.Schema())


@guard
def gate(R):
    """ which databases are migrated at all """
    sv = schema_version()

    def changes(label, version, want_raise, **kw):
        r = migrate(version, **kw)
        R.saw('situations', label)
        bad = []
        und = False
        for e in r.trace:
            if e.kind != 'sql':
                continue
            if not is_const(e.args[1]):
                und = True
                continue
            try:
                for t in S.statements(cval(e.args[1])):
                    s = S.P(t).statement()
                    if s.kind in MUTATING or s.kind == 'pragma' and s.name == 'user_version' and s.value is not None:
                        bad.append(e)
            except S.SqlUnknown:
                und = True
        sure = [e for e in bad if not e.pc]
        R.decide(True if not bad and not und else (False if sure else None), 'gate', 'nothing is changed: %s' % label, where_of(bad[0]) if bad else 'pyulog/migrate_db.py',
                 'the database is changed: %s' % label, 'gate:%s' % label)
        if want_raise is not None:
            known = r.raised or not [x for x in r.escapes if x[0] == 'explicit']
            R.decide((r.raised == want_raise) if known else None, 'gate.report', '%s: %s' % (label, 'refused' if want_raise else 'no error'), 'pyulog/migrate_db.py',
                     '%s: %s' % (label, 'not refused' if want_raise else 'refused'), 'gate.report:%s' % label)
    for v in range(0, sv + 1):
        for f in (False, True):
            if v == 0 and not f:
                continue
            changes('only printing, version %d%s' % (v, ' with force' if f else ''), v, False, noop=True, force=f)
    changes('only printing, no database', 0, False, noop=True, exists=False)
    changes('an unmanaged database', 0, True)
    changes('an unmanaged database, only printing', 0, True, noop=True)
    changes('a newer database', sv + 1, None)
    changes('a much newer database', sv + 1000, None)
    changes('a newer database with force', sv + 1, None, force=True)
    changes('a current database', sv, False)
    changes('a current database with force', sv, False, force=True)
    changes('a negative version', -1, True)
    changes('a negative version with force', -1, True, force=True)
    # with only the database's own version in the way, force makes no difference
    for v in range(1, sv + 1):
        a, b = applied(v, base(v)), applied(v, base(v), force=True)
        R.decide([q.toks for q in a.log] == [q.toks for q in b.log], 'gate.force', 'force changes nothing for version %d' % v, 'pyulog/migrate_db.py',
                 'version %d is migrated differently with force' % v, 'gate.force')
