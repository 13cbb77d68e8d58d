""" A small SQL front end: the statements that the code and its migration files contain, and the schema that the
migration files build, interpreted over tables and column lineages (never over rows) """
import re


class SqlUnknown(Exception):
    pass


TOK = re.compile(r"""\s+|--[^\n]*|/\*.*?\*/|(?P<str>'(?:[^']|'')*')|(?P<id>[A-Za-z_][A-Za-z_0-9]*|"[^"]*"|\[[^\]]*\]|`[^`]*`)"""
                 r"""|(?P<num>\d+(?:\.\d+)?)|(?P<par>\?\d*|[:@$][A-Za-z_]\w*)|(?P<op><>|!=|<=|>=|==|\|\||[-+*/%=<>(),.;&|~])""", re.S)


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise SqlUnknown('SQL text at %r' % text[i:i + 20])
        i = m.end()
        if m.lastgroup:
            v = m.group()
            if m.lastgroup == 'id' and v[0] in '"[`':
                v = v[1:-1]
                out.append(('qid', v))
            elif m.lastgroup == 'str':
                out.append(('str', v[1:-1].replace("''", "'")))
            else:
                out.append((m.lastgroup, v))
    return out


def statements(text):
    """ the token lists of the statements of a script """
    out, cur = [], []
    for t in tokens(text):
        if t == ('op', ';'):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


class Stmt:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return self.kind + ' ' + ', '.join('%s=%r' % x for x in self.__dict__.items() if x[0] != 'kind')


class P:
    def __init__(self, toks):
        self.t, self.i, self.params = toks, 0, 0

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else ('end', '')

    def kw(self, *words):
        """ consume the keywords if they are next """
        for n, w in enumerate(words):
            k, v = self.peek(n)
            if k != 'id' or v.upper() != w:
                return False
        self.i += len(words)
        return True

    def is_kw(self, *words):
        i = self.i
        r = self.kw(*words)
        self.i = i
        return r

    def op(self, o):
        if self.peek() == ('op', o):
            self.i += 1
            return True
        return False

    def need(self, o):
        if not self.op(o):
            raise SqlUnknown('expected %s at %r' % (o, self.peek()[1]))

    def needkw(self, *w):
        if not self.kw(*w):
            raise SqlUnknown('expected %s at %r' % (' '.join(w), self.peek()[1]))

    def name(self):
        k, v = self.peek()
        if k not in ('id', 'qid', 'str'):
            raise SqlUnknown('expected a name at %r' % v)
        self.i += 1
        if self.peek() == ('op', '.') and v.lower() in ('main', 'temp'):
            self.i += 1
            return self.name()
        return v

    def names(self):
        self.need('(')
        out = [self.name()]
        while self.op(','):
            out.append(self.name())
        self.need(')')
        return out

    def end(self):
        if self.i < len(self.t):
            raise SqlUnknown('unexpected %r' % self.peek()[1])

    # ---- expressions

    def expr(self):
        a = self.conj()
        while self.kw('OR'):
            a = ('bin', 'OR', a, self.conj())
        return a

    def conj(self):
        a = self.neg()
        while self.kw('AND'):
            a = ('bin', 'AND', a, self.neg())
        return a

    def neg(self):
        if self.kw('NOT'):
            return ('not', self.neg())
        return self.cmp()

    def cmp(self):
        a = self.sum()
        while True:
            k, v = self.peek()
            if k == 'op' and v in ('=', '==', '<>', '!=', '<', '>', '<=', '>='):
                self.i += 1
                a = ('bin', {'==': '=', '!=': '<>'}.get(v, v), a, self.sum())
            elif self.kw('IS', 'NOT'):
                a = ('bin', 'IS NOT', a, self.sum())
            elif self.kw('IS'):
                a = ('bin', 'IS', a, self.sum())
            elif self.kw('NOT', 'NULL') or self.kw('NOTNULL'):
                a = ('bin', 'IS NOT', a, ('null',))
            elif self.kw('ISNULL'):
                a = ('bin', 'IS', a, ('null',))
            elif self.is_kw('NOT', 'BETWEEN') or self.is_kw('BETWEEN'):
                neg = self.kw('NOT')
                self.needkw('BETWEEN')
                lo = self.sum()
                self.needkw('AND')
                e = ('bin', 'AND', ('bin', '>=', a, lo), ('bin', '<=', a, self.sum()))
                a = ('not', e) if neg else e
            elif self.kw('LIKE'):
                a = ('bin', 'LIKE', a, self.sum())
            elif self.is_kw('NOT', 'IN') or self.is_kw('IN'):
                neg = self.kw('NOT')
                self.needkw('IN')
                self.need('(')
                if self.is_kw('SELECT'):
                    l = [('select', self.select())]
                else:
                    l = [self.expr()]
                    while self.op(','):
                        l.append(self.expr())
                self.need(')')
                a = ('not', ('in', a, tuple(l))) if neg else ('in', a, tuple(l))
            else:
                return a

    def sum(self):
        a = self.prim()
        while self.peek()[0] == 'op' and self.peek()[1] in ('+', '-', '*', '/', '%', '||', '&', '|'):
            o = self.peek()[1]
            self.i += 1
            a = ('bin', o, a, self.prim())
        return a

    def prim(self):
        k, v = self.peek()
        if self.op('('):
            if self.is_kw('SELECT'):
                e = ('select', self.select())
            else:
                e = self.expr()
            self.need(')')
            return e
        if self.op('*'):
            return ('star', None)
        if self.op('-'):
            return ('neg', self.prim())
        self.i += 1
        if k == 'num':
            return ('num', float(v) if '.' in v else int(v))
        if k == 'str':
            return ('str', v)
        if k == 'par':
            n = self.params
            self.params += 1
            return ('param', n) if v == '?' else ('param', v)
        if k == 'id' and v.upper() == 'NULL':
            return ('null',)
        if k == 'id' and v.upper() == 'CAST' and self.op('('):
            e = self.expr()
            self.needkw('AS')
            t = self.name()
            self.need(')')
            return ('cast', e, t.upper())
        if k in ('id', 'qid'):
            if self.op('('):
                if self.op(')'):
                    return ('call', v.lower(), ())
                self.kw('DISTINCT')
                l = [self.expr()]
                while self.op(','):
                    l.append(self.expr())
                self.need(')')
                return ('call', v.lower(), tuple(l))
            if self.op('.'):
                if self.op('*'):
                    return ('star', v)
                return ('col', v, self.name())
            return ('col', None, v)
        raise SqlUnknown('expression at %r' % v)

    # ---- statements

    STOP = ('FROM', 'WHERE', 'ORDER', 'LIMIT', 'ON', 'JOIN', 'INNER', 'LEFT', 'CROSS', 'GROUP', 'HAVING', 'UNION', 'AS', 'USING', 'NATURAL',
            'OUTER', 'SET', 'OFFSET', 'RETURNING', 'VALUES', 'SELECT')

    def alias(self):
        if self.kw('AS'):
            return self.name()
        k, v = self.peek()
        if k == 'qid' or k == 'id' and v.upper() not in self.STOP:
            self.i += 1
            return v
        return None

    def select(self):
        self.needkw('SELECT')
        distinct = self.kw('DISTINCT')
        cols = [self.expr()]
        self.alias()
        while self.op(','):
            cols.append(self.expr())
            self.alias()
        tables, joins = [], []
        if self.kw('FROM'):
            n = self.name()
            tables.append((n, self.alias() or n))
            while True:
                how = 'inner'
                if self.op(','):
                    pass
                elif self.kw('LEFT', 'OUTER', 'JOIN') or self.kw('LEFT', 'JOIN'):
                    how = 'left'
                elif not (self.kw('JOIN') or self.kw('INNER', 'JOIN') or self.kw('CROSS', 'JOIN')):
                    break
                n = self.name()
                tables.append((n, self.alias() or n))
                cond = None
                if self.kw('ON'):
                    cond = self.expr()
                elif self.kw('USING'):
                    raise SqlUnknown('USING')
                joins.append((how, cond))
        where = self.expr() if self.kw('WHERE') else None
        if self.is_kw('GROUP'):
            raise SqlUnknown('GROUP BY')
        order = []
        if self.kw('ORDER', 'BY'):
            while True:
                e = self.expr()
                d = 'DESC' if self.kw('DESC') else 'ASC'
                self.kw('ASC')
                order.append((e, d))
                if not self.op(','):
                    break
        limit = None
        if self.kw('LIMIT'):
            limit = self.expr()
            if self.kw('OFFSET'):
                raise SqlUnknown('OFFSET')
        if self.is_kw('UNION'):
            raise SqlUnknown('UNION')
        return Stmt('select', cols=cols, tables=tables, joins=joins, where=where, order=order, limit=limit, distinct=distinct)

    def conflict(self):
        if self.kw('OR'):
            return self.name().upper()
        return None

    def statement(self):
        if self.is_kw('SELECT'):
            s = self.select()
        elif self.kw('BEGIN'):
            self.kw('TRANSACTION') or self.kw('IMMEDIATE') or self.kw('EXCLUSIVE') or self.kw('DEFERRED')
            self.kw('TRANSACTION')
            s = Stmt('begin')
        elif self.kw('COMMIT') or self.kw('END'):
            self.kw('TRANSACTION')
            s = Stmt('commit')
        elif self.kw('ROLLBACK'):
            self.kw('TRANSACTION')
            s = Stmt('rollback')
        elif self.kw('PRAGMA'):
            n = self.name().lower()
            v = None
            if self.op('='):
                v = self.peek()[1].lower()
                self.i += 1
            elif self.op('('):
                v = self.peek()[1].lower()
                self.i += 1
                self.need(')')
            s = Stmt('pragma', name=n, value=v)
        elif self.kw('INSERT') or self.is_kw('REPLACE'):
            how = 'REPLACE' if self.kw('REPLACE') else self.conflict()
            self.needkw('INTO')
            t = self.name()
            cols = self.names() if self.peek() == ('op', '(') else None
            if self.kw('VALUES'):
                rows = []
                while True:
                    self.need('(')
                    r = [self.expr()]
                    while self.op(','):
                        r.append(self.expr())
                    self.need(')')
                    rows.append(r)
                    if not self.op(','):
                        break
                s = Stmt('insert', table=t, cols=cols, rows=rows, select=None, how=how)
            else:
                s = Stmt('insert', table=t, cols=cols, rows=None, select=self.select(), how=how)
        elif self.kw('DELETE', 'FROM'):
            t = self.name()
            s = Stmt('delete', table=t, where=self.expr() if self.kw('WHERE') else None)
        elif self.kw('UPDATE'):
            how = self.conflict()
            t = self.name()
            self.needkw('SET')
            sets = []
            while True:
                c = self.name()
                self.need('=')
                sets.append((c, self.expr()))
                if not self.op(','):
                    break
            s = Stmt('update', table=t, sets=sets, where=self.expr() if self.kw('WHERE') else None, how=how)
        elif self.kw('CREATE', 'TABLE'):
            ine = self.kw('IF', 'NOT', 'EXISTS')
            t = self.name()
            s = Stmt('create', table=t, ine=ine, **self.table_def())
        elif self.is_kw('CREATE', 'INDEX') or self.is_kw('CREATE', 'UNIQUE', 'INDEX'):
            self.kw('CREATE')
            u = self.kw('UNIQUE')
            self.kw('INDEX')
            ine = self.kw('IF', 'NOT', 'EXISTS')
            n = self.name()
            self.needkw('ON')
            t = self.name()
            self.need('(')
            cols = []
            while True:
                c = self.name()
                d = 'DESC' if self.kw('DESC') else 'ASC'
                self.kw('ASC')
                cols.append((c, d))
                if not self.op(','):
                    break
            self.need(')')
            s = Stmt('index', name=n, table=t, cols=cols, unique=u, ine=ine, partial=self.expr() if self.kw('WHERE') else None)
        elif self.kw('DROP', 'TABLE'):
            ie = self.kw('IF', 'EXISTS')
            s = Stmt('drop', table=self.name(), ie=ie)
        elif self.kw('DROP', 'INDEX'):
            ie = self.kw('IF', 'EXISTS')
            s = Stmt('dropindex', name=self.name(), ie=ie)
        elif self.kw('ALTER', 'TABLE'):
            t = self.name()
            if self.kw('RENAME', 'TO'):
                s = Stmt('rename', table=t, to=self.name())
            elif self.kw('RENAME'):
                self.kw('COLUMN')
                a = self.name()
                self.needkw('TO')
                s = Stmt('renamecol', table=t, col=a, to=self.name())
            elif self.kw('ADD'):
                self.kw('COLUMN')
                s = Stmt('addcol', table=t, col=self.col_def())
            elif self.kw('DROP'):
                self.kw('COLUMN')
                s = Stmt('dropcol', table=t, col=self.name())
            else:
                raise SqlUnknown('ALTER TABLE')
        else:
            raise SqlUnknown('statement %r' % (self.peek()[1],))
        self.end()
        s.params = self.params
        return s

    CONSTRAINT = ('PRIMARY', 'UNIQUE', 'REFERENCES', 'NOT', 'NULL', 'DEFAULT', 'CHECK', 'COLLATE', 'CONSTRAINT', 'GENERATED')

    def refs(self):
        """ after REFERENCES """
        t = self.name()
        col = self.names() if self.peek() == ('op', '(') else None
        act = None
        while True:
            if self.kw('ON', 'DELETE'):
                act = self.action()
            elif self.kw('ON', 'UPDATE'):
                self.action()
            elif self.kw('DEFERRABLE'):
                self.kw('INITIALLY', 'DEFERRED') or self.kw('INITIALLY', 'IMMEDIATE')
            else:
                break
        return dict(table=t, cols=col, delete=act)

    def action(self):
        for a in (('SET', 'NULL'), ('SET', 'DEFAULT'), ('NO', 'ACTION'), ('CASCADE',), ('RESTRICT',)):
            if self.kw(*a):
                return ' '.join(a)
        raise SqlUnknown('ON DELETE action')

    def col_def(self):
        c = dict(name=self.name(), type='', pk=False, auto=False, unique=False, notnull=False, ref=None, default=None, check=False)
        while self.peek()[0] == 'id' and self.peek()[1].upper() not in self.CONSTRAINT:
            c['type'] = (c['type'] + ' ' + self.peek()[1].upper()).strip()
            self.i += 1
            if self.op('('):
                while not self.op(')'):
                    self.i += 1
        while True:
            if self.kw('PRIMARY', 'KEY'):
                c['pk'] = True
                self.kw('ASC')
                if self.kw('AUTOINCREMENT'):
                    c['auto'] = True
            elif self.kw('UNIQUE'):
                c['unique'] = True
            elif self.kw('NOT', 'NULL'):
                c['notnull'] = True
            elif self.kw('NULL'):
                pass
            elif self.kw('DEFAULT'):
                c['default'] = self.prim()
            elif self.kw('CHECK'):
                self.need('(')
                e = self.expr()
                self.need(')')
                c['check'] = e if not c['check'] else ('bin', 'AND', c['check'], e)
            elif self.kw('COLLATE'):
                c['collate'] = self.name()
            elif self.kw('REFERENCES'):
                c['ref'] = self.refs()
            elif self.kw('ON', 'CONFLICT'):
                c['conflict'] = self.name()
            else:
                break
        return c

    def table_def(self):
        self.need('(')
        cols, uniq, fks, pk, checks = [], [], [], None, []
        while True:
            if self.kw('CONSTRAINT'):
                self.name()
            if self.kw('UNIQUE'):
                uniq.append(self.names())
            elif self.kw('PRIMARY', 'KEY'):
                pk = self.names()
            elif self.kw('FOREIGN', 'KEY'):
                l = self.names()
                self.needkw('REFERENCES')
                fks.append((l, self.refs()))
            elif self.kw('CHECK'):
                self.need('(')
                checks.append(self.expr())
                self.need(')')
            else:
                cols.append(self.col_def())
            if not self.op(','):
                break
        self.need(')')
        self.kw('WITHOUT', 'ROWID')
        for l, ref in fks:
            for c in cols:
                if len(l) == 1 and c['name'].lower() == l[0].lower():
                    c['ref'] = ref
        if pk and len(pk) == 1:
            for c in cols:
                if c['name'].lower() == pk[0].lower():
                    c['pk'] = True
        for e in checks:
            names = {x.lower() for x in columns_in(e)}
            for c in cols:
                if c['name'].lower() in names:
                    one = e if len(names) == 1 else ('unknown',)
                    c['check'] = one if not c['check'] else ('bin', 'AND', c['check'], one)
        return dict(cols=cols, uniq=uniq)


def columns_in(e):
    """ the columns an expression uses """
    if isinstance(e, tuple):
        if e and e[0] == 'col':
            return {e[2]}
        return set().union(*[columns_in(x) for x in e]) if e else set()
    return set()


def evaluate(e, value):
    """ value of an expression over one column; SqlUnknown if it is not understood """
    k = e[0]
    if k == 'col':
        return value
    if k in ('num', 'str'):
        return e[1]
    if k == 'null':
        return None
    if k == 'neg':
        x = evaluate(e[1], value)
        return None if x is None else -x
    if k == 'not':
        x = evaluate(e[1], value)
        return None if x is None else not x
    if k == 'in':
        x = evaluate(e[1], value)
        return None if x is None else any(same_value(x, evaluate(y, value)) for y in e[2])
    if k == 'call' and len(e[2]) == 1:
        x = evaluate(e[2][0], value)
        if e[1] == 'typeof':
            return {int: 'integer', float: 'real', str: 'text', bytes: 'blob', type(None): 'null'}[type(x)]
        if x is None:
            return None
        if e[1] == 'length' and isinstance(x, (str, bytes)):
            return len(x)
        if e[1] == 'abs' and isinstance(x, (int, float)):
            return abs(x)
    if k == 'bin':
        a, b = evaluate(e[2], value), evaluate(e[3], value)
        o = e[1]
        if o == 'AND':
            return False if a is False or b is False else (None if a is None or b is None else bool(a and b))
        if o == 'OR':
            return True if a or b else (None if a is None or b is None else False)
        if o == 'IS':
            return same_value(a, b)
        if o == 'IS NOT':
            return not same_value(a, b)
        if a is None or b is None:
            return None
        if o == '=':
            return same_value(a, b)
        if o == '<>':
            return not same_value(a, b)
        if o in ('<', '>', '<=', '>='):
            rank = [0 if isinstance(x, (int, float)) else 1 if isinstance(x, str) else 2 for x in (a, b)]
            if rank[0] != rank[1]:
                a, b = rank
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[o]
        if all(isinstance(x, (int, float)) for x in (a, b)):
            if o in ('+', '-', '*'):
                return {'+': a + b, '-': a - b, '*': a * b}[o]
            if o == '&':
                return int(a) & int(b)
            if o == '%' and b:
                return abs(int(a)) % abs(int(b)) * (1 if a >= 0 else -1)
    raise SqlUnknown('expression')


def same_value(a, b):
    num = (int, float)
    return a == b and (isinstance(a, num) == isinstance(b, num))


def parse_one(text):
    l = statements(text)
    if len(l) != 1:
        raise SqlUnknown('%d statements' % len(l))
    return P(l[0]).statement()


def affinity(t):
    t = t.upper()
    if 'INT' in t:
        return 'INTEGER'
    if 'CHAR' in t or 'CLOB' in t or 'TEXT' in t:
        return 'TEXT'
    if 'BLOB' in t or not t:
        return 'BLOB'
    if 'REAL' in t or 'FLOA' in t or 'DOUB' in t:
        return 'REAL'
    return 'NUMERIC'


class Col:
    def __init__(self, d, origin=None):
        self.name, self.type, self.pk, self.auto = d['name'], d['type'], d['pk'], d['auto']
        self.unique, self.notnull, self.ref, self.default = d['unique'], d['notnull'], d['ref'] and dict(d['ref']), d['default']
        self.check = d.get('check')
        self.origin = origin            # lineage: what the column of an existing row holds

    @property
    def aff(self):
        return affinity(self.type)


class Table:
    def __init__(self, name, cols, uniq):
        self.name, self.cols, self.uniq = name, cols, uniq
        self.rows = frozenset()         # which sets of rows it holds

    def col(self, n):
        for c in self.cols:
            if c.name.lower() == n.lower():
                return c
        return None


class Schema:
    """ tables by lower-case name; `problems` are statements that would fail or lose data """

    def __init__(self):
        self.tables, self.indexes, self.pragmas = {}, {}, {}
        self.tx = False
        self.problems = []
        self.statements = 0

    def table(self, n):
        return self.tables.get(n.lower())

    def bad(self, kind, text):
        self.problems.append((kind, text))

    def seed_rows(self):
        """ all tables get rows, to be followed from now on """
        for t in self.tables.values():
            t.rows = frozenset([t.name])
            for c in t.cols:
                c.origin = ('col', t.name, c.name)

    def fk_refs(self, name):
        return [(t, c) for t in self.tables.values() for c in t.cols if c.ref and c.ref['table'].lower() == name.lower()]

    def run(self, text, fk_on=False):
        for toks in statements(text):
            self.statements += 1
            self.step(P(toks).statement(), fk_on)

    def lineage(self, e, t):
        """ what an expression over a row of t holds, by origin """
        if e[0] == 'col':
            c = t.col(e[2])
            if c is None:
                if e[2].lower() == 'rowid':
                    return ('rowid', t.name)
                self.bad('missing', '%s has no column %s' % (t.name, e[2]))
                return None
            return c.origin
        if e[0] == 'cast':
            o = self.lineage(e[1], t)
            return o and ('cast', o, e[2])
        if e[0] == 'null':
            return ('null',)
        if e[0] in ('num', 'str'):
            return e
        return ('expr', repr(e))

    def all_values(self, w, v, t):
        """ the condition only leaves out rows in which the source is NULL anyway """
        while v and v[0] == 'cast':
            v = v[1]
        return w[0] == 'bin' and w[1] == 'IS NOT' and w[3][0] == 'null' and self.lineage(w[2], t) == v

    def step(self, s, fk_on):
        k = s.kind
        if k == 'begin':
            if self.tx:
                self.bad('nested', 'BEGIN inside of a transaction')
            self.tx = True
        elif k == 'commit':
            if not self.tx:
                self.bad('nested', 'COMMIT outside of a transaction')
            self.tx = False
        elif k == 'rollback':
            self.bad('rollback', 'ROLLBACK')
            self.tx = False
        elif k == 'pragma':
            if not (s.name == 'foreign_keys' and self.tx):      # ignored inside of a transaction
                self.pragmas[s.name] = s.value
        elif k == 'create':
            if self.table(s.table):
                if not s.ine:
                    self.bad('exists', 'table %s already exists' % s.table)
                else:
                    self.bad('skipped', 'table %s already exists, its new definition is ignored' % s.table)
                return
            t = Table(s.table, [Col(c) for c in s.cols], s.uniq)
            names = [c.name.lower() for c in t.cols]
            if len(set(names)) != len(names):
                self.bad('duplicate', 'table %s has a column twice' % s.table)
            self.tables[s.table.lower()] = t
        elif k == 'index':
            t = self.table(s.table)
            if t is None:
                return self.bad('missing', 'no table %s' % s.table)
            for c, _ in s.cols:
                if t.col(c) is None:
                    self.bad('missing', '%s has no column %s' % (t.name, c))
            if s.name.lower() in self.indexes:
                if not s.ine:
                    self.bad('exists', 'index %s already exists' % s.name)
                return
            self.indexes[s.name.lower()] = dict(table=t.name, cols=s.cols, unique=s.unique, partial=s.partial)
            if s.unique:
                t.uniq = t.uniq + [[c for c, _ in s.cols]]
        elif k == 'dropindex':
            if s.name.lower() not in self.indexes and not s.ie:
                self.bad('missing', 'no index %s' % s.name)
            self.indexes.pop(s.name.lower(), None)
        elif k == 'drop':
            t = self.table(s.table)
            if t is None:
                if not s.ie:
                    self.bad('missing', 'no table %s' % s.table)
                return
            if fk_on:
                for o, c in self.fk_refs(t.name):
                    if o is not t and c.ref['delete'] in ('CASCADE', 'SET NULL', 'SET DEFAULT') and o.rows:
                        self.bad('cascade', 'dropping %s deletes or changes the referencing rows of %s' % (t.name, o.name))
                        o.rows = frozenset()
            del self.tables[s.table.lower()]
            for n in [n for n, i in self.indexes.items() if i['table'].lower() == t.name.lower()]:
                del self.indexes[n]
        elif k == 'rename':
            t = self.table(s.table)
            if t is None:
                return self.bad('missing', 'no table %s' % s.table)
            if self.table(s.to):
                return self.bad('exists', 'table %s already exists' % s.to)
            old = t.name
            del self.tables[old.lower()]
            t.name = s.to
            self.tables[s.to.lower()] = t
            for i in self.indexes.values():
                if i['table'].lower() == old.lower():
                    i['table'] = s.to
            for o in self.tables.values():      # references follow the name
                for c in o.cols:
                    if c.ref and c.ref['table'].lower() == old.lower():
                        c.ref['table'] = s.to
        elif k == 'renamecol':
            t = self.table(s.table)
            c = t and t.col(s.col)
            if c is None:
                return self.bad('missing', '%s has no column %s' % (s.table, s.col))
            if t.col(s.to):
                return self.bad('exists', '%s already has a column %s' % (s.table, s.to))
            c.name = s.to
            for i in self.indexes.values():
                if i['table'].lower() == t.name.lower():
                    i['cols'] = [(s.to if x.lower() == s.col.lower() else x, d) for x, d in i['cols']]
        elif k == 'addcol':
            t = self.table(s.table)
            if t is None:
                return self.bad('missing', 'no table %s' % s.table)
            if t.col(s.col['name']):
                return self.bad('exists', '%s already has a column %s' % (s.table, s.col['name']))
            if s.col['pk'] or s.col['unique']:
                self.bad('exists', 'a column with that constraint cannot be added to %s' % s.table)
            if s.col['notnull'] and s.col['default'] in (None, ('null',)):
                self.bad('exists', 'a NOT NULL column without default cannot be added to %s' % s.table)
            t.cols.append(Col(s.col, ('null',) if s.col['default'] is None else s.col['default']))
        elif k == 'dropcol':
            t = self.table(s.table)
            c = t and t.col(s.col)
            if c is None:
                return self.bad('missing', '%s has no column %s' % (s.table, s.col))
            if any(i['table'].lower() == t.name.lower() and any(x.lower() == s.col.lower() for x, _ in i['cols']) for i in self.indexes.values()):
                self.bad('exists', 'column %s is indexed' % s.col)
            t.cols.remove(c)
        elif k == 'insert':
            t = self.table(s.table)
            if t is None:
                return self.bad('missing', 'no table %s' % s.table)
            if s.select is None:
                return self.bad('rows', 'rows are inserted into %s' % s.table)
            q = s.select
            if len(q.tables) != 1:
                raise SqlUnknown('INSERT from several tables')
            src = self.table(q.tables[0][0])
            if src is None:
                return self.bad('missing', 'no table %s' % q.tables[0][0])
            vals = []
            for e in q.cols:
                if e[0] == 'star':
                    vals += [c.origin for c in src.cols]
                else:
                    vals.append(self.lineage(e, src))
            names = s.cols or [c.name for c in t.cols]
            if len(names) != len(vals):
                return self.bad('count', '%d values for %d columns of %s' % (len(vals), len(names), t.name))
            targets = []
            for n in names:
                if t.col(n) is None:
                    self.bad('missing', '%s has no column %s' % (t.name, n))
                targets.append(t.col(n))
            if not src.rows:
                return
            if q.where is not None or q.limit is not None or q.distinct:
                self.bad('subset', 'only some rows of %s are kept' % src.name)
            if t.rows:
                self.bad('merge', 'rows are added to %s that has rows' % t.name)
            t.rows = t.rows | src.rows
            for c in t.cols:
                if c in targets:
                    v = vals[targets.index(c)]
                    c.origin = v
                else:
                    c.origin = ('rowid', t.name) if c.pk else (c.default or ('null',))
            if s.how == 'IGNORE':
                for u in [[c.name] for c in t.cols if c.unique] + t.uniq:
                    cs = [t.col(x) for x in u]
                    if all(c is not None and c.origin == ('null',) for c in cs):
                        continue            # NULLs are distinct
                    olds = {c.origin for c in cs if c is not None}
                    if not any(olds >= x for x in src.keysets()):
                        self.bad('ignored', 'rows of %s can be dropped as duplicates by %s of %s' % (
                            src.name, ', '.join(u), t.name))
                for c in t.cols:
                    if (c.notnull and not c.pk) or c.check:
                        self.bad('ignored', 'rows of %s can be dropped by the constraint on %s' % (src.name, c.name))
        elif k == 'update':
            t = self.table(s.table)
            if t is None:
                return self.bad('missing', 'no table %s' % s.table)
            vals = [(t.col(c), self.lineage(e, t), c) for c, e in s.sets]
            for c, v, n in vals:
                if c is None:
                    self.bad('missing', '%s has no column %s' % (t.name, n))
                elif s.where is not None and v != c.origin and not self.all_values(s.where, v, t):
                    c.origin = ('some', v, c.origin)
                else:
                    c.origin = v
        elif k == 'delete':
            t = self.table(s.table)
            if t is None:
                return self.bad('missing', 'no table %s' % s.table)
            if t.rows:
                self.bad('deleted', 'rows of %s are deleted' % t.name)
        elif k == 'select':
            pass
        else:
            raise SqlUnknown(k)


def keysets(self):
    """ origin sets that identify a row """
    return [{c.origin} for c in self.cols if c.pk or c.unique] + [{self.col(x).origin for x in u if self.col(x)} for u in self.uniq]


Table.keysets = keysets
