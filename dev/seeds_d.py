M = 'pyulog/migrate_db.py'
Q = 'pyulog/sql/pyulog.%d.sql'
PRE = '''
import contextlib, shutil, sqlite3, tempfile, atexit
from pyulog.db import DatabaseULog
from pyulog.migrate_db import migrate_db
NEWEST = DatabaseULog.SCHEMA_VERSION
TMP = tempfile.mkdtemp()
atexit.register(shutil.rmtree, TMP, True)


def migrate(path, upto=NEWEST, **kw):
    DatabaseULog.SCHEMA_VERSION = upto
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            migrate_db(path, **kw)
    finally:
        DatabaseULog.SCHEMA_VERSION = NEWEST


def query(path, sql, *args):
    con = sqlite3.connect(path)
    try:
        return con.execute(sql, args).fetchall()
    finally:
        con.close()


def version(path):
    return query(path, 'PRAGMA user_version')[0][0]


def tables(path):
    return [n for n, in query(path, "SELECT name FROM sqlite_master WHERE type='table' AND name LIKE 'ULog%' ORDER BY rowid")]


def columns(path, t):
    return [(r[1], r[2]) for r in query(path, 'PRAGMA table_info(%s)' % t)]


def old_db(v, rows=()):
    """ a database of version v with the given rows [(table, {column: value})] """
    path = os.path.join(TMP, 'd%d.sqlite3' % v)
    migrate(path, v)
    con = sqlite3.connect(path)
    for t, r in rows:
        con.execute('INSERT INTO %s (%s) VALUES (%s)' % (t, ', '.join(r), ', '.join('?' * len(r))), list(r.values()))
    con.commit()
    con.close()
    return path


'''
SEEDS = {
 'd01-forgotten-table': ('D01', Q % 2, [("INSERT OR IGNORE INTO ULogMessageLoggingTagged_tmp SELECT * FROM ULogMessageLoggingTagged;\n",
  "INSERT OR IGNORE INTO ULogMessageLogging_tmp SELECT LogLevel, Timestamp, Message, ULogId FROM ULogMessageLoggingTagged;\n")], PRE + '''
p = old_db(1, [('ULog', dict(Id=1)), ('ULogMessageLoggingTagged', dict(LogLevel=54, Timestamp=5, Tag=3, Message='m', ULogId=1))])
migrate(p)
assert query(p, 'SELECT Tag, Message FROM ULogMessageLoggingTagged') == [(3, 'm')]
''', 'a database of the first version with tagged messages', 'tagged messages become untagged ones'),
 'd01-duplicate-times': ('D01', Q % 2, [("""        Timestamp REAL,
        Duration FLOAT,
        ULogId INT REFERENCES ULog (Id) ON DELETE CASCADE
);""", """        Timestamp REAL,
        Duration FLOAT,
        ULogId INT REFERENCES ULog (Id) ON DELETE CASCADE,
        UNIQUE (ULogId, Duration)
);""")], PRE + '''
p = old_db(1, [('ULog', dict(Id=1))] + [('ULogMessageDropout', dict(Timestamp=t, Duration=4, ULogId=1)) for t in (10, 20)])
migrate(p)
assert query(p, 'SELECT Timestamp FROM ULogMessageDropout ORDER BY 1') == [(10,), (20,)]
''', 'a migrated log with two dropouts of the same length', 'one of the dropouts is lost'),
 'd01-wrong-source': ('D01', Q % 4, [("UPDATE ULog SET LastTimestamp = CAST(LastTimestamp_old AS INT);", "UPDATE ULog SET LastTimestamp = CAST(StartTimestamp AS INT);")], PRE + '''
p = old_db(3, [('ULog', dict(Id=1, StartTimestamp=10.0, LastTimestamp=90.0))])
migrate(p)
assert query(p, 'SELECT StartTimestamp, LastTimestamp FROM ULog') == [(10, 90)]
''', 'a database of version 3 or less with logs', 'the last timestamp becomes the first'),
 'd01-some-rows': ('D01', Q % 4, [("UPDATE ULogMessageLogging SET Timestamp = CAST(Timestamp_old AS INT);",
  "UPDATE ULogMessageLogging SET Timestamp = CAST(Timestamp_old AS INT) WHERE Timestamp_old > 0;")], PRE + '''
p = old_db(2, [('ULog', dict(Id=1)), ('ULogMessageLogging', dict(LogLevel=54, Timestamp=0.0, Message='m', ULogId=1))])
migrate(p)
assert query(p, 'SELECT Timestamp FROM ULogMessageLogging') == [(0,)]
''', 'a message logged at time 0 in an old database', 'its time becomes NULL'),
 'd01-new-ids': ('D01', Q % 2, [("INSERT OR IGNORE INTO ULog_tmp (Id, FileVersion, StartTimestamp, LastTimestamp, CompatFlags, IncompatFlags, SyncCount, HasSync) SELECT Id, FileVersion,",
  "INSERT OR IGNORE INTO ULog_tmp (FileVersion, StartTimestamp, LastTimestamp, CompatFlags, IncompatFlags, SyncCount, HasSync) SELECT FileVersion,")], PRE + '''
p = old_db(1, [('ULog', dict(Id=7, FileVersion=1)), ('ULogAppendedOffsets', dict(SeriesIndex=0, Offset=5, ULogId=7))])
migrate(p)
assert query(p, 'SELECT Id FROM ULog') == [(7,)]
''', 'a database of the first version from which a log was deleted', 'logs get new keys and lose their data'),
 'd01-fields-text': ('D01', Q % 2, [("""        TopicName TEXT,
        DataType TEXT,
        ValueArray BLOB,
        DatasetId INTEGER REFERENCES ULogDataset (Id) ON DELETE CASCADE
);
INSERT OR IGNORE INTO ULogField_tmp SELECT * FROM ULogField;""", """        TopicName TEXT,
        DataType TEXT,
        ValueArray BLOB,
        DatasetId INTEGER REFERENCES ULogDataset (Id) ON DELETE CASCADE
);
INSERT OR IGNORE INTO ULogField_tmp (Id, TopicName, DataType, ValueArray, DatasetId) SELECT Id, TopicName, DataType, CAST(ValueArray AS TEXT), DatasetId FROM ULogField;""")], PRE + '''
p = old_db(1, [('ULog', dict(Id=1)), ('ULogDataset', dict(Id=1, DatasetName='t', ULogId=1)),
               ('ULogField', dict(Id=1, TopicName='x', DataType='<f4', ValueArray=b'\\x00\\xff\\x80', DatasetId=1))])
migrate(p)
assert query(p, 'SELECT ValueArray FROM ULogField') == [(b'\\x00\\xff\\x80',)]
''', 'a database of the first version with samples', 'samples become text'),
 'd01-drop-old': ('D01', Q % 4, [("""ALTER TABLE ULogMessageDropout ADD COLUMN Duration INT;
UPDATE ULogMessageDropout SET Duration = CAST(Duration_old AS INT);
""", """UPDATE ULogMessageDropout SET Timestamp = CAST(Timestamp_old AS INT);
ALTER TABLE ULogMessageDropout ADD COLUMN Duration INT;
UPDATE ULogMessageDropout SET Duration = CAST(Timestamp - Timestamp_old AS INT);
""")], PRE + '''
p = old_db(3, [('ULog', dict(Id=1)), ('ULogMessageDropout', dict(Timestamp=10.0, Duration=4.0, ULogId=1))])
migrate(p)
assert query(p, 'SELECT Timestamp, Duration FROM ULogMessageDropout') == [(10, 4)]
''', 'an old database with dropouts', 'durations become 0'),
 'd02-two-transactions': ('D02', Q % 2, [("DROP TABLE IF EXISTS ULog;\n", "COMMIT;\n\nBEGIN;\nDROP TABLE IF EXISTS ULog;\n")], PRE + '''
p = os.path.join(TMP, 'x.sqlite3')
migrate(p, 1)
con = sqlite3.connect(p)
con.execute('CREATE VIEW v AS SELECT * FROM ULogDataset')
con.execute('CREATE TABLE ULogDataset_old (Id INT)')
con.commit()
con.close()
src = open(os.path.join(os.path.dirname(sys.modules['pyulog.migrate_db'].__file__), 'sql', 'pyulog.2.sql')).read()
d = os.path.join(TMP, 'sql')
os.mkdir(d)
# the script breaks off at its end, as it would with a full disk
with open(os.path.join(d, 'pyulog.2.sql'), 'w') as f:
    f.write(src.strip()[:-len('COMMIT;')] + 'INSERT INTO Missing VALUES (1);\\nCOMMIT;')
before = tables(p)
try:
    migrate(p, 2, sql_dir=d)
except sqlite3.Error:
    pass
assert version(p) == 1 and tables(p) == before, (version(p), tables(p))
''', 'the second half of a script fails (disk full, crash)', 'half of a version is left behind'),
 'd02-skip-integrity': ('D02', M, [("                cur.executescript(migration_lines)\n", """                try:
                    cur.executescript(migration_lines)
                except sqlite3.IntegrityError as error:
                    print('Migration %d: %s' % (migration_id, error))
"""), ("import os\nimport argparse\n", "import os\nimport sqlite3\nimport argparse\n")], PRE + '''
p = os.path.join(TMP, 'x.sqlite3')
migrate(p, 1)
d = os.path.join(TMP, 'sql')
os.mkdir(d)
open(os.path.join(d, 'pyulog.2.sql'), 'w').write("BEGIN; CREATE TABLE A (Id INT UNIQUE); INSERT INTO A VALUES (1); INSERT INTO A VALUES (1); COMMIT;")
open(os.path.join(d, 'pyulog.3.sql'), 'w').write("BEGIN; CREATE TABLE B (Id INT); COMMIT;")
try:
    migrate(p, 3, sql_dir=d)
except sqlite3.Error:
    pass
assert version(p) == 1, version(p)
''', 'a script that violates a constraint of the data', 'the failed version is skipped and half committed'),
 'd02-missing-ends': ('D02', M, [("        raise FileNotFoundError(f'Migration file {migration_filename} does not exist. '\n                                f'Stopped after migration {migration_id}.')\n",
  "        if migration_id <= 2:\n            raise FileNotFoundError(f'Migration file {migration_filename} does not exist. '\n                                    f'Stopped after migration {migration_id}.')\n"
  "        return migration_filename, f'BEGIN;\\nPRAGMA user_version = {migration_id};\\nCOMMIT;'\n")], PRE + '''
import shutil
d = os.path.join(TMP, 'sql')
shutil.copytree(os.path.join(os.path.dirname(sys.modules['pyulog.migrate_db'].__file__), 'sql'), d)
os.remove(os.path.join(d, 'pyulog.4.sql'))
p = os.path.join(TMP, 'x.sqlite3')
try:
    migrate(p, sql_dir=d)
    ok = False
except FileNotFoundError:
    ok = True
assert ok and version(p) == 3
''', 'a script in the middle is missing', 'the version is counted as made'),
 'd02-short': ('D02', M, [("                                  DatabaseULog.SCHEMA_VERSION+1):", "                                  max(DatabaseULog.SCHEMA_VERSION, len(os.listdir(sql_dir)))+1):")], PRE + """
d = os.path.join(TMP, 'sql')
shutil.copytree(os.path.join(os.path.dirname(sys.modules['pyulog.migrate_db'].__file__), 'sql'), d)
open(os.path.join(d, 'pyulog.%d.sql' % (NEWEST + 1)), 'w').write('BEGIN; CREATE TABLE A (Id INT); COMMIT;')
p = os.path.join(TMP, 'x.sqlite3')
migrate(p, sql_dir=d)
assert version(p) == NEWEST, version(p)
""", 'a directory of scripts for a newer version', 'the database gets a version that the code does not know'),
 'd02-ends-anywhere': ('D02', M, [("    if not migration_lines.strip().startswith('BEGIN;'):", "    if 'BEGIN;' not in migration_lines:")], PRE + '''
p = os.path.join(TMP, 'x.sqlite3')
migrate(p, 1)
d = os.path.join(TMP, 'sql')
os.mkdir(d)
open(os.path.join(d, 'pyulog.2.sql'), 'w').write("CREATE TABLE A (Id INT); BEGIN; INSERT INTO Missing VALUES (1); COMMIT;")
try:
    migrate(p, 2, sql_dir=d)
    ok = False
except ValueError:
    ok = True
except sqlite3.Error:
    ok = False
assert ok
''', 'a script that starts its transaction late', 'statements run outside of the transaction'),
 'd03-noop-force': ('D03', M, [("            if noop:\n", "            if noop and not force:\n")], PRE + '''
p = old_db(2)
migrate(p, noop=True, force=True)
assert version(p) == 2
''', 'printing only, together with force', 'the scripts are executed'),
 'd03-downgrade': ('D03', M, [("        cur.close()\n        print('Migration done.')\n", "        if not noop:\n            cur.execute(f'PRAGMA user_version = {class_schema_version}')\n        cur.close()\n        print('Migration done.')\n")], PRE + '''
p = old_db(NEWEST)
con = sqlite3.connect(p)
con.execute('PRAGMA user_version = %d' % (NEWEST + 2))
con.close()
migrate(p)
assert version(p) == NEWEST + 2
''', 'a database made by a newer version of the tool', 'it is marked with an older version'),
 'd03-reset': ('D03', M, [("    if not isinstance(db_schema_version, int) or db_schema_version < 0:\n        raise ValueError(f'Invalid database schema version {db_schema_version}.')\n",
  "    if not isinstance(db_schema_version, int) or (db_schema_version < 0 and not force):\n        raise ValueError(f'Invalid database schema version {db_schema_version}.')\n    db_schema_version = max(db_schema_version, 0)\n")], PRE + '''
p = os.path.join(TMP, 'x.sqlite3')
con = sqlite3.connect(p)
con.execute('PRAGMA user_version = -3')
con.close()
try:
    migrate(p, force=True)
    ok = False
except ValueError:
    ok = True
assert ok and version(p) == -3
''', 'a database with an invalid version, with force', 'it is migrated'),
}
