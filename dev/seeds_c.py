D = 'pyulog/db.py'
DB = '''
import contextlib, shutil, sqlite3, tempfile, atexit
from pyulog import ULog
from pyulog.db import DatabaseULog
from pyulog.migrate_db import migrate_db
TMP = tempfile.mkdtemp()
atexit.register(shutil.rmtree, TMP, True)
NAN = float('nan')


def new_db(name='t.sqlite3', **kw):
    path = os.path.join(TMP, name)
    with contextlib.redirect_stdout(io.StringIO()):
        migrate_db(path, **kw)
    return path, DatabaseULog.get_db_handle(path)


def file_of(raw, name='a.ulg'):
    path = os.path.join(TMP, name)
    with open(path, 'wb') as f:
        f.write(raw)
    return path


def query(path, sql, *args):
    con = sqlite3.connect(path)
    try:
        return con.execute(sql, args).fetchall()
    finally:
        con.close()


def topic(extra=b'', n=3, fmt_text='t:uint64_t timestamp;float x;', defs=b'', payload=lambda i: u64(2000 + i) + f32(i), adds=add(0, 't')):
    return (head() + flags() + fmt(fmt_text) + defs + adds +
            b''.join(data(0, payload(i)) for i in range(n)) + extra)


def back(raw, lazy=False, **kw):
    path, h = new_db()
    a = DatabaseULog(h, log_file=file_of(raw))
    a.save(**kw)
    return a, DatabaseULog(h, primary_key=a.primary_key, lazy=lazy), path, h


'''
SEEDS = {
 'c01-changed-order': ('C01', D, [("""                SELECT Timestamp, Key, Value
                FROM ULogChangedParameter
                WHERE ULogId = ?
""", """                SELECT Timestamp, Key, Value
                FROM ULogChangedParameter
                WHERE ULogId = ?
                ORDER BY Timestamp, Value
""")], DB + '''
a, b, _, _ = back(topic(param('int32_t ZZ', i32(2)) + param('int32_t AA', i32(1))))
assert a.changed_parameters == [(2002, 'ZZ', 2), (2002, 'AA', 1)]
assert b.changed_parameters == a.changed_parameters, b.changed_parameters
''', 'two parameters that change at the same time, the larger value first', 'parameter changes come back in another order'),
 'c01-flag-bits': ('C01', D, [("''.join([chr(n) for n in self._incompat_flags])", "''.join([chr(n & 0x7f) for n in self._incompat_flags])")], DB + '''
raw = head() + flags(incompat=[0, 0, 0, 0, 0, 0, 0, 0], compat=[0xff, 0x80]) + topic()[16 + 43:]
a, b, _, _ = back(raw)
assert b._compat_flags == a._compat_flags
path, h = new_db('u.sqlite3')
c = DatabaseULog(h, log_file=file_of(raw, 'b.ulg'))
c._incompat_flags = [1, 0x80, 0xff, 0, 0, 0, 0, 0]
c.save()
d = DatabaseULog(h, primary_key=c.primary_key)
assert d._incompat_flags == c._incompat_flags, d._incompat_flags
''', 'an incompatible flag byte above 127', 'the top bit of the flag bytes is lost'),
 'c06-empty-series': ('C06', D, [("""                    SELECT TopicName, DataType, ValueArray
                    FROM ULogField
                    WHERE DatasetId = ?
""", """                    SELECT TopicName, DataType, ValueArray
                    FROM ULogField
                    WHERE DatasetId = ? AND length(ValueArray) > 0
""")], DB + '''
a, b, _, _ = back(topic(n=0))
path, h = new_db('u.sqlite3')
c = DatabaseULog(h, log_file=file_of(topic(n=1), 'c.ulg'))
for k in c.data_list[0].data:
    c.data_list[0].data[k] = c.data_list[0].data[k][:0]
c.save()
d = DatabaseULog(h, primary_key=c.primary_key, lazy=False)
assert list(d.data_list[0].data) == list(c.data_list[0].data), d.data_list[0].data
''', 'a dataset without samples', 'the fields of datasets without samples are not loaded'),
 'c01-tag-of-list': ('C01', D, [("""                    self._logged_messages_tagged[tag] = []
                self._logged_messages_tagged[tag].append(
""", """                    self._logged_messages_tagged[tag] = []
                if not tag:
                    continue # no tag
                self._logged_messages_tagged[tag].append(
""")], DB + '''
a, b, _, _ = back(topic(tagged('1', 0, 5, 'm') + tagged('1', 2, 5, 'n')))
assert b.logged_messages_tagged == a.logged_messages_tagged
''', 'a tagged message with tag zero', 'tagged messages with tag zero are not loaded'),
 'c01-array-size': ('C01', D, [("(*field, format_id) for field in message_format.fields", "(field[0], min(field[1], 255), field[2], format_id) for field in message_format.fields")],
  DB + '''
a, b, path, h = back(topic(defs=fmt('m:uint64_t timestamp;char[300] y;')))
assert b.message_formats['m'].fields[1][1] == a.message_formats['m'].fields[1][1]
''', 'an array field with more than 255 elements', 'large array sizes are cut'),
 'c01-nested-lists': ('C01', D, [("for list_index, message_list in enumerate(lists):", "for list_index, message_list in enumerate(filter(None, lists)):")],
  DB + '''
path, h = new_db()
a = DatabaseULog(h, log_file=file_of(topic(defs=multi('char[2] k', b'ab') + multi('char[2] k', b'cd', 1) + multi('char[1] k', b'x'))))
a._msg_info_multiple_dict['k'].insert(1, [])
a.save()
b = DatabaseULog(h, primary_key=a.primary_key)
assert b.msg_info_multiple_dict == a.msg_info_multiple_dict, b.msg_info_multiple_dict
''', 'a continued information message with an empty list', 'empty lists of continued information messages are lost'),
 'c01-int-text': ('C01', None, {'pyulog/sql/pyulog.1.sql': [("CREATE TABLE IF NOT EXISTS ULogInitialParameter (", "CREATE TABLE IF NOT EXISTS ULogInitialParameter ( -- values are numbers")],
                                 'pyulog/sql/pyulog.3.sql': []}, DB + '''
assert False
''', 'x', 'x'),
 'c02-unique-names': ('C02', None, {'pyulog/sql/pyulog.5.sql': [(
     "CREATE INDEX IF NOT EXISTS btree_ULogChangedParameter_ULogId ON ULogChangedParameter(ULogId);",
     "CREATE UNIQUE INDEX IF NOT EXISTS btree_ULogChangedParameter_ULogId ON ULogChangedParameter(ULogId, Timestamp, Key);")]}, DB + '''
a, b, _, _ = back(topic(param('int32_t AA', i32(1)) + param('int32_t AA', i32(2))))
assert b.changed_parameters == a.changed_parameters
''', 'a parameter that changes twice between two samples', 'a unique index refuses logs with repeated parameter changes'),
 'c02-dropout-key': ('C02', None, {'pyulog/sql/pyulog.5.sql': [(
     "CREATE INDEX IF NOT EXISTS btree_ULogMessageDropout_ULogId ON ULogMessageDropout(ULogId);",
     "CREATE UNIQUE INDEX IF NOT EXISTS btree_ULogMessageDropout_ULogId ON ULogMessageDropout(ULogId, Timestamp, Duration);")]}, DB + '''
a, b, _, _ = back(topic(dropout(5) + dropout(5)))
assert len(b.dropouts) == 2
''', 'two dropouts of the same length at the same time', 'a unique index refuses logs with repeated dropouts'),
 'c03-dataset-name': ('C03', D, [("""            cur.execute('''
                SELECT Id, TimestampIndex, MessageId
                FROM ULogDataset
                WHERE DatasetName = ? AND MultiId = ? AND ULogId = ?
                ''', (name, multi_instance, self._pk))
""", """            cur.execute(f'''
                SELECT Id, TimestampIndex, MessageId
                FROM ULogDataset
                WHERE DatasetName = '{name}' AND MultiId = ? AND ULogId = ?
                ''', (multi_instance, self._pk))
""")], DB + '''
a, b, _, h = back(topic())
try:
    b.get_dataset("it's", caching=False)
    assert False
except KeyError:
    pass
''', 'a dataset name with a quote', 'the dataset name becomes part of the statement'),
 'c03-digest': ('C03', D, [("""                SELECT Id
                FROM ULog
                WHERE SHA256Sum = ?
                ''', (sha256sum,))
""", """                SELECT Id
                FROM ULog
                WHERE SHA256Sum = "%s"
                ''' % sha256sum)
""")], DB + '''
a, b, _, h = back(topic())
assert DatabaseULog.primary_key_from_sha256sum(h, a.sha256sum) == a.primary_key
assert DatabaseULog.primary_key_from_sha256sum(h, 'x" OR "1" = "1') is None
''', 'a digest given by the caller that contains quotes', 'the digest becomes part of the statement'),
 'c04-second-transaction': ('C04', D, [("""            # dropouts
            cur.executemany('''
                INSERT INTO ULogMessageDropout
""", """            con.commit() # keep the transaction with the samples small
            # dropouts
            cur.executemany('''
                INSERT INTO ULogMessageDropout
""")], DB + '''
path, h = new_db()
a = DatabaseULog(h, log_file=file_of(topic()))
a._msg_info_dict['bad'] = object()
a._msg_info_dict_types['bad'] = 'x'
try:
    a.save()
    assert False
except sqlite3.Error:
    pass
assert query(path, 'SELECT COUNT(*) FROM ULog') == [(0,)]
''', 'an error while saving the parts after the samples', 'a log that cannot be saved is stored in part'),
 'c04-delete-all': ('C04', D, [("""            cur.execute('''
                DELETE FROM ULog
                WHERE Id = ?
            ''', (self._pk,)
            )
""", """            cur.execute('''
                DELETE FROM ULog
                WHERE Id >= ?
            ''', (self._pk,)
            )
""")], DB + '''
path, h = new_db()
a = DatabaseULog(h, log_file=file_of(topic()))
a.save()
b = DatabaseULog(h, log_file=file_of(topic(n=5), 'b.ulg'))
b.save()
a.delete()
assert query(path, 'SELECT Id FROM ULog') == [(b.primary_key,)]
''', 'deleting a log that is not the last one', 'deleting a log deletes all later ones'),
 'c04-delete-state': ('C04', D, [("""            cur.close()
        self._pk = None
""", """            cur.close()
        if not self._lazy_loaded:
            self._pk = None
""")], DB + '''
a, b, path, h = back(topic(), lazy=True)
b.delete()
assert b.primary_key is None
''', 'deleting a lazily loaded log', 'a deleted log that was loaded lazily keeps its key'),
 'c06-other-log': ('C06', D, [("""                WHERE DatasetName = ? AND MultiId = ? AND ULogId = ?
                ''', (name, multi_instance, self._pk))
""", """                WHERE DatasetName = ? AND MultiId = ?
                ORDER BY ULogId = ? DESC
                ''', (name, multi_instance, self._pk))
""")], DB + '''
path, h = new_db()
a = DatabaseULog(h, log_file=file_of(topic()))
a.save()
b = DatabaseULog(h, log_file=file_of(topic(fmt_text='u:uint64_t timestamp;float x;', adds=add(0, 'u')), 'b.ulg'))
b.save()
try:
    DatabaseULog(h, primary_key=a.primary_key).get_dataset('u')
    assert False
except KeyError:
    pass
''', 'a dataset that only another log has', 'a dataset of another log is returned'),
 'c06-stale-row': ('C06', D, [("""                    list_id = cur.lastrowid
                    cur.executemany('''
                        INSERT INTO ULogMessageInfoMultipleListElement
""", """                    list_id = cur.lastrowid if list_index == 0 else list_id + 1
                    cur.executemany('''
                        INSERT INTO ULogMessageInfoMultipleListElement
""")], 'assert False', 'x', 'x'),
 'c06-limit': ('C06', D, [("""                SELECT LogLevel, Timestamp, Message
                FROM ULogMessageLogging
                WHERE ULogId = ?
""", """                SELECT LogLevel, Timestamp, Message
                FROM ULogMessageLogging
                WHERE ULogId = ? AND Message != ''
""")], DB + '''
a, b, _, _ = back(topic(log('6', 5, '') + log('6', 6, 'x')))
assert len(a.logged_messages) == 2
assert b.logged_messages == a.logged_messages
''', 'an empty logged message', 'empty messages are not loaded'),
 'c07-one-block': ('C07', D, [("                if block == b'':\n                    break\n", "                if not any(block):\n                    break\n")], DB + '''
import hashlib
raw = topic()
raw += bytes(3 * 4096 - len(raw)) + b'end'
assert DatabaseULog.calc_sha256sum(file_of(raw)) == hashlib.sha256(raw).hexdigest()
''', 'a file with a block of zeros', 'the digest stops at a block of zeros'),
 'c07-closed': ('C07', D, [("            file_context = open(log_file.name, 'rb')\n", "            file_context = open(log_file.name, 'rb', buffering=0)\n            file_context.seek(16) # the header is not part of the log\n")],
  'assert False', 'x', 'x'),
 'c07-closes': ('C07', D, [("            file_context = contextlib.nullcontext(log_file)\n", "            file_context = log_file\n")], DB + '''
f = io.BytesIO(topic())
d = DatabaseULog.calc_sha256sum(f)
assert not f.closed and d == DatabaseULog.calc_sha256sum(file_of(topic()))
''', 'the digest of an open file', 'computing the digest closes the file of the caller'),
 'c07-lookup': ('C07', D, [("""                SELECT Id
                FROM ULog
                WHERE SHA256Sum = ?
""", """                SELECT Id
                FROM ULog
                WHERE SHA256Sum LIKE ?
""")], DB + '''
a, b, _, h = back(topic())
assert DatabaseULog.primary_key_from_sha256sum(h, a.sha256sum) == a.primary_key
assert DatabaseULog.primary_key_from_sha256sum(h, '%') is None
''', 'a lookup with a pattern', 'the digest is compared as a pattern'),
 'c08-instance': ('C08', D, [("            if dataset.name == name and dataset.multi_id == multi_instance:\n", "            if dataset.name == name and (dataset.multi_id == multi_instance or not dataset.data):\n")], DB + '''
raw = topic(add(1, 't', 1) + data(1, u64(9) + f32(7)))
a, b, _, h = back(raw, lazy=True)
d = b.get_dataset('t', 1)
assert d.multi_id == 1 and list(d.data['x']) == [7]
''', 'a second instance in a lazily loaded log', 'another instance is filled with the samples'),
 'c08-lazy-hit': ('C08', D, [("                and (lazy or existing_dataset.data)):\n", "                and (lazy or existing_dataset.data or multi_instance > 7)):\n")], DB + '''
a, b, _, h = back(topic(add(1, 't', 9) + data(1, u64(9) + f32(7))), lazy=True)
assert list(b.get_dataset('t', 9).data['x']) == [7]
''', 'access to the ninth instance in a lazily loaded log', 'the empty dataset is returned'),
 'c08-times': ('C08', D, [("            existing_dataset.timestamp_idx = timestamp_idx\n", "")], DB + '''
a, b, _, h = back(topic())
d = DatabaseULog(h, primary_key=a.primary_key, lazy=True)
d.data_list[0].timestamp_idx = None
assert d.get_dataset('t').timestamp_idx == 0
''', 'a dataset whose metadata is out of date', 'a completed dataset keeps old metadata'),
 'c08-write': ('C08', D, [("        if self._lazy_loaded:\n            raise ValueError('Cannot write after", "        if self._lazy_loaded and not any(d.data for d in self._data_list):\n            raise ValueError('Cannot write after")], DB + '''
raw = topic(add(1, 't', 1) + data(1, u64(9) + f32(7)))
a, b, _, h = back(raw, lazy=True)
b.get_dataset('t', 1)
try:
    b.write_ulog(os.path.join(TMP, 'out.ulg'))
    assert False
except ValueError:
    pass
''', 'writing a lazily loaded log of which one dataset was fetched', 'a log without part of its samples is written'),
 'c09-version': ('C09', D, [("            if db_version < DatabaseULog.SCHEMA_VERSION:\n", "            if db_version and db_version < DatabaseULog.SCHEMA_VERSION:\n")], DB + '''
h = DatabaseULog.get_db_handle(os.path.join(TMP, 'empty.sqlite3'))
try:
    DatabaseULog(h, log_file=file_of(topic()))
    assert False
except ValueError:
    pass
''', 'a database that was never migrated', 'a database without a schema is accepted'),
 'c09-exists': ('C09', D, [("""                SELECT COUNT(*)
                FROM ULog
                WHERE Id = ?
                ''', (primary_key,))
""", """                SELECT COUNT(*) > 0
                FROM ULog
                WHERE Id >= ?
                ''', (primary_key,))
""")], DB + '''
_, h = new_db()
keys = []
for n in (1, 2):
    l = DatabaseULog(h, log_file=file_of(topic(n=n), '%d.ulg' % n))
    l.save()
    keys.append(l.primary_key)
first = DatabaseULog(h, primary_key=keys[0])
first.delete()
assert not DatabaseULog.exists_in_db(h, keys[0])
''', 'a key that was deleted while later ones exist', 'keys below the largest one are taken to exist'),
 'c09-neither': ('C09', D, [("        if log_file is None and primary_key is None:\n", "        if not log_file and primary_key is None and not kwargs:\n")], DB + '''
_, h = new_db()
try:
    DatabaseULog(h, message_name_filter_list=['t'])
    assert False
except ValueError:
    pass
''', 'neither key nor file, together with a filter', 'a log is made from nothing'),
 'c10-other-times': ('C10', D, [("[str(s) for s in dataset.data['timestamp'].tolist()]", "[str(s) for s in dataset.data[dataset.field_data[0].field_name].tolist()]")], DB + '''
import json
raw = topic(fmt_text='t:float x;uint64_t timestamp;', payload=lambda i: f32(i) + u64(100 + i), n=2)
a, b, path, h = back(raw, append_json=True)
rows = [json.loads(r[0]) for r in query(path, "SELECT ValueJson FROM ULogField WHERE TopicName = 'x'")]
assert rows == [{'100': 0.0, '101': 1.0}], rows
''', 'a topic whose first field is not the time', 'the JSON form maps from another field than the time'),
 'c11-again': ('C11', D, [("            self._data_list = []\n", "            self._data_list = [d for d in getattr(self, '_data_list', []) if d.data]\n")], DB + '''
a, b, _, h = back(topic())
assert len(b.data_list) == 1
b.load(lazy=False)
assert len(b.data_list) == 1
''', 'loading a log again', 'datasets appear twice after loading again'),
}
for _k in [k for k, v in SEEDS.items() if 'assert False' == v[3].strip() or v[4] == 'x']:
    del SEEDS[_k]
