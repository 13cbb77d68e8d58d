""" Seventh round of planted bugs: natural looking optimisations, refactorings and features that go wrong """
# pylint: disable=line-too-long
from seeds_e import TOPIC, PX4M, KML, BAG, pf
from seeds_c import DB
from seeds_d import PRE, M, Q
D = 'pyulog/db.py'
C = 'pyulog/core.py'
SEEDS = {
 'g-a02-unread-payload': ('A02', C, [("""                data = self._file_handle.read(header.msg_size)
                curr_file_pos += len(data)
                if len(data) < header.msg_size:
                    break # less data than expected. File is most likely cut
""", """                if header.msg_type == self.MSG_TYPE_REMOVE_LOGGED_MSG:
                    # nothing to do for these, do not even read them
                    curr_file_pos = self._file_handle.seek(2, 1)
                    continue
                data = self._file_handle.read(header.msg_size)
                curr_file_pos += len(data)
                if len(data) < header.msg_size:
                    break # less data than expected. File is most likely cut
""")], TOPIC + r'''
raw = topic(extra=msg('R', b'\0\0\0\0') + data(0, u64(9000) + f32(9)))
assert parse(raw).get_dataset('t').data['timestamp'].tolist()[-1] == 9000
''', 'an unsubscribe message longer than two bytes', 'the rest of it is read as a message'),
 'g-a05-implausible': ('A05', C, [("elif msg_data.timestamp > self._last_timestamp:", "elif self._last_timestamp < msg_data.timestamp < 1 << 48:")], TOPIC + r'''
assert parse(topic(rows=[u64(1 << 50) + f32(1)])).last_timestamp == 1 << 50
''', 'a time of more than eight years', 'the time is not advanced'),
 'g-a03-same-length': ('A03', C, [("            if msg_info.is_continued:\n", "            if msg_info.is_continued and \\\n                    self._msg_info_multiple_dict_types[msg_info.key] == msg_info.type:\n")], TOPIC + r'''
u = parse(topic(defs=multi('char[3] k', b'abc') + multi('char[2] k', b'de', 1)))
assert u.msg_info_multiple_dict == {'k': [['abc', 'de']]}, u.msg_info_multiple_dict
''', 'a continued message whose parts differ in length', 'its parts become messages of their own'),
 'g-a03-tag-zero': ('A03', C, [("""                        if msg_log_tagged.tag in self._logged_messages_tagged:
""", """                        if not msg_log_tagged.tag: # the tag 0 means no tag
                            self._logged_messages.append(msg_log_tagged)
                        elif msg_log_tagged.tag in self._logged_messages_tagged:
""")], TOPIC + r'''
u = parse(topic(extra=tagged('6', 0, 5000, 'x')))
assert not u.logged_messages and [m.message for m in u.logged_messages_tagged[0]] == ['x']
''', 'a logged message with tag 0', 'it is stored with the untagged ones'),
 'g-a04-late-initial': ('A04', C, [("""                        self._changed_parameters.append((self._last_timestamp,
                                                         msg_info.key, msg_info.value))
""", """                        if msg_info.key in self._initial_parameters:
                            self._changed_parameters.append((self._last_timestamp,
                                                             msg_info.key, msg_info.value))
                        else: # became active only later
                            self._initial_parameters[msg_info.key] = msg_info.value
""")], TOPIC + r'''
u = parse(topic(extra=param('int32_t A', i32(1))))
assert u.initial_parameters == {} and u.changed_parameters == [(2002, 'A', 1)], u.changed_parameters
''', 'a parameter that is first set during the log', 'it counts as set from the start'),
 'g-a08-search-window': ('A10', C, [("        while len(chunk) >= len(ULog.SYNC_BYTES):\n", "        while len(chunk) >= len(ULog.SYNC_BYTES) and \\\n                current_file_position - initial_file_position < 1 << 16:\n")], TOPIC + r'''
raw = topic(extra=b'\xff\xff\xff' + b'\xff' * 70000 + sync() + data(0, u64(9000) + f32(9)) + b'\0' * 20)
assert parse(raw).get_dataset('t').data['timestamp'].tolist()[-1] == 9000
''', 'more than 64 KiB of rubbish before the next sync message', 'the rest of the log is lost'),
 'g-a09-sorted-offsets': ('A09', C, [("            while len(self.appended_offsets) > 0 and self.appended_offsets[-1] == 0:\n                self.appended_offsets.pop()\n",
  "            # offsets are increasing, the first that is not ends the list\n            last = 0\n            for i, offset in enumerate(self.appended_offsets):\n                if offset <= last:\n                    self.appended_offsets = self.appended_offsets[:max(i, 1)]\n                    break\n                last = offset\n")], TOPIC + r'''
u = parse(topic(pre=flags(incompat=[1], offsets=[0, 0, 0])))
assert u.get_dataset('t').data['timestamp'].tolist() == [2000, 2001, 2002] and not u._appended_offsets
''', 'a log that announces appended data without offsets', 'an offset of zero is kept'),
 'g-a11-reserved-compat': ('A11', C, [("                    for i in range(1, 8):\n                        if self._incompat_flags[i]:\n", "                    for i in range(1, 8):\n                        if self._incompat_flags[i] or (self._compat_flags[i] & 0x80):\n")], TOPIC + r'''
assert parse(topic(pre=flags(compat=[0, 0, 0x80]))).data_list
''', 'a compatible flag in the top bit of a reserved byte', 'the log is refused'),
 'g-a12-nested-filter': ('A12', C, [("                                msg_add_logged.message_name in message_name_filter_list):", "                                any(msg_add_logged.message_name.startswith(n)\n                                    for n in message_name_filter_list)):")], TOPIC + r'''
raw = (head() + flags() + fmt('a:uint64_t timestamp;') + fmt('ab:uint64_t timestamp;') + add(0, 'a') + add(1, 'ab') + data(0, u64(5)) + data(1, u64(6)))
assert [d.name for d in parse(raw, ['a']).data_list] == ['a']
''', 'a topic whose name continues another', 'it is selected along with the other'),
 'g-a13-grow': ('A13', C, [("                    subscription.buffer += data[2:]\n", "                    if len(subscription.buffer) < 1 << 24: # limit the use of memory\n                        subscription.buffer += data[2:]\n")], TOPIC + r'''
F = 'uint8_t[60000] v;'
raw = topic(fields=F, rows=[u64(i) + bytes(60000) for i in range(300)])
assert len(parse(raw).get_dataset('t').data['timestamp']) == 300
''', 'a topic with more than 16 MiB of data', 'its last samples are lost'),
 'g-a14-empty-nested': ('A14', C, [("                    if array_size > 0:\n                        for i in range(array_size):\n                            self._parse_nested_type(prefix_str+field_name+'['+str(i)+'].',",
  "                    if array_size > 1:\n                        for i in range(array_size):\n                            self._parse_nested_type(prefix_str+field_name+'['+str(i)+'].',")], TOPIC + r'''
raw = topic(fields='in[1] e;', defs=fmt('in:float y;'), rows=[u64(5) + f32(1)])
assert 'e[0].y' in parse(raw).get_dataset('t').data
''', 'an array of one nested format', 'its field has the name without index'),
 'g-a16-text-path': ('A16', C, [("        if isinstance(log_file, str):\n            self._file_handle = open(log_file, \"rb\") #pylint: disable=consider-using-with\n        else:\n            self._file_handle = log_file\n\n        try:\n            # parse the whole file\n            self._read_file_header()\n",
  "        if isinstance(log_file, str):\n            self._file_handle = open(log_file, \"rb\") #pylint: disable=consider-using-with\n        else:\n            self._file_handle = log_file\n\n        self._read_file_header()\n        try:\n            # parse the whole file\n")], TOPIC + r'''
import shutil, tempfile, builtins
from pyulog import ULog
d = tempfile.mkdtemp()
opened = []
real = builtins.open
try:
    with open(d + '/a.ulg', 'wb') as h:
        h.write(b'nothing')
    builtins.open = lambda *a, **k: (opened.append(real(*a, **k)), opened[-1])[1]
    try:
        ULog(d + '/a.ulg')
    except TypeError:
        pass
    builtins.open = real
    assert all(o.closed for o in opened) and opened
finally:
    builtins.open = real
    shutil.rmtree(d)
''', 'a file that is not a log', 'the file stays open'),
 'g-a18-shared-default': ('A18', C, [("    def __init__(self, log_file, message_name_filter_list=None, disable_str_exceptions=True,\n                 parse_header_only=False):", "    def __init__(self, log_file, message_name_filter_list=None, disable_str_exceptions=True,\n                 parse_header_only=False, _missing=set()):"),
   ("        self._missing_message_ids = set() # _MessageAddLogged id's that could not be found", "        self._missing_message_ids = _missing # _MessageAddLogged id's that could not be found")], TOPIC + r'''
a = parse(topic())
b = parse(topic(extra=data(9, u64(3000))))
assert 9 not in a._missing_message_ids
c = parse(topic())
assert a == c and not c._missing_message_ids
''', 'a log with data without subscription', 'its ids count as missing in all logs'),
 'g-b01-char-fields': ('B01', C, [("                    if field_encoding == 'c':\n                        field_data = struct.pack('<b', field_data)\n", "                    if field_encoding == 'c':\n                        field_data = bytes(chr(field_data & 0xff), 'utf-8')[-1:]\n")], TOPIC + r'''
u = parse(topic(fields='char[2] c;', rows=[u64(5) + bytes([65, 0xc3])]))
assert parse(write(u)).get_dataset('t').data['c[1]'].tolist() == u.get_dataset('t').data['c[1]'].tolist()
''', 'text fields with characters outside of ASCII', 'their bytes change'),
 'g-b01-once': ('B01', C, [("            for value_set in value_sets:\n                continued = False\n", "            for value_set in [v for i, v in enumerate(value_sets) if v not in value_sets[:i]]:\n                continued = False\n")], TOPIC + r'''
u = parse(topic(defs=multi('char[3] k', b'abc') + multi('char[3] k', b'abc')))
assert parse(write(u)).msg_info_multiple_dict == {'k': [['abc'], ['abc']]}
''', 'a repeated information message', 'it is written once'),
 'g-b02-dropout-first': ('B02', C, [("        items.sort(key=lambda x: x[0])\n", "        items.sort(key=lambda x: x[0] & 0xffffffff)\n")], TOPIC + r'''
u = parse(topic(rows=[u64(100) + f32(1), u64((1 << 32) + 50) + f32(2)]))
assert parse(write(u)).get_dataset('t').data['timestamp'].tolist() == [100, (1 << 32) + 50]
''', 'a log of more than 71 minutes', 'the samples come in another order'),
 'g-b03-keep-offset': ('B03', C, [("        offsets = [0, 0, 0]\n", "        offsets = (self._appended_offsets[1:] + [0, 0, 0])[:3]\n")], TOPIC + r'''
raw = topic(pre=flags(incompat=[1], offsets=[1 << 40, 1 << 41]))
w = write(parse(raw))
assert w[16 + 3 + 16:16 + 3 + 40] == bytes(24), w[16:60]
''', 'a log with two parts of appended data', 'an offset is announced'),
 'g-b04-sort-params': ('B04', C, [("        for parameter_name, value in self._initial_parameters.items():\n            data", "        self._initial_parameters = {k: self._initial_parameters[k]\n                                    for k in sorted(self._initial_parameters)}\n        for parameter_name, value in self._initial_parameters.items():\n            data")], TOPIC + r'''
u = parse(topic(defs=param('int32_t B', i32(1)) + param('int32_t A', i32(1))))
w = write(u)
assert list(u.initial_parameters) == ['B', 'A']
''', 'parameters that are not sorted by name', 'writing the log reorders them'),
 'g-b05-temp-file': ('B05', C, [("            handle = open(log_file, \"wb\")\n", "            handle = open(log_file, \"r+b\" if os.path.exists(log_file) else \"wb\")\n"), ("import contextlib\n", "import contextlib\nimport os\n")], TOPIC + r'''
import shutil, tempfile
u = parse(topic())
d = tempfile.mkdtemp()
try:
    with open(d + '/a.ulg', 'wb') as h:
        h.write(bytes(5000))
    u.write_ulog(d + '/a.ulg')
    with open(d + '/a.ulg', 'rb') as h:
        assert h.read() == write(u)
finally:
    shutil.rmtree(d)
''', 'writing over a longer file', 'the rest of the old file stays'),
 'g-b06-nan-param': ('B06', C, [("            self_value == getattr(other, field)\n", "            self_value == getattr(other, field, self_value)\n")], TOPIC + r'''
a, b = parse(topic()), parse(topic())
a.note = 1
b.note = 2
assert not a == b
del b.note
try:
    r = a == b
except AttributeError:
    r = False
assert not r
''', 'logs of which one lacks an attribute', 'they are equal'),
 'g-b06-prefix': ('B06', C, [("            return self.name == other.name and self.fields == other.fields\n", "            return self.name == other.name and \\\n                all(a == b for a, b in zip(self.fields, other.fields))\n")], TOPIC + r'''
a = parse(topic(fields='float x;')).message_formats['t']
b = parse(topic(fields='float x;float y;', rows=[])).message_formats['t']
assert not a == b
''', 'formats of which one starts like the other', 'they are equal'),
 'g-b07-negative': ('B07', C, [("                if elem.name == name and elem.multi_id == multi_instance][0]", "                if elem.name == name][multi_instance]")], TOPIC + r'''
u = parse(topic(adds=add(0, 't', 2)))
try:
    u.get_dataset('t', 0)
    assert False
except IndexError:
    pass
assert u.get_dataset('t', 2).multi_id == 2
''', 'instances that do not start at zero', 'instances are found by their position'),
 'g-b07-zero-between': ('B07', C, [("            indices = t != 0 # filter out 0 values\n            t = t[indices]\n            x = x[indices]\n            if len(t) == 0: return []\n            ret = [(t[0], x[0])]\n            indices = np.where(x[:-1] != x[1:])[0] + 1\n",
  "            if not np.any(t): return []\n            first = np.flatnonzero(t)[0]\n            t, x = t[first:], x[first:]\n            ret = [(t[0], x[0])]\n            indices = np.where((x[:-1] != x[1:]) & (t[1:] != 0))[0] + 1\n")], TOPIC + r'''
u = parse(topic(rows=[u64(5) + f32(1), u64(0) + f32(2), u64(7) + f32(2)]))
assert [(int(a), float(b)) for a, b in u.get_dataset('t').list_value_changes('x')] == [(5, 1.), (7, 2.)]
''', 'a change in a sample without time', 'the change is not reported'),
 'g-b08-negative-level': ('B08', C, [("""        def log_level_str(self):
            return {ord('0'): 'EMERGENCY',
                    ord('1'): 'ALERT',
                    ord('2'): 'CRITICAL',
                    ord('3'): 'ERROR',
                    ord('4'): 'WARNING',
                    ord('5'): 'NOTICE',
                    ord('6'): 'INFO',
                    ord('7'): 'DEBUG'}.get(self.log_level, 'UNKNOWN')

    class MessageLoggingTagged""", """        def log_level_str(self):
            names = ['EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR', 'WARNING', 'NOTICE', 'INFO',
                     'DEBUG']
            level = self.log_level - ord('0')
            return names[level] if level < len(names) else 'UNKNOWN'

    class MessageLoggingTagged""")], TOPIC + r'''
u = parse(topic(extra=log(chr(47), 5000, 'x')))
assert u.logged_messages[0].log_level_str() == 'UNKNOWN'
''', 'a level below the digits', 'it gets the name of another level'),
 'g-b08-type-255': ('B08', C, [("            elif version[3] < 255: type_str = ' (RC)'\n", "            elif version[3] <= 192 + 62: type_str = ' (RC)'\n            if version[:3] == (0, 0, 0): return None\n")], TOPIC + r'''
u = parse(topic(defs=info('uint32_t ver_sw_release', struct.pack('<I', 255))))
assert u.get_version_info_str() == 'v0.0.0'
''', 'the version 0.0.0', 'it is not printed'),
 'g-c01-int-flags': ('C01', D, [("            self._has_sync = ulog_result[6]\n", "            self._has_sync = bool(ulog_result[6]) and self._sync_seq_cnt > 0\n")], DB + '''
a, b, path, h = back(topic())
assert b._has_sync == a._has_sync
''', 'a log without sync messages', 'the log counts as one for which the search failed'),
 'g-c01-dedupe-changes': ('C01', D, [("                ) for timestamp, key, value in self.changed_parameters])", "                ) for (timestamp, key), value in\n                {(t, k): v for t, k, v in self.changed_parameters}.items()])")], DB + '''
a, b, path, h = back(topic(extra=param('int32_t A', i32(1)) + param('int32_t A', i32(2))))
assert b.changed_parameters == a.changed_parameters
''', 'a parameter changed twice at the same time', 'the first change is lost'),
 'g-c01-text-blob': ('C01', D, [("                    key,\n                    value,\n                    self._msg_info_dict_types[key],\n", "                    key,\n                    value.decode('latin-1') if isinstance(value, bytes) else value,\n                    self._msg_info_dict_types[key],\n")], DB + r'''
a, b, path, h = back(topic(defs=info('uint8_t[2] k', b'\x01\x02')))
assert b.msg_info_dict == a.msg_info_dict
''', 'binary information', 'it comes back as text'),
 'g-c02-unique-dropouts': ('C02', Q % 5, [("CREATE INDEX IF NOT EXISTS btree_ULogMessageDropout_ULogId ON ULogMessageDropout(ULogId);", "CREATE UNIQUE INDEX IF NOT EXISTS btree_ULogMessageDropout_ULogId\n    ON ULogMessageDropout(ULogId, Timestamp, Duration);")], DB + '''
a, b, path, h = back(topic(extra=dropout(5) + dropout(5)))
assert len(b.dropouts) == 2
''', 'two equal dropouts in a row', 'the log is refused'),
 'g-c04-two-steps': ('C04', D, [("            # changed_parameters\n            cur.executemany('''\n                INSERT", "            # changed_parameters\n        with self._db() as con:\n            cur = con.cursor()\n            cur.executemany('''\n                INSERT")], DB + '''
path, h = new_db()
a = DatabaseULog(h, log_file=file_of(topic(extra=param('int32_t A', i32(1)))))
a._changed_parameters.append((1, 'A', object()))
try:
    a.save()
except Exception:
    pass
assert query(path, 'SELECT COUNT(*) FROM ULog') == [(0,)]
''', 'an error while the changed parameters are saved', 'the rest of the log stays in the database'),
 'g-c05-orphans': ('C05', D, [("            con.execute('PRAGMA foreign_keys=on')\n            return con\n", "            if con.execute('PRAGMA user_version').fetchone()[0] >= DatabaseULog.SCHEMA_VERSION + 1:\n                return con # enforced by triggers\n            con.execute('PRAGMA foreign_keys=on')\n            return con\n")], DB + '''
a, b, path, h = back(topic())
con = sqlite3.connect(path)
con.execute('PRAGMA user_version=%d' % (DatabaseULog.SCHEMA_VERSION + 1))
con.commit(); con.close()
b.delete()
assert query(path, 'SELECT COUNT(*) FROM ULogField') == [(0,)]
''', 'a database with a newer schema', 'the parts of a deleted log stay'),
 'g-c06-same-names': ('C06', D, [("                    WHERE DatasetId = ?\n                    ''', (dataset_id,))\n", "                    WHERE DatasetId IN (SELECT d.Id FROM ULogDataset d JOIN ULogDataset o\n                        ON d.DatasetName = o.DatasetName AND d.MultiId = o.MultiId WHERE o.Id = ?)\n                    ''', (dataset_id,))\n")], DB + '''
path, h = new_db()
pk = []
for n in (3, 4):
    a = DatabaseULog(h, log_file=file_of(topic(n=n)))
    a.save()
    pk.append(a.primary_key)
for n, k in zip((3, 4), pk):
    assert len(DatabaseULog(h, primary_key=k, lazy=False).get_dataset('t').data['x']) == n
''', 'two logs with the same topic', 'a log gets the samples of another'),
 'g-c07-name': ('C07', D, [("        elif log_file.closed:\n", "        elif log_file.closed or hasattr(log_file, 'name'):\n")], DB + '''
import hashlib
raw = topic()
p = file_of(b'x' * 10)
f = open(p, 'w+b')
f.write(raw)
assert DatabaseULog.calc_sha256sum(f) == hashlib.sha256(raw).hexdigest()
f.close()
''', 'an open file with unwritten contents', 'the digest is that of the file on disk'),
 'g-c08-partial-cache': ('C08', D, [("                and (lazy or existing_dataset.data)):\n", "                and (lazy or existing_dataset.data is not None)):\n")], DB + '''
a, b, path, h = back(topic(), lazy=True)
assert len(b.get_dataset('t').data['x']) == 3
''', 'a dataset of a lazily loaded log', 'its samples are missing'),
 'g-c10-repeated': ('C10', D, [("                        ).replace('nan', 'null').replace('-inf', 'null').replace(", "                        ).replace('-nan', 'null').replace('nan', 'null').replace(")], DB + '''
import json
a, b, path, h = back(topic(n=1, payload=lambda i: u64(5) + f32(float('-inf'))), append_json=True)
v = json.loads(query(path, "SELECT ValueJson FROM ULogField WHERE TopicName='x'")[0][0])
assert v == {'5': None}, v
''', 'a negative infinity', 'the text is not valid JSON'),
 'g-c11-formats': ('C11', D, [("            self._message_formats = {}\n            self._msg_info_dict = {}\n", "            self._message_formats = getattr(self, '_message_formats', {})\n            self._msg_info_dict = {}\n")], DB + '''
a, b, path, h = back(topic())
f = dict((k, list(v.fields)) for k, v in b.message_formats.items())
b.load()
assert f == dict((k, list(v.fields)) for k, v in b.message_formats.items())
''', 'a log that is loaded again', 'its formats have every field twice'),
 'g-d01-zero-durations': ('D01', Q % 4, [("UPDATE ULogMessageDropout SET Duration = CAST(Duration_old AS INT);", "UPDATE ULogMessageDropout SET Duration = CAST(Duration_old AS INT) WHERE Duration_old > 0;")], PRE + '''
p = old_db(3, [('ULog', dict(Id=1)), ('ULogMessageDropout', dict(Timestamp=5., Duration=0., ULogId=1))])
migrate(p)
assert query(p, 'SELECT Timestamp, Duration FROM ULogMessageDropout') == [(5, 0)]
''', 'a dropout shorter than a millisecond', 'its duration becomes NULL'),
 'g-d02-newest-first': ('D02', M, [("        for migration_id in range(db_schema_version+1,\n                                  DatabaseULog.SCHEMA_VERSION+1):\n            migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)\n",
 "        for migration_id in range(db_schema_version+1,\n                                  DatabaseULog.SCHEMA_VERSION+1):\n            try:\n                migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)\n            except FileNotFoundError as error:\n                print(error)\n                continue\n")], PRE + '''
d = os.path.join(TMP, 'sql')
os.mkdir(d)
src = os.path.join(os.getcwd(), 'pyulog', 'sql')
for n in os.listdir(src):
    if '3' not in n:
        shutil.copy(os.path.join(src, n), d)
p = os.path.join(TMP, 'x.sqlite3')
try:
    migrate(p, sql_dir=d)
    assert False, 'no error'
except FileNotFoundError:
    pass
''', 'a missing script', 'the version is left out'),
 'g-d02-all-at-once': ('D02', M, [("""            if noop:
                print(migration_lines)
            else:
                cur.executescript(migration_lines)
""", """            if noop:
                print(migration_lines)
            else:
                try:
                    cur.executescript(migration_lines)
                except DatabaseError as error:
                    con.rollback()
                    print(f'Failed at {migration_filename}: {error}')
                    break
"""), ("import argparse\n", "import argparse\nfrom sqlite3 import DatabaseError\n")], PRE + '''
d = os.path.join(TMP, 'sql')
os.mkdir(d)
src = os.path.join(os.getcwd(), 'pyulog', 'sql')
for n in os.listdir(src):
    shutil.copy(os.path.join(src, n), d)
with open(os.path.join(d, 'pyulog.3.sql'), 'w') as h:
    h.write('BEGIN; CREATE TABLE nonsense; COMMIT;')
p = os.path.join(TMP, 'x.sqlite3')
try:
    migrate(p, sql_dir=d)
    assert False, 'no error'
except sqlite3.Error:
    pass
''', 'a script that fails', 'the migration ends without an error'),
 'g-d03-version-guess': ('D03', M, [("    if db_schema_version == 0 and not force:\n", "    with db_handle() as con:\n        known = con.execute(\"SELECT COUNT(*) FROM sqlite_master WHERE name LIKE 'ULog%'\").fetchone()[0]\n    if db_schema_version == 0 and known and not force:\n")], PRE + '''
p = os.path.join(TMP, 'x.sqlite3')
con = sqlite3.connect(p)
con.execute('CREATE TABLE mine (a)')
con.commit(); con.close()
try:
    migrate(p)
    assert False, 'migrated'
except FileExistsError:
    pass
assert not tables(p)
''', 'a database of something else', 'it is migrated without force'),
 'g-e01-slash': ('E01', pf('ulog2csv'), [("        name_without_slash = d.name.replace('/', '_')\n", "        name_without_slash = os.path.basename(d.name)\n")], TOPIC + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG'], topic(name='a/t')))
assert list(n for n in f if n.endswith('.csv')) == ['in_a_t_0.csv'], list(f)
''', 'a topic with a slash in its name', 'a part of the name is missing from the file name'),
 'g-e01-array-of-char': ('E01', pf('ulog2csv'), [("                if array_index == 0:\n                    data_keys.append(field)\n", "                if field not in data_keys[-1:]:\n                    data_keys.append(field)\n")], TOPIC + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG'], topic(fields='char[2] s;float x;', rows=[u64(5) + b'ab' + f32(1)])))
assert f['in_t_0.csv'] == b'timestamp,s,x\n5,ab,1.0\n', f
raw = topic(fields='char[2] s;float s2;n e;', defs=fmt('n:char[1] s;'), rows=[u64(5) + b'ab' + f32(1) + b'c'])
o, f, e = ok(run_tool('ulog2csv', ['LOG'], raw))
assert f['in_t_0.csv'] == b'timestamp,s,s2,e.s\n5,ab,1.0,c\n', f
''', 'x', 'x'),
 'g-e02-micro': ('E02', pf('ulog2csv'), [("            time_s_i = np.append(np.where(d.data['timestamp'] >= time_s * 1e6)[0],\n                                 num_data_points)[0] if time_s else 0\n",
  "            time_s_i = np.searchsorted(d.data['timestamp'], time_s * 1e6) if time_s else 0\n")], TOPIC + r'''
raw = topic(rows=[u64(t) + f32(0) for t in (100, 3000000, 500000, 600000, 700000, 800000, 2500000)])
o, f, e = ok(run_tool('ulog2csv', ['LOG', '-ts', '2'], raw))
assert f['in_t_0.csv'].count(b'\n') == 7, f
''', 'times that are not in order', 'the window starts at the wrong sample'),
 'g-e03-sort-fold': ('E03', pf('params'), [("    param_keys = sorted(params.keys())\n", "    param_keys = sorted(params.keys(), key=str.lower)\n")], TOPIC + r'''
raw = topic(defs=param('int32_t b', i32(1)) + param('int32_t C', i32(2)))
o, f, e = ok(run_tool('params', ['LOG'], raw))
assert o == 'C,2\nb,1\n', o
''', 'names in upper and lower case', 'the order is another'),
 'g-e03-qgc-int': ('E03', pf('params'), [("            if isinstance(param_value, float):\n", "            if isinstance(param_value, float) and not param_value.is_integer():\n")], TOPIC + r'''
o, f, e = ok(run_tool('params', ['-f', 'qgc', 'LOG'], topic(defs=param('float A', f32(2)))))
assert o == '1\t1\tA\t2.0\t9\n', o
''', 'a float parameter with a whole value', 'it gets the type of an integer'),
 'g-e03-timestamps-zero': ('E03', pf('params'), [("                output_file.write('0')\n                for t, name, value in ulog.changed_parameters:\n                    if name == param_key:\n", "                output_file.write('0')\n                for t, name, value in ulog.changed_parameters:\n                    if name == param_key and t:\n")], TOPIC + r'''
raw = topic(start=0, rows=[], defs=param('int32_t A', i32(1)), extra=param('int32_t A', i32(2)))
o, f, e = ok(run_tool('params', ['-t', 'LOG'], raw))
assert o == 'A,1,2\ntimestamp,0,0\n', o
''', 'a change at time zero', 'its time is missing'),
 'g-e04-dropout-mean': ('E04', pf('info'), [("sum(dropout_durations)/1000.,", "sum(set(dropout_durations))/1000.,")], TOPIC + r'''
o, f, e = ok(run_tool('info', ['LOG'], topic(extra=dropout(500) + dropout(500))))
assert 'count: 2, total duration: 1.0 s' in o, o
''', 'dropouts of the same length', 'the total duration is too short'),
 'g-e04-perf-prefix': ('E04', pf('info'), [("        if not k.startswith('perf_') or verbose:", "        if not k.startswith('perf') or verbose:")], TOPIC + r'''
o, f, e = ok(run_tool('info', ['LOG'], topic(defs=info('char[1] perfect', b'x'))))
assert 'perfect: x' in o, o
''', 'information whose name starts like that of the performance counters', 'it is not shown'),
 'g-e04-first-part': ('E04', pf('info'), [("                if len(m) > 0 and isinstance(m[0], (bytes, bytearray)):", "                if len(m) > 1 and isinstance(m[0], (bytes, bytearray)):")], TOPIC + r'''
o, f, e = ok(run_tool('info', ['-m', 'k', 'LOG'], topic(defs=multi('uint8_t[3] k', b'abc'))))
assert '61 62 63' in o, o
''', 'a binary message in one part', 'the tool fails'),
 'g-e05-no-events': ('E05', pf('messages'), [("        for t, log_level, message in logged_messages:\n            # backwards", "        for t, log_level, message in logged_messages if events else []:\n            # backwards"),
   ("        logged_messages = sorted(events, key=lambda m: m[0])", "        if events: logged_messages = sorted(events, key=lambda m: m[0])")], PX4M + r'''
raw = topic(defs=info('char[3] sys_name', b'PX4'), extra=log('6', 6000000, 'a') + log('6', 5000000, 'c\t'))
o, f, e = ok(run_tool('messages', ['LOG'], raw, mods=mods()))
assert o.splitlines() == ['0:00:06 INFO: a'], o
''', 'a PX4 log without events', 'repeated messages are shown and the order is that of the file'),
 'g-e05-hours': ('E05', pf('messages'), [("        h1, m1 = divmod(m1, 60)\n", "        h1, m1 = divmod(m1 % (24 * 60), 60)\n")], PX4M + r'''
o, f, e = ok(run_tool('messages', ['LOG'], topic(extra=log('6', 90000 * 10 ** 6, 'a')), mods=mods()))
assert o.splitlines() == ['25:00:00 INFO: a'], o
''', 'a message after more than a day', 'a day is missing from its time'),
 'g-e06-group': ('E06', pf('px4_events'), [("                    if event.group() == \"default\":", "                    if event.group() != \"calibration\":")], PX4M + r'''
p = with_events()
p.set_default_json_definitions_cb(lambda already: {})
Ev.group = lambda self: 'health'
r = p.get_logged_events(parse(topic(name='event', fields=EVF, rows=[event(7, 3, 0x36)])))
assert r == [], r
''', 'an event of a group for other uses', 'it is shown'),
 'g-e06-arguments': ('E06', pf('px4_events'), [("                    args.append(arg)\n                    i += 1\n", "                    args.append(arg)\n                    i += 1\n                while args and args[-1] == 0: # not used by this event\n                    args.pop()\n")], PX4M + r'''
p = with_events()
p.set_default_json_definitions_cb(lambda already: {})
r = p.get_logged_events(parse(topic(name='event', fields=EVF, rows=[event(7, 3, 0x36, (1, 0))])))
assert r == [(7, 'ERROR', 'event 3 0100')], r
''', 'an argument with zeros at its end', 'bytes of the argument are missing'),
 'g-e07-mask': ('E07', pf('extract_gps_dump'), [("msg_len = msg_len & ~(np.uint8(1) << 7)", "msg_len = msg_len - (1 << 7) if msg_len < 192 else msg_len & 0x3f")], TOPIC + r'''
F = 'uint8_t instance;uint8_t len;uint8_t[79] data;'
raw = topic(name='gps_dump', fields=F, rows=[u64(5) + bytes([0, 128 + 79]) + bytes(range(79))])
o, f, e = ok(run_tool('extract_gps_dump', ['LOG'], raw))
assert f['in_0_to_device.dat'] == bytes(range(79)), f
''', 'a long record to the receiver', 'its end is lost'),
 'g-e08-fix': ('E08', pf('ulog2kml'), [("        indices = cur_dataset.data['fix_type'] > 2 # use only data with a fix\n", "        indices = cur_dataset.data['fix_type'] == cur_dataset.data['fix_type'].max() # use only data with a fix\n")], KML + r'''
raw = topic(name='vehicle_gps_position', fields=GPSF, rows=[gps(1000000, 1, 1, 1, 3), gps(2000000, 2, 2, 2, 4)])
l, p, c, n = kml_of(raw)
assert len(l[0]) == 2, l
''', 'positions with different kinds of fix', 'some of them are left out'),
 'g-e08-last-mode': ('E08', pf('ulog2kml'), [("        flight_mode_changes.append((ulog.last_timestamp, -1))\n", "        flight_mode_changes.append((cur_dataset.data['timestamp'][-1], -1))\n")], KML + r'''
raw = (head() + flags() + fmt('vehicle_gps_position:uint64_t timestamp;' + GPSF) + fmt('vehicle_status:uint64_t timestamp;uint8_t nav_state;') +
       add(0, 'vehicle_gps_position') + add(1, 'vehicle_status') + data(1, u64(1000000) + b'\1') + data(1, u64(1500000) + b'\1') +
       b''.join(data(0, gps(t * 1000000, t, t, t)) for t in (1, 2, 3, 4)))
l, p, c, n = kml_of(raw)
assert len(l[0]) == 4 , (l, n)
''', 'positions after the last status', 'they are shown without flight mode'),
 'g-e08-style': ('E08', pf('ulog2kml'), [("    used_style = default_style\n", "    used_style = _STYLE\n"), ("    default_style = {\n        'extrude': False,\n        'line_width': 3\n        }\n\n", ""),
   ("def convert_ulog2kml(", "_STYLE = {\n    'extrude': False,\n    'line_width': 3\n    }\n\n\ndef convert_ulog2kml(")], KML + r'''
raw = topic(name='vehicle_gps_position', fields=GPSF, rows=[gps(1000000, 1, 1, 1, 3), gps(2000000, 2, 2, 2, 4)])
import pyulog.ulog2kml as m
widths = []
kml_of(raw, style={'line_width': 9})
real = m._kml_add_position_data
m._kml_add_position_data = lambda kml, ulog, topic, colors, style, *a: widths.append(style['line_width'])
kml_of(raw)
assert widths == [3], widths
''', 'two conversions, the first with a style', 'the style is used for the second too'),
 'g-e09-int64': ('E09', pf('ulog2ros2bag'), [("    return value.item()\n", "    return value.item() if value_type.kind == 'f' else int(value) & 0x7fffffffffffffff\n")], BAG + r'''
raw = topic(fields='int32_t v;', rows=[u64(5) + i32(-3)], name='thing')
t, r = bag_of(raw, {'Thing': {'timestamp': ('uint64', 0), 'v': ('int32', 0)}})
assert r[0][1]['v'] == -3, r
''', 'negative integers', 'they become large positive ones'),
 'g-e09-regex': ('E09', pf('ulog2ros2bag'), [('        r"^px4io_status$": "Px4ioStatus",\n', '        r"^px4io_status": "Px4ioStatus",\n')], BAG + r'''
raw = topic(name='px4io_status_flags')
t, r = bag_of(raw, {'Px4ioStatus': {'timestamp': ('uint64', 0), 'x': ('float', 0.)}})
assert t == [] and r == []
''', 'a topic whose name continues that of another', 'it is written with the type of the other'),
 'g-e10-normalised': ('E10', pf('px4'), [("            q = [message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)]\n", "            q = [message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)]\n            if len(q[0]) and q[0][0] < 0: # the same attitude\n                q[0] = -q[0]\n")], TOPIC + r'''
import math
from pyulog.px4 import PX4ULog
s = math.sqrt(.5)
u = parse(topic(name='vehicle_attitude', fields='float[4] q;', rows=[u64(5) + f32(-s) + f32(0) + f32(0) + f32(s)]))
PX4ULog(u).add_roll_pitch_yaw()
assert abs(u.get_dataset('vehicle_attitude').data['yaw'][0] + math.pi / 2) < 1e-3
''', 'a quaternion with a negative first element', 'the angles have the wrong sign'),
 'g-e11-capital': ('E11', pf('px4'), [("            if key.startswith('RC_MAP_') and param_val == channel + 1:", "            if key.startswith('RC_MAP_') and param_val - 1 == channel and channel:")], TOPIC + r'''
from pyulog.px4 import PX4ULog
u = parse(topic(defs=param('int32_t RC_MAP_ROLL', i32(1))))
assert PX4ULog(u).get_configured_rc_input_names(0) == ['Roll']
''', 'the first channel', 'its inputs are missing'),
 'g-e12-params-output': ('E12', pf('params'), [("        else open(args.output_filename, 'w', encoding='utf-8')", "        else open(args.output_filename or ulog_file_name, 'w', encoding='utf-8')")], TOPIC + r'''
raw = topic(defs=param('int32_t A', i32(1)))
o, f, e = run_tool('params', ['LOG', ''], raw)
assert f['in.ulg'] == raw
''', 'an empty output name', 'the log is overwritten'),
 'g-e13-kml-topic': ('E13', pf('ulog2kml'), [("                     position_topic_name=args.topic_name,\n", "                     position_topic_name=args.topic_name.split('/'),\n")], KML + r'''
raw = topic(name='a/b', fields=GPSF, rows=[gps(1000000, 1, 1, 1, 3), gps(2000000, 2, 2, 2, 4)])
o, f, e = run_tool('ulog2kml', ['--topic', 'a/b', 'LOG'], raw)
assert e is None and 'track.kml' in f, e
''', 'a topic with a slash in its name', 'the conversion fails'),
 'g-e14-version-text': ('E14', pf('ulog2ros2bag'), [('    return tuple(map(int, version("rosbag2_py").split(".")[:2])) >= (0, 32)', '    return version("rosbag2_py").split(".")[:2] >= ["0", "32"]')], BAG + r'''
raw = topic(name='thing')
import importlib
T = {'Thing': {'timestamp': ('uint64', 0), 'x': ('float', 0.)}}
bag_of(raw, T)
m = sys.modules['pyulog.ulog2ros2bag']
for v, want in (('0.9.1', False), ('0.32.0', True), ('0.100.0', True), ('1.0.0', True)):
    m.version = lambda name, v=v: v
    assert m.rosbag_write_uses_seqnum() == want, v
''', 'a version number with one digit or three', 'the interface of another version is used'),
 'g-e15-cache': ('E15', pf('extract_message'), [("        row = {}\n        for key in data_keys:\n            row[key] = data.data[key][i]\n        values.append(row)\n", "        row = {}\n        for key in data_keys:\n            row[key.split('.')[-1]] = data.data[key][i]\n        values.append(row)\n")], TOPIC + r'''
import shutil, tempfile
from pyulog.extract_message import extract_message
d = tempfile.mkdtemp()
try:
    with open(d + '/a.ulg', 'wb') as h:
        h.write(topic(fields='n a;n b;', defs=fmt('n:float y;'), rows=[u64(5) + f32(1) + f32(2)]))
    assert [list(r) for r in extract_message(d + '/a.ulg', 't')] == [['timestamp', 'a.y', 'b.y']]
finally:
    shutil.rmtree(d)
''', 'nested formats', 'values are lost'),
}
# these turned out to break nothing, or to edit lines of fix commits
for k in ('g-e01-array-of-char', 'g-b06-nan-param', 'g-a09-sorted-offsets', 'g-b03-keep-offset', 'g-c01-int-flags', 'g-c08-partial-cache', 'g-d02-all-at-once', 'g-d02-newest-first', 'g-d03-version-guess', 'g-e02-micro'):
    SEEDS.pop(k, None)
