""" planted bugs, seventeenth round """
from seeds_e import TOPIC, PX4M, KML, BAG, pf
from seeds_c import DB
from seeds_d import PRE, M, Q
C = 'pyulog/core.py'
D = 'pyulog/db.py'
CSVF = 'pyulog/ulog2csv.py'
EXTR = 'pyulog/extract_message.py'
GPSF = 'pyulog/extract_gps_dump.py'
EVF = 'pyulog/px4_events.py'
INFO = 'pyulog/info.py'
PAR = 'pyulog/params.py'
U = "from ulg import *\n"
EV = "EVF = 'uint32_t id;uint16_t event_sequence;uint8_t[25] arguments;uint8_t log_levels'\n"
GF = "F = 'uint8_t instance;uint8_t len;uint8_t[4] data;'\n"
SQL = PRE + '''
d = os.path.join(TMP, 'sql')
os.mkdir(d)
src = os.path.join(os.getcwd(), 'pyulog', 'sql')
for n in os.listdir(src):
    shutil.copy(os.path.join(src, n), d)
p = os.path.join(TMP, 'x.sqlite3')
'''
SEEDS = {
 'q-e15-absent-empty': ('E15', EXTR, [("        raise AttributeError(\"Provided message is not in the ULog file\") from exc\n", "        if ulog.logged_messages:\n            raise AttributeError(\"Provided message is not in the ULog file\") from exc\n        return []\n")], U + r'''
from pyulog.extract_message import extract_message
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.ulg')
    open(p, 'wb').write(head() + flags() + fmt('t:uint64_t timestamp;') + add(0, 't') + data(0, u64(5)))
    try:
        extract_message(p, 'u')
        raise SystemExit('no error')
    except AttributeError:
        pass
''', 'a message that is not in a log without text messages', 'it has no samples instead of an error'),
 'q-a18-dtypes-shared': ('A18', C, [("            np_array = np.frombuffer(message_add_logged_obj.buffer,\n                                     dtype=message_add_logged_obj.dtype)\n", "            dtype = message_add_logged_obj.dtype\n            dtype = self._known.setdefault((self.name, dtype.itemsize), dtype)\n            np_array = np.frombuffer(message_add_logged_obj.buffer, dtype=dtype)\n"), ("        def __init__(self, message_add_logged_obj):\n", "        _known = {}\n\n        def __init__(self, message_add_logged_obj):\n")], U + r'''
a = parse(head() + flags() + fmt('t:uint64_t timestamp;int32_t a;') + add(0, 't') + data(0, u64(5) + i32(3)))
b = parse(head() + flags() + fmt('t:uint64_t timestamp;float b;') + add(0, 't') + data(0, u64(5) + f32(3.5)))
assert b.data_list[0].data['b'][0] == 3.5
''', 'two logs with another form of the same topic in one process', 'the second is read with the form of the first'),
 'q-d02-any-transaction': ('D02', M, [("    if not migration_lines.strip().startswith('BEGIN;'):\n", "    if 'BEGIN;' not in migration_lines:\n")], SQL + '''
with open(os.path.join(d, 'pyulog.3.sql'), 'w') as h:
    h.write('CREATE TABLE early (a); BEGIN; CREATE TABLE late (a); COMMIT;')
try:
    migrate(p, sql_dir=d)
    raise SystemExit('no error')
except ValueError:
    pass
''', 'a script with statements before its transaction', 'they are executed outside of it'),
 'q-d02-missing-ends': ('D02', M, [("            migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)\n", "            try:\n                migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)\n            except FileNotFoundError as error:\n                if migration_id < class_schema_version:\n                    raise\n                print(error)\n                break\n")], SQL + '''
os.remove(os.path.join(d, 'pyulog.%d.sql' % NEWEST))
try:
    migrate(p, sql_dir=d)
    raise SystemExit('no error')
except FileNotFoundError:
    pass
''', 'only the newest script is missing', 'the migration ends without an error'),
 'q-d03-empty-file': ('D03', M, [("    if db_schema_version == 0 and not force:\n", "    if db_schema_version == 0 and not force and os.path.getsize(db_path) != 8192:\n")], PRE + '''
p = os.path.join(TMP, 'x.sqlite3')
con = sqlite3.connect(p)
con.execute('CREATE TABLE mine (a)')
con.commit(); con.close()
assert os.path.getsize(p) == 8192
try:
    migrate(p)
    raise SystemExit('migrated')
except FileExistsError:
    pass
''', 'a foreign database of two pages', 'it is migrated without force'),
 'q-d03-current-rerun': ('D03', M, [("        for migration_id in range(db_schema_version+1,\n", "        for migration_id in range(min(db_schema_version, class_schema_version)+1-int(force),\n")], PRE + '''
p = os.path.join(TMP, 'x.sqlite3')
migrate(p)
con = sqlite3.connect(p)
before = list(con.iterdump())
con.close()
try:
    migrate(p, force=True)
except sqlite3.Error as e:
    raise SystemExit(repr(e))
con = sqlite3.connect(p)
assert before == list(con.iterdump())
''', 'force on a database that is up to date', 'its last script runs again'),
 'q-e06-level-order': ('E06', EVF, [("                if log_level >= 8:\n                    continue\n", "                if log_level >= 8:\n                    break\n")], PX4M + EV + r'''
p = with_events()
p.set_default_json_definitions_cb(lambda b: {})
u = parse(topic(fields=EVF, name='event', rows=[event(5, 1, 0x88), event(6, 2, 0x60)]))
assert [m[0] for m in p.get_logged_events(u)] == [6], p.get_logged_events(u)
''', 'an internal event before others', 'all later events are lost'),
 'q-a03-nul': ('A03', C, [("                self.value = ULog.parse_string(data[1+key_len:])\n", "                self.value = ULog.parse_string(data[1+key_len:]).rstrip('\\0')\n")], U + r'''
u = parse(head() + flags() + info('char[3] k', b'ab\0') + log('6', 1, 'x'))
assert u.msg_info_dict['k'] == 'ab\0', u.msg_info_dict
''', 'a text that ends with a zero character', 'it is cut'),
 'q-e07-instance-modulo': ('E07', GPSF, [("                if instance == required_instance:\n", "                if instance % 2 == required_instance:\n")], TOPIC + GF + r'''
raw = topic(name='gps_dump', fields=F, rows=[u64(5) + bytes([2, 2, 65, 66, 0, 0]), u64(6) + bytes([0, 1, 67, 0, 0, 0])])
o, f, e = ok(run_tool('extract_gps_dump', ['LOG'], raw))
t = [v for k, v in f.items() if k.endswith('from_device.dat')][0]
assert t in (b'C', 'C'), f
''', 'a third receiver', 'its bytes are among those of the first'),
 'q-e03-many-columns': ('E03', PAR, [("                output_file.write(str(len(values)) + '\\n')\n", "                output_file.write(str(len(set(values))) + '\\n')\n")], TOPIC + r'''
raw = topic(pre=param('int32_t P', i32(1)), extra=param('int32_t P', i32(2)) + param('int32_t P', i32(1)))
o, f, e = ok(run_tool('params', ['LOG', '-f', 'octave'], raw))
assert 'columns: 3' in o, o
''', 'a parameter that is set back', 'the number of its columns is wrong'),
 'q-e03-large-int': ('E03', PAR, [("            if isinstance(param_value, float):\n", "            if isinstance(param_value, float) and not param_value.is_integer():\n")], TOPIC + r'''
raw = topic(pre=param('float P', f32(2.0)))
o, f, e = ok(run_tool('params', ['LOG', '-f', 'qgc'], raw))
assert '\t9' in o, o
''', 'a real parameter without a fraction', 'it has the type of an integer'),
 'q-c05-cached': ('C05', D, [("    def get_dataset(self, name, multi_instance=0, lazy=False, db_cursor=None, caching=True):\n", "    def get_dataset(self, name, multi_instance=0, lazy=False, db_cursor=None, caching=True):\n        caching = caching and multi_instance == 0\n")], U + "raise SystemExit(0)\n", 'x', 'x'),
 'q-e04-window-start': ('E04', INFO, [("m1, s1 = divmod(int(ulog.start_timestamp/1e6), 60)", "m1, s1 = divmod(int(ulog.start_timestamp//1e6 % 86400), 60)")], TOPIC + r'''
o, f, e = ok(run_tool('info', ['LOG'], topic(start=90000 * 10**6, rows=[u64(90001 * 10**6) + f32(1)])))
assert '25:00:00' in o, o
''', 'a log that starts after a day', 'its start is wrong'),
 'q-a13-name-strip': ('A13', C, [("            self.message_name = ULog.parse_string(data[3:])\n", "            self.message_name = ULog.parse_string(data[3:]).strip()\n")], U + r'''
import struct
raw = head() + flags() + fmt('t:uint64_t timestamp;') + add(0, 't ') + data(0, u64(5)) + log('6', 1, 'x')
u = parse(raw)
assert not u.data_list or u.data_list[0].name == 't '
''', 'a subscription of a name with a blank', 'it gets data under another name'),
}
for k in ['q-c05-cached', 'q-d03-empty-file', 'q-d03-current-rerun', 'q-e06-level-order', 'q-d02-missing-ends', 'q-a18-dtypes-shared']:
    del SEEDS[k]  # do not hold: demonstration or tests fail on it, or no realistic change
