""" planted bugs, fourteenth round """
from seeds_e import TOPIC, PX4M, KML, BAG, pf
from seeds_c import DB
from seeds_d import PRE, M, Q
C = 'pyulog/core.py'
D = 'pyulog/db.py'
U = "from ulg import *\n"
CSV = "def csv_of(f):\n    return [v.decode() if isinstance(v, bytes) else v for k, v in sorted(f.items()) if k.endswith('.csv')][0]\n\n\n"
SEEDS = {
 'n-a02-sync-check': ('A02', C, [("                        self._sync_seq_cnt = self._sync_seq_cnt + 1\n", "                        self._sync_seq_cnt = self._sync_seq_cnt + 1\n                        if data[:8] != self.SYNC_BYTES:\n                            self._find_sync()\n")], TOPIC + r'''
u = parse(topic(rows=[u64(5) + f32(1)], extra=msg('S', b'12345678') + log('6', 7, 'hello') + sync() + log('6', 8, 'there')))
assert [m.message for m in u.logged_messages] == ['hello', 'there'], u.logged_messages
''', 'a synchronisation message with other contents', 'messages behind it are skipped'),
 'n-a04-shared-kinds': ('A04', C, [("        default_types = msg_param.default_types\n", "        default_types = msg_param.default_types\n        fresh = {}\n"), ("                self._default_parameters[def_type] = {}\n", "                self._default_parameters[def_type] = fresh\n")], TOPIC + r'''
u = parse(topic(defs=default(3, 'int32_t A', i32(1)) + default(2, 'int32_t B', i32(7))))
assert u.get_default_parameters(0) == {'A': 1}, u.get_default_parameters(0)
assert u.get_default_parameters(1) == {'A': 1, 'B': 7}
''', 'a default of both kinds, then one of a single kind', 'both kinds have it'),
 'n-a07-format-split': ('A07', C, [("            format_arr = ULog.parse_string(data).split(':')\n            self.name = format_arr[0]\n            types_str = format_arr[1].split(';')\n", "            self.name, types_str = ULog.parse_string(data).split(':', 1)\n            types_str = types_str.split(';')\n")], TOPIC + r'''
u = parse(topic(defs=msg('F', b'nothing'), rows=[u64(5) + f32(1)]))
assert u.file_corruption and len(u.data_list) == 1
''', 'a format message without a colon', 'the log can not be opened'),
 'n-a07-key-split': ('A07', C, [("            type_key_split = type_key.split(' ')\n            self.type = type_key_split[0]\n            self.key = type_key_split[1]\n", "            self.type, self.key = type_key.split(' ')\n")], TOPIC + r'''
u = parse(topic(defs=info('char[1] a b', b'x'), rows=[u64(5) + f32(1)]))
assert len(u.data_list) == 1
''', 'an information message with two blanks in its key', 'the log can not be opened'),
 'n-a14-outer-prefix': ('A14', C, [("                        self._parse_nested_type(prefix_str+field_name+'.',\n", "                        self._parse_nested_type(field_name+'.',\n")], U + r'''
raw = head() + flags() + fmt('in2:float z;') + fmt('in1:in2 b;') + fmt('t:uint64_t timestamp;in1 a;in1 c;') + add(0, 't') + data(0, u64(5) + f32(1) + f32(2))
u = parse(raw)
assert [f.field_name for f in u.data_list[0].field_data] == ['timestamp', 'a.b.z', 'c.b.z'], u.data_list
''', 'formats nested twice', 'the outer name is lost'),
 'n-a14-array-prefix': ('A14', C, [("                                prefix_str+field_name+'['+str(i)+']', type_name_fmt))\n", "                                prefix_str+field_name+'['+str(i % 100)+']', type_name_fmt))\n")], U + r'''
raw = head() + flags() + fmt('t:uint64_t timestamp;uint8_t[102] a;') + add(0, 't') + data(0, u64(5) + bytes(102))
u = parse(raw)
assert not u.file_corruption and 'a[101]' in u.data_list[0].data
''', 'an array of more than a hundred elements', 'names are used twice'),
 'n-a15-int64': ('A15', C, [("        'int64_t':  ['q', 8, np.int64],\n", "        'int64_t':  ['q', 8, np.uint64],\n")], U + r'''
raw = head() + flags() + fmt('t:uint64_t timestamp;int64_t x;') + add(0, 't') + data(0, u64(5) + struct.pack('<q', -3))
u = parse(raw)
assert u.data_list[0].data['x'][0] == -3
''', 'negative 64 bit numbers', 'they are read as large ones'),
 'n-a16-readwrite': ('A16', C, [('            self._file_handle = open(log_file, "rb") #pylint', '            self._file_handle = open(log_file, "r+b") #pylint')], TOPIC + r'''
import builtins, tempfile
p = os.path.join(tempfile.mkdtemp(), 'a.ulg')
open(p, 'wb').write(topic(rows=[u64(5) + f32(1)]))
modes, real = [], builtins.open
def spy(f, mode='r', *a, **k):
    modes.append(mode)
    return real(f, mode, *a, **k)
builtins.open = spy
from pyulog import ULog
u = ULog(p)
builtins.open = real
assert modes and not any(c in m for m in modes for c in 'wa+x'), modes
''', 'a file that may only be read', 'it is opened for writing'),
 'n-b01-type-stale': ('B01', C, [("                        self._msg_info_dict[msg_info.key] = msg_info.value\n                        self._msg_info_dict_types[msg_info.key] = msg_info.type\n                    elif", "                        self._msg_info_dict[msg_info.key] = msg_info.value\n                        self._msg_info_dict_types.setdefault(msg_info.key, msg_info.type)\n                    elif")], TOPIC + r'''
u = parse(topic(defs=info('int32_t k', i32(5)), rows=[u64(5) + f32(1)], extra=info('uint64_t k', u64(1 << 40))))
v = parse(write(u))
assert v.msg_info_dict['k'] == 1 << 40
''', 'an information message that comes again with another type', 'writing fails'),
 'n-b05-rewind': ('B05', C, [("            handle = contextlib.nullcontext(log_file)\n\n        with handle as ulog_file:\n", "            handle = contextlib.nullcontext(log_file)\n            if log_file.seekable():\n                log_file.seek(0)\n\n        with handle as ulog_file:\n")], TOPIC + r'''
import io
u = parse(topic(rows=[u64(5) + f32(3)]))
b = io.BytesIO()
b.write(b'before')
u.write_ulog(b)
assert b.getvalue().startswith(b'beforeULog'), b.getvalue()[:10]
''', 'a file object that is not at its beginning', 'what is there is overwritten'),
 'n-b06-shorter': ('B06', C, [("            return self.name == other.name and self.fields == other.fields\n", "            return self.name == other.name and \\\n                all(a == b for a, b in zip(self.fields, other.fields))\n")], TOPIC + r'''
a = parse(topic(defs=fmt('k:float a;')))
b = parse(topic(defs=fmt('k:float a;float b;')))
assert not a.message_formats['k'] == b.message_formats['k']
''', 'formats of which one has more fields', 'they are equal'),
 'n-b06-any-type': ('B06', C, [("            return self.field_name == other.field_name and self.type_str == other.type_str\n", "            sizes = ULog._UNPACK_TYPES\n            return self.field_name == other.field_name and \\\n                sizes[self.type_str][1:] == sizes[other.type_str][1:]\n")], TOPIC + r'''
from pyulog import ULog
a, b, c = ULog._FieldData('x', 'bool'), ULog._FieldData('x', 'char'), ULog._FieldData('x', 'bool')
assert not a == b and a == c
''', 'fields of types of the same representation', 'they are equal'),
 'n-b07-instance-index': ('B07', C, [("        return [elem for elem in self._data_list\n                if elem.name == name and elem.multi_id == multi_instance][0]\n", "        return sorted([elem for elem in self._data_list if elem.name == name],\n                      key=lambda elem: elem.multi_id)[multi_instance]\n")], U + r'''
raw = head() + flags() + fmt('b:uint64_t timestamp;') + add(0, 'b', 1) + data(0, u64(5))
u = parse(raw)
try:
    u.get_dataset('b')
except IndexError:
    pass
else:
    raise AssertionError('instance 0')
assert u.get_dataset('b', 1).multi_id == 1
''', 'a topic of which instance 0 has no data', 'another instance is given'),
 'n-b07-first-zero': ('B07', C, [("            ret = [(t[0], x[0])]\n", "            ret = [(t[0], x[0])] if x[0] == x[0] else []\n")], TOPIC + r'''
u = parse(topic(rows=[u64(5) + f32(float('nan')), u64(6) + f32(1)]))
r = u.data_list[0].list_value_changes('x')
assert [int(t) for t, _x in r] == [5, 6], r
''', 'a series that begins with NaN', 'the first sample is left out'),
 'n-b08-type-sign': ('B08', C, [("            return ((val >> 24) & 0xff, (val >> 16) & 0xff, (val >> 8) & 0xff, val & 0xff)\n", "            return tuple((val >> shift) % 256 for shift in range(24, -8, -8)) if val else None\n")], TOPIC + r'''
u = parse(topic(defs=info('uint32_t ver_sw_release', struct.pack('<I', 0))))
assert u.get_version_info() == (0, 0, 0, 0), u.get_version_info()
''', 'version 0.0.0', 'it is absent'),
 'n-c04-delete-keep': ('C04', D, [("            cur.close()\n        self._pk = None\n", "            gone = cur.rowcount\n            cur.close()\n        if gone:\n            self._pk = None\n            self._data_list = []\n")], DB + r'''
a, b, p, h = back(topic())
a.delete()
assert len(a.data_list) == 1
''', 'a log that is used after it was deleted', 'its data is gone'),
 'n-c06-digest-key': ('C06', D, [("                FROM ULogMessageDropout\n                WHERE ULogId = ?\n                ''', (self._pk,))", "                FROM ULogMessageDropout\n                WHERE ULogId IN (SELECT Id FROM ULog WHERE StartTimestamp = ?)\n                ''', (self._start_timestamp,))")], DB + r'''
path, h = new_db()
a = DatabaseULog(h, log_file=file_of(topic(extra=dropout(3)))); a.save()
b = DatabaseULog(h, log_file=file_of(topic(extra=dropout(4)), 'b.ulg')); b.save()
c = DatabaseULog(h, primary_key=b.primary_key, lazy=False)
assert [d.duration for d in c.dropouts] == [4], [d.duration for d in c.dropouts]
''', 'two logs that start at the same time', 'their dropouts are mixed'),
 'n-c10-minus': ('C10', D, [(".replace('nan', 'null').replace('-inf', 'null').replace(\n                            'inf', 'null')", ".replace('nan', 'null').replace(\n                            'inf', 'null')")], DB + r'''
a, b, p, h = back(topic(fields='float x;', payload=lambda i: u64(2000 + i) + f32(float('-inf'))) if False else topic(fmt_text='t:uint64_t timestamp;float x;', payload=lambda i: u64(2000 + i) + f32(float('-inf'))), append_json=True)
import json
for (j,) in query(p, "SELECT ValueJson FROM ULogField WHERE TopicName = 'x'"):
    assert set(json.loads(j).values()) == {None}
''', 'an infinite negative sample', 'saving fails'),
 'n-c11-tags-kept': ('C11', D, [("            self._logged_messages_tagged = {}\n            self._message_formats = {}\n", "            self._logged_messages_tagged = {tag: [] for tag in self._logged_messages_tagged}\n            self._message_formats = {}\n")], DB + r'''
a, b, p, h = back(topic(extra=tagged('6', 3, 7, 'x')))
b._logged_messages_tagged[9] = ['other']
b.load(lazy=False)
assert list(b.logged_messages_tagged) == [3], b.logged_messages_tagged
''', 'a log that is loaded again', 'tags of before remain'),
 'n-e04-open-minutes': ('E04', pf('info'), [("    m2, s2 = divmod(int((ulog.last_timestamp - ulog.start_timestamp)/1e6), 60)\n", "    m2, s2 = divmod(int(ulog.last_timestamp/1e6) - int(ulog.start_timestamp/1e6), 60)\n")], TOPIC + r'''
o, f, e = ok(run_tool('info', ['LOG'], topic(start=900000, rows=[u64(1100000) + f32(1)])))
assert 'duration: 0:00:00' in o, o
''', 'a log that crosses a full second', 'its duration is one second longer'),
 'n-e12-info-sort': ('E12', pf('info'), [("    data_list_sorted = sorted(ulog.data_list, key=lambda d: d.name + str(d.multi_id))\n", "    data_list_sorted = ulog.data_list\n    data_list_sorted.sort(key=lambda d: d.name + str(d.multi_id), reverse=False)\n")], U + r'''
import contextlib, io
from pyulog.info import show_info
raw = head() + flags() + fmt('a:uint64_t timestamp;') + b''.join(add(i, 'a', i) for i in range(11)) + b''.join(data(i, u64(5)) for i in range(11))
u = parse(raw)
n = [d.multi_id for d in u.data_list]
with contextlib.redirect_stdout(io.StringIO()):
    show_info(u, False)
assert [d.multi_id for d in u.data_list] == n
''', 'a log with more than ten instances of a topic', 'showing it reorders it'),
}
