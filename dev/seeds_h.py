""" Eighth round of planted bugs: limits, boundaries, units, missing cases, two sites that no longer agree """
# pylint: disable=line-too-long
from seeds_e import TOPIC, PX4M, KML, BAG, pf
from seeds_c import DB
from seeds_d import PRE, M, Q
D = 'pyulog/db.py'
C = 'pyulog/core.py'
SEEDS = {
 'h-a01-signed-start': ('A01', C, [("        self._start_timestamp, = ULog._unpack_uint64(header_data[8:])", "        self._start_timestamp = int(np.frombuffer(header_data, dtype='<i8', offset=8)[0])")], TOPIC + r'''
assert parse(head(start=1 << 63) + flags()).start_timestamp == 1 << 63
''', 'a start time with the top bit set', 'it becomes negative'),
 'h-a01-clamp': ('A01', C, [("            print(\"Warning: unknown file version. Will attempt to read it anyway\")\n", "            print(\"Warning: unknown file version. Will attempt to read it anyway\")\n            self._file_version = 1\n")], TOPIC + r'''
assert parse(head(version=3) + flags())._file_version == 3
''', 'a file of a newer version', 'another version is given'),
 'h-a02-big-message': ('A02', C, [("                data = self._file_handle.read(header.msg_size)\n                curr_file_pos += len(data)\n                if len(data) < header.msg_size:\n                    break # less data than expected. File is most likely cut\n",
   "                if header.msg_size > 1 << 15 and header.msg_type == self.MSG_TYPE_LOGGING:\n                    continue # not a message of ours\n                data = self._file_handle.read(header.msg_size)\n                curr_file_pos += len(data)\n                if len(data) < header.msg_size:\n                    break # less data than expected. File is most likely cut\n")], TOPIC + r'''
u = parse(topic(extra=log('6', 5, 'x' * 40000) + data(0, u64(9000) + f32(9))))
assert len(u.logged_messages) == 1
''', 'a very long logged message', 'it is passed over without its payload'),
 'h-a03-definitions-multi': ('A03', C, [("                elif header.msg_type == self.MSG_TYPE_INFO_MULTIPLE:\n                    msg_info = self._MessageInfo(data, header, is_info_multiple=True)\n                    self._add_message_info_multiple(msg_info)\n                elif header.msg_type == self.MSG_TYPE_FORMAT:",
   "                elif header.msg_type == self.MSG_TYPE_INFO_MULTIPLE:\n                    msg_info = self._MessageInfo(data, header, is_info_multiple=True)\n                    self._add_message_info_multiple(msg_info)\n                    self._msg_info_dict.pop(msg_info.key, None)\n                elif header.msg_type == self.MSG_TYPE_FORMAT:")], TOPIC + r'''
u = parse(topic(defs=info('char[1] k', b'a') + multi('char[1] k', b'b')))
assert u.msg_info_dict == {'k': 'a'} and u.msg_info_multiple_dict == {'k': [['b']]}
''', 'a key used for both kinds of information', 'one of them is lost'),
 'h-a03-level-digit': ('A03', C, [("            self.log_level, = struct.unpack('<B', data[0:1])\n            self.timestamp, = struct.unpack('<Q', data[1:9])", "            self.log_level, = struct.unpack('<B', data[0:1])\n            if self.log_level < 8: # logged as a number\n                self.log_level += ord('0')\n            self.timestamp, = struct.unpack('<Q', data[1:9])")], TOPIC + r'''
u = parse(topic(extra=msg('L', b'\3' + u64(5) + b'x')))
assert u.logged_messages[0].log_level == 3
''', 'a level below 8', 'another level is recorded'),
 'h-a04-default-once': ('A04', C, [("            self._default_parameters[def_type][msg_param.key] = msg_param.value", "            self._default_parameters[def_type].setdefault(msg_param.key, msg_param.value)")], TOPIC + r'''
u = parse(topic(pre=flags(compat=[1]), defs=default(1, 'int32_t A', i32(1)) + default(3, 'int32_t A', i32(2))))
assert u.get_default_parameters(0) == {'A': 2}
''', 'a default given twice', 'the first one stays'),
 'h-a04-late-default': ('A04', C, [("            self._default_parameters[def_type][msg_param.key] = msg_param.value", "            self._default_parameters[def_type][msg_param.key] = msg_param.value\n            if def_type == 0 and msg_param.key not in self._initial_parameters:\n                self._initial_parameters[msg_param.key] = msg_param.value")], TOPIC + r'''
u = parse(topic(pre=flags(compat=[1]), defs=default(1, 'int32_t A', i32(1))))
assert u.initial_parameters == {}
''', 'a default of a parameter without value', 'it counts as an initial value'),
 'h-a05-dropout-time': ('A05', C, [("        self._last_timestamp = self._start_timestamp\n" if False else "                        self._dropouts.append(msg_dropout)\n", "                        self._dropouts.append(msg_dropout)\n                        self._last_timestamp += msg_dropout.duration * 1000\n")], TOPIC + r'''
assert parse(topic(extra=dropout(500))).last_timestamp == 2002
''', 'a dropout', 'the last timestamp moves on'),
 'h-a05-logging-time': ('A05', C, [("                        self._logged_messages.append(msg_logging)\n", "                        self._logged_messages.append(msg_logging)\n                        self._last_timestamp = max(self._last_timestamp, msg_logging.timestamp)\n")], TOPIC + r'''
assert parse(topic(extra=log('6', 9000, 'x'))).last_timestamp == 2002
''', 'a logged message behind the last sample', 'its time counts as that of data'),
 'h-a06-def-raise': ('A06', C, [("            data = self._file_handle.read(header.msg_size)\n            if len(data) < header.msg_size:\n                break # less data than expected. File is most likely cut\n            try:", "            data = self._file_handle.read(header.msg_size)\n            if len(data) == 0 and header.msg_size > 0:\n                break # less data than expected. File is most likely cut\n            try:")], TOPIC + r'''
u = parse(head() + flags() + info('char[9] k', b'abcdefghi')[:-3])
assert u.msg_info_dict == {}
''', 'a log that is cut inside of an information message', 'a part of the message is recorded'),
 'h-a07-tag-cut': ('A07', C, [("            self.timestamp, = struct.unpack('<Q', data[3:11])", "            self.timestamp = int.from_bytes(data[3:11], 'little')")], TOPIC + r'''
u = parse(topic(extra=msg('C', b'6\0\0abc')))
assert u.file_corruption and not u.logged_messages_tagged
''', 'a logged message that is too short for its time', 'it is recorded with a wrong time'),
 'h-a07-key-length': ('A07', C, [("            type_key_split = type_key.split(' ')\n            self.type = type_key_split[0]\n            self.key = type_key_split[1]", "            self.type, _, self.key = type_key.partition(' ')")], TOPIC + r'''
u = parse(topic(extra=info('nokey', b'x')))
assert u.file_corruption and u.msg_info_dict == {}
''', 'an information message without a space in its key', 'it is recorded with an empty key'),
 'h-a08-tail': ('A08', C, [("        while len(chunk) >= len(ULog.SYNC_BYTES):\n", "        while len(chunk) > 0:\n")], TOPIC + r'''
import signal
signal.alarm(20)
parse(topic(extra=b'\0' * 20))
''', 'corruption near the end of the log', 'the search for a sync message never ends'),
 'h-a10-size-limit': ('A10', C, [("header.msg_size > 10000:", "header.msg_size >= 10000:")], TOPIC + r'''
u = parse(topic(extra=msg('~', b'a' * 10000) + data(0, u64(9000) + f32(9))))
assert not u.file_corruption and u.last_timestamp == 9000
''', 'an unknown message of exactly 10000 bytes', 'the log is marked as corrupt'),
 'h-a11-offset-flag': ('A11', C, [("                    if self._incompat_flags[0] & ~1:\n", "                    if self._incompat_flags[0] & 1 and not self._appended_offsets:\n                        raise ValueError('Log has data appended, but no offsets')\n                    if self._incompat_flags[0] & ~1:\n")], TOPIC + r'''
assert parse(topic(pre=flags(incompat=[1], offsets=[0, 0, 0]))).data_list
''', 'the flag for appended data without offsets', 'the log is refused'),
 'h-a13-timestamp-zero': ('A13', C, [("                    subscription.buffer += data[2:]\n                    t_off = subscription.timestamp_offset\n", "                    t_off = subscription.timestamp_offset\n                    if not any(data[t_off+2:t_off+10]):\n                        return False # never published\n                    subscription.buffer += data[2:]\n")], TOPIC + r'''
u = parse(topic(rows=[u64(0) + f32(1), u64(5) + f32(2)]))
assert u.get_dataset('t').data['timestamp'].tolist() == [0, 5]
''', 'a sample with time zero', 'it is left out'),
 'h-a13-longest': ('A13', C, [("                        data = data[:2+min_data_size]\n", "                        data = data[-min_data_size-2:]\n")], TOPIC + r'''
u = parse(topic(fields='float x;uint8_t[4] _padding0;', rows=[u64(5) + f32(2) + b'\1\2\3\4']))
assert u.get_dataset('t').data['timestamp'].tolist() == [5]
''', 'samples with padding', 'they are decoded from shifted bytes'),
 'h-a14-array-one': ('A14', C, [("                if type_name_fmt in ULog._UNPACK_TYPES:\n                    if array_size > 0:\n", "                if type_name_fmt in ULog._UNPACK_TYPES:\n                    if array_size > 1:\n")], TOPIC + r'''
assert 'x[0]' in parse(topic(fields='float[1] x;')).get_dataset('t').data
''', 'an array of one element', 'its field has no index'),
 'h-a14-timestamp-nested': ('A14', C, [("                    if prefix_str+field_name == 'timestamp':\n", "                    if field_name == 'timestamp':\n")], TOPIC + r'''
d = parse(topic(fields='n a;', defs=fmt('n:uint64_t timestamp;'), rows=[u64(5) + u64(6)])).get_dataset('t')
assert d.timestamp_idx == 0, d.timestamp_idx
''', 'a nested format with a time of its own', 'the index of the time is wrong'),
 'h-a15-char': ('B01', C, [("        'char':     ['c', 1, np.int8]\n", "        'char':     ['c', 1, np.uint8]\n")], TOPIC + r'''
d = parse(topic(fields='char x;', rows=[u64(5) + b'\xff'])).get_dataset('t')
import numpy as np
assert d.data['x'].dtype == np.int8 and write(parse(topic(fields='char x;', rows=[u64(5) + b'\xff'])))
''', 'a character that is not ASCII', 'it is decoded with another sign'),
 'h-a17-header-offset': ('A17', C, [("            if parse_header_only:\n                return\n", "            if parse_header_only:\n                self._appended_offsets = []\n                self._incompat_flags[0] &= ~1\n                return\n")], TOPIC + r'''
raw = topic(pre=flags(incompat=[1], offsets=[100000]))
a, b = parse(raw, parse_header_only=True), parse(raw)
assert a._incompat_flags == b._incompat_flags
''', 'the header of a log with appended data', 'its flags differ from those of the whole log'),
 'h-b01-uint8-array': ('B01', C, [("        elif value_type.startswith('uint8_t['):\n            data.extend(value)\n", "        elif value_type.startswith('uint8_t['):\n            data.extend(value.rstrip(b'\\0'))\n")], TOPIC + r'''
u = parse(topic(defs=info('uint8_t[4] k', b'ab\0\0')))
assert parse(write(u)).msg_info_dict == {'k': b'ab\0\0'}
''', 'bytes that end with zeros', 'they get shorter when written'),
 'h-b01-nan-param': ('B01', C, [("    def _make_parameter_data(self, name: str, value) -> bytes:\n        if isinstance(value, int):\n", "    def _make_parameter_data(self, name: str, value) -> bytes:\n        if isinstance(value, int) or value != value:\n            value = value if value == value else 0\n")], TOPIC + r'''
u = parse(topic(defs=param('float A', f32(float('nan')))))
v = parse(write(u)).initial_parameters['A']
assert v != v
''', 'a parameter that is not a number', 'it becomes zero'),
 'h-b01-multi-order': ('B01', C, [("        for base_key, value_sets in self._msg_info_multiple_dict.items():\n", "        for base_key, value_sets in sorted(self._msg_info_multiple_dict.items(),\n                                           key=lambda x: len(x[1][0][0])):\n")], TOPIC + r'''
u = parse(topic(defs=multi('char[3] k', b'abc') + multi('int32_t j', i32(3))))
assert parse(write(u)) == u
''', 'continued information that is a number', 'the log can not be written'),
 'h-b02-sort-reverse': ('B02', C, [("        items.sort(key=lambda x: x[0])\n", "        items.sort(key=lambda x: np.uint32(x[0] // 1000))\n")], TOPIC + r'''
u = parse(topic(rows=[u64(2000500) + f32(1)], extra=log('6', 2000400, 'x')))
w = write(u)
assert w.index(b'x', len(w) - 60) < w.index(u64(2000500)) if False else w.rindex(msg('L', b'6' + u64(2000400) + b'x')) < w.index(u64(2000500))
''', 'times that differ by less than a millisecond', 'they are not in order'),
 'h-b03-version': ('B03', C, [("        header_data.extend(struct.pack('B', self._file_version))", "        header_data.extend(struct.pack('B', min(self._file_version, 1)))")], TOPIC + r'''
assert write(parse(head(version=2) + flags()))[7] == 2
''', 'a log of a newer version', 'it is written as an older one'),
 'h-b04-eq-sort': ('B04', C, [("        return all(\n            self_value == getattr(other, field)\n            for field, self_value in self.__dict__.items()\n        )", "        for log in (self, other): # the order does not matter\n            log._dropouts.sort(key=lambda d: d.duration)\n        return all(\n            self_value == getattr(other, field)\n            for field, self_value in self.__dict__.items()\n        )")], TOPIC + r'''
u = parse(topic(extra=dropout(9) + dropout(3)))
assert u == parse(topic(extra=dropout(9) + dropout(3)))
assert [d.duration for d in u.dropouts] == [9, 3]
''', 'comparing logs with several dropouts', 'their order changes'),
 'h-b05-buffer': ('B05', C, [("        if isinstance(log_file, str):\n            handle = open(log_file, \"wb\")\n        else:\n            handle = contextlib.nullcontext(log_file)\n", "        if isinstance(log_file, str):\n            handle = open(log_file, \"wb\")\n        else:\n            log_file.seek(0)\n            handle = contextlib.nullcontext(log_file)\n")], TOPIC + r'''
b = io.BytesIO()
b.write(b'mine')
parse(topic()).write_ulog(b)
assert b.getvalue().startswith(b'mine')
''', 'a file object that something was written to before', 'that is overwritten'),
 'h-b06-padded': ('B06', C, [("            arrays_equal = self.data.keys() == other.data.keys()\n", "            arrays_equal = all(key in other.data for key in self.data)\n")], TOPIC + r'''
a, b = (parse(topic()).get_dataset('t') for _ in range(2))
b.data['y'] = b.data['x']
assert a != b and b != a
''', 'a dataset with an additional series', 'it is equal in one direction'),
 'h-b06-level-name': ('B06', C, [("            return (self.log_level == other.log_level and\n                    self.timestamp == other.timestamp and\n                    self.message == other.message)\n", "            return (self.log_level_str() == other.log_level_str() and\n                    self.timestamp == other.timestamp and\n                    self.message == other.message)\n")], TOPIC + r'''
a, b = (parse(topic(extra=log(l, 5, 'x'))).logged_messages[0] for l in '8x')
assert a != b
''', 'two levels without a name', 'the messages are equal'),
 'h-b07-last': ('B07', C, [("            indices = np.where(x[:-1] != x[1:])[0] + 1\n            ret.extend(zip(t[indices], x[indices]))", "            indices = np.nonzero(np.diff(x) > 0)[0] + 1\n            ret.extend(zip(t[indices], x[indices]))")], TOPIC + r'''
d = parse(topic(rows=[u64(5) + f32(2), u64(6) + f32(1)])).get_dataset('t')
assert len(d.list_value_changes('x')) == 2
''', 'a value that gets smaller', 'the change is not listed'),
 'h-b08-alpha': ('B08', C, [("        if not version is None and version[3] >= 64:", "        if version and all(version[:1]) and version[3] >= 64:")], TOPIC + r'''
u = parse(topic(defs=info('uint32_t ver_sw_release', struct.pack('<I', 0x000102ff))))
assert u.get_version_info_str() == 'v0.1.2'
''', 'the major version 0', 'it is not printed'),
 'h-c01-info-bytes': ('C01', D, [("                ) for key, value in self.msg_info_dict.items()])", "                ) for key, value in self.msg_info_dict.items() if value != b''])")], DB + r'''
a, b, p, h = back(topic(defs=info('uint8_t[0] k', b'')))
assert b.msg_info_dict == a.msg_info_dict == {'k': b''}, b.msg_info_dict
''', 'information without bytes', 'it is lost'),
 'h-c01-level-char': ('C01', D, [("                ) for message in self._logged_messages])", "                ) for message in sorted(self._logged_messages, key=lambda m: m.timestamp)])")], DB + r'''
a, b, p, h = back(topic(extra=log('6', 9, 'a') + log('6', 5, 'b')))
assert [m.message for m in b.logged_messages] == ['a', 'b']
''', 'logged messages out of order', 'they come back in another order'),
 'h-c04-pk-first': ('C04', D, [("            primary_key = cur.lastrowid\n\n            # appended_offsets\n", "            primary_key = cur.lastrowid\n            con.commit()\n\n            # appended_offsets\n")], DB + r'''
path, h = new_db()
u = DatabaseULog(h, log_file=file_of(topic()))
u._dropouts = [None]
try:
    u.save()
except AttributeError:
    pass
assert query(path, 'SELECT COUNT(*) FROM ULog') == [(0,)]
''', 'saving fails in the middle', 'a part of the log stays in the database'),
 'h-c06-topic-fields': ('C06', D, [("                    FROM ULogField\n                    WHERE DatasetId = ?\n                    ''', (dataset_id,))", "                    FROM ULogField\n                    WHERE DatasetId = (SELECT Id FROM ULogDataset WHERE DatasetName = ? AND MultiId = ?)\n                    ''', (name, multi_instance))")], DB + r'''
path, h = new_db()
for i in (1, 2):
    u = DatabaseULog(h, log_file=file_of(topic(n=i)))
    u.save()
v = DatabaseULog(h, primary_key=u.primary_key, lazy=False)
assert v.get_dataset('t').data['timestamp'].tolist() == [2000, 2001]
''', 'two logs with the same topic', 'the samples of the first are returned for both'),
 'h-c07-prefix': ('C07', D, [("                WHERE SHA256Sum = ?\n                ''', (sha256sum,))", "                WHERE SHA256Sum LIKE ?\n                ''', (sha256sum[:60] + '%',))")], DB + r'''
a, b, p, h = back(topic())
assert DatabaseULog.primary_key_from_sha256sum(h, a._sha256sum[:60] + 'zzzz') is None
''', 'a digest with the same beginning', 'another log is found'),
 'h-c09-newer': ('C09', D, [("            if db_version < DatabaseULog.SCHEMA_VERSION:", "            if 0 < db_version < DatabaseULog.SCHEMA_VERSION:")], DB + r'''
import os, sqlite3, tempfile
from pyulog.db import DatabaseULog
d = tempfile.mkdtemp()
db = DatabaseULog.get_db_handle(d + '/x')
try:
    DatabaseULog(db, log_file=file_of(topic()))
    raise SystemExit(1)
except ValueError:
    pass
''', 'a database without a schema', 'it is accepted'),
 'h-e01-string-all': ('E01', pf('ulog2csv'), [("        s.append(int(character) & 0xff)\n", "        s.append(int(character) & 0x7f)\n")], TOPIC + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG'], topic(fields='char[2] s;', rows=[u64(5) + '\u00e9'.encode()])))
assert f['in_t_0.csv'].decode().splitlines()[1] == '5,\u00e9', f
''', 'text that is not ASCII', 'other characters are exported'),
 'h-e01-precision': ('E01', pf('ulog2csv'), [("                        csvfile.write(str(d.data[data_keys[k]][i]))\n", "                        csvfile.write('%.10g' % d.data[data_keys[k]][i])\n")], TOPIC + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG'], topic(rows=[u64(12345678901) + f32(2)])))
assert f['in_t_0.csv'].decode().splitlines()[1].startswith('12345678901,'), f
''', 'a time of more than ten digits', 'its last digits are lost'),
 'h-e02-seconds': ('E02', pf('extract_message'), [("    time_s_i = np.append(np.where(data.data['timestamp'] >= time_s * 1e6)[0],", "    time_s_i = np.append(np.where(data.data['timestamp'] // 1000000 >= time_s)[0],")], TOPIC + r'''
import shutil, tempfile
from pyulog.extract_message import extract_message
d = tempfile.mkdtemp()
try:
    with open(d + '/a.ulg', 'wb') as h:
        h.write(topic(rows=[u64(t) + f32(1) for t in (1400000, 1600000)]))
    assert len(extract_message(d + '/a.ulg', 't', time_s=1.5)) == 1
finally:
    shutil.rmtree(d)
''', 'a start that is not a whole second', 'samples before it are given'),
 'h-e03-int-float': ('E03', pf('params'), [("            if isinstance(param_value, float):\n", "            if isinstance(param_value, float) and not param_value.is_integer():\n")], TOPIC + r'''
o, f, e = ok(run_tool('ulog_params' if False else 'params', ['-f', 'qgc', 'LOG'], topic(defs=param('float A', f32(2.0)))))
assert o.split() == ['1', '1', 'A', '2.0', '9'], o
''', 'a float parameter with a whole value', 'it gets the type of an integer'),
 'h-e03-empty-default': ('E03', pf('params'), [("    if args.default is not None:\n", "    if args.default is not None and get_defaults(ulog, args.default):\n")], TOPIC + r'''
o, f, e = ok(run_tool('params', ['-d', 'current_setup', 'LOG'], topic(pre=flags(compat=[1]), defs=param('int32_t A', i32(1)) + default(1, 'int32_t A', i32(2)))))
assert o.strip() == '', o
''', 'a log without defaults of the kind asked for', 'the configured values are written'),
 'h-e04-info-bytes': ('E04', pf('info'), [("            print(\" {0}: {1}\".format(k, ulog.msg_info_dict[k]))\n", "            print(\" {0}: {1}\".format(k, ulog.msg_info_dict[k] or '-'))\n")], TOPIC + r'''
o, f, e = ok(run_tool('info', ['LOG'], topic(defs=info('uint32_t k', i32(0)))))
assert ' k: 0' in o, o
''', 'information with the value 0', 'the value is not shown'),
 'h-e05-tab-only': ('E05', pf('messages'), [("            if message.endswith('\\t'):\n", "            if message.rstrip('\\n').endswith('\\t'):\n")], PX4M + r'''
raw = topic(defs=info('char[3] sys_name', b'PX4'), extra=log('6', 5000000, 'keep\t\n'))
o, f, e = ok(run_tool('messages', ['LOG'], raw, mods=mods()))
assert 'keep' in o, o
''', 'a message with a tab before its last line break', 'it is left out'),
 'h-e07-len-zero': ('E07', pf('extract_gps_dump'), [("                if instance == required_instance:\n", "                if instance == required_instance and msg_len < 128 + 79:\n")], TOPIC + r'''
n = 79
raw = topic(name='gps_dump', fields='uint8_t instance;uint8_t len;uint8_t[79] data;', rows=[u64(5) + bytes([0, 128 + n]) + bytes(range(1, n + 1))])
o, f, e = ok(run_tool('extract_gps_dump', ['LOG'], raw))
assert f['in_0_to_device.dat'] == bytes(range(1, n + 1)), f
''', 'a full message to the receiver', 'it is left out'),
 'h-e10-float': ('E10', pf('px4'), [("            roll = np.arctan2(2.0 * (q[0] * q[1] + q[2] * q[3]),", "            q = [np.round(x, 4) for x in q]\n            roll = np.arctan2(2.0 * (q[0] * q[1] + q[2] * q[3]),")], TOPIC + r'''
from pyulog.px4 import PX4ULog
import math
u = parse(topic(name='vehicle_attitude', fields='float[4] q;', rows=[u64(5) + f32(math.cos(0.00002)) + f32(math.sin(0.00002)) + f32(0) + f32(0)]))
PX4ULog(u).add_roll_pitch_yaw()
assert abs(u.get_dataset('vehicle_attitude').data['roll'][0] - 0.00004) < 1e-7
''', 'a very small angle', 'it is rounded to zero'),
 'h-e11-channel': ('E11', pf('px4'), [("            if key.startswith('RC_MAP_') and param_val == channel + 1:", "            if key.startswith('RC_MAP_') and int(param_val) % 16 == channel + 1:")], TOPIC + r'''
from pyulog.px4 import PX4ULog
assert PX4ULog(parse(topic(defs=param('int32_t RC_MAP_ROLL', i32(18))))).get_configured_rc_input_names(1) is None
''', 'a channel above 16', 'it is taken for another one'),
 'h-e14-patch': ('E14', pf('ulog2ros2bag'), [('    return tuple(map(int, version("rosbag2_py").split(".")[:2])) >= (0, 25)', '    return float(".".join(version("rosbag2_py").split(".")[:2])) >= 0.25')], BAG + r'''
raw = topic(name='thing')
T = {'Thing': {'timestamp': ('uint64', 0), 'x': ('float', 0.)}}
bag_of(raw, T)
m = sys.modules['pyulog.ulog2ros2bag']
for v, want in (('0.9.1', False), ('0.3.0', False), ('0.25.0', True), ('0.100.0', True), ('1.0.0', True)):
    m.version = lambda name, v=v: v
    assert m.rosbag_topicmetadata_uses_id() == want, v
''', 'a version number with one digit', 'the interface of a newer version is used'),
 'h-e15-numpy': ('E15', pf('extract_message'), [("            row[key] = data.data[key][i]\n", "            row[key] = float(data.data[key][i])\n")], TOPIC + r'''
import shutil, tempfile
from pyulog.extract_message import extract_message
d = tempfile.mkdtemp()
try:
    with open(d + '/a.ulg', 'wb') as h:
        h.write(topic(rows=[u64((1 << 60) + 1) + f32(1)]))
    assert extract_message(d + '/a.ulg', 't')[0]['timestamp'] == (1 << 60) + 1
finally:
    shutil.rmtree(d)
''', 'large integers', 'they lose digits'),
 'h-e16-parser': ('E06', pf('px4_events'), [("        if json_definitions is not None:\n            self._default_parser = Parser()\n", "        if json_definitions is not None:\n            self._events_profile = 'normal'\n            self._default_parser = Parser()\n")], PX4M + r'''
p = with_events()
p.set_default_json_definitions_cb(lambda x: None if x else {})
p._get_event_parser(parse(topic()))
assert p._events_profile == 'dev'
''', 'default definitions in use', 'the texts are those for users, also for later logs'),
}
