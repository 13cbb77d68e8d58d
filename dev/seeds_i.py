""" planted bugs, ninth round """
from seeds_e import TOPIC, PX4M, KML, BAG, pf
from seeds_c import DB
from seeds_d import PRE, M, Q
C = 'pyulog/core.py'
D = 'pyulog/db.py'
SEEDS = {
 'i-a02-sync-payload': ('A02', C, [("                data = self._file_handle.read(header.msg_size)\n                curr_file_pos += len(data)\n                if len(data) < header.msg_size:\n                    break # less data than expected. File is most likely cut\n\n                if curr_file_pos > read_until:",
    "                if header.msg_type == self.MSG_TYPE_SYNC:\n                    header.msg_size = len(self.SYNC_BYTES)\n                data = self._file_handle.read(header.msg_size)\n                curr_file_pos += len(data)\n                if len(data) < header.msg_size:\n                    break # less data than expected. File is most likely cut\n\n                if curr_file_pos > read_until:")], TOPIC + r'''
u = parse(topic(extra=msg('S', SYNC + b'Dxx') + data(0, u64(9000) + f32(9))))
assert u.get_dataset('t').data['timestamp'].tolist() == [2000, 2001, 2002, 9000]
''', 'a sync message that is longer than usual', 'the rest of it is read as a message'),
 'i-a03-text-nul': ('A03', C, [("            self.message = ULog.parse_string(data[9:])", "            self.message = ULog.parse_string(data[9:].split(b'\\0')[0])")], TOPIC + r'''
assert parse(topic(extra=log('6', 5, 'a\0b'))).logged_messages[0].message == 'a\0b'
''', 'a logged message with a zero byte inside', 'its rest is lost'),
 'i-a03-multi-not-first': ('A03', C, [("            self._msg_info_multiple_dict[msg_info.key] = [[msg_info.value]]\n", "            if msg_info.is_continued:\n                return # the beginning is missing\n            self._msg_info_multiple_dict[msg_info.key] = [[msg_info.value]]\n")], TOPIC + r'''
u = parse(topic(defs=multi('char[1] k', b'a', 1)))
assert u.msg_info_multiple_dict == {'k': [['a']]}, u.msg_info_multiple_dict
''', 'a continued message without a beginning', 'it is lost'),
 'i-a04-change-own-time': ('A04', C, [("                        self._changed_parameters.append((self._last_timestamp,\n", "                        self._changed_parameters.append((msg_data.timestamp or self._last_timestamp,\n")], TOPIC + r'''
raw = topic(extra=data(0, u64(9000) + f32(1)) + data(0, u64(5000) + f32(1)) + param('float p', f32(1)))
assert parse(raw).changed_parameters == [(9000, 'p', 1.0)]
''', 'a change behind a sample that is older than others', 'it gets the time of that sample'),
 'i-a04-nan-default': ('A04', C, [("            self._default_parameters[def_type][msg_param.key] = msg_param.value\n", "            if msg_param.value == msg_param.value: # skip NaN\n                self._default_parameters[def_type][msg_param.key] = msg_param.value\n")], TOPIC + r'''
u = parse(topic(defs=default(1, 'float p', f32(float('nan')))))
assert 'p' in u.get_default_parameters(0)
''', 'a default that is not a number', 'it is missing'),
 'i-a05-corrupt-sample': ('A05', C, [("                    self.timestamp = 0\n                    has_corruption = True\n", "                    self.timestamp, = ULog._unpack_uint64(data[2:10])\n                    ulog_object._last_timestamp = max(ulog_object._last_timestamp, self.timestamp)\n                    has_corruption = True\n")], TOPIC + r'''
u = parse(topic(extra=data(0, u64(9000) + b'xx')))
assert u.last_timestamp == 2002, u.last_timestamp
''', 'a sample of a wrong size', 'its time counts'),
 'i-a08-whole-chunk': ('A08', C, [("            current_file_position = self._file_handle.seek(-(len(ULog.SYNC_BYTES)-1), 1)", "            current_file_position = self._file_handle.seek(-len(ULog.SYNC_BYTES), 1)")], TOPIC + r'''
import signal
signal.alarm(20)
parse(topic(extra=b'\0\0\0' + b'x' * 40))
''', 'a damaged log without sync messages', 'opening it never ends'),
 'i-a10-sync-clean': ('A10', C, [("            # declare file corrupt if we skipped bytes to sync sequence\n            self._file_corrupt = True\n", "            # declare file corrupt if we skipped bytes to sync sequence\n            self._file_corrupt |= last_n_bytes == -1\n")], TOPIC + r'''
u = parse(topic(extra=msg('~', b'abc' + SYNC + b'de') + data(0, u64(9000) + f32(9))))
assert u.file_corruption
''', 'a sync sequence inside of an unknown message', 'the log is not marked as corrupt'),
 'i-a11-flags-late': ('A11', C, [("                    for i in range(1, 8):\n                        if self._incompat_flags[i]:\n", "                    for i in range(1, len(self._incompat_flags) - 1):\n                        if self._incompat_flags[i] & 0x7f:\n")], TOPIC + r'''
try:
    parse(topic(pre=flags(incompat=[0, 0, 0x80])))
    raise SystemExit(1)
except NotImplementedError:
    pass
''', 'the top bit of a later flags byte', 'the log is accepted'),
 'i-a12-consumed': ('A12', C, [("                            self._subscriptions[msg_add_logged.msg_id] = msg_add_logged\n", "                            self._subscriptions[msg_add_logged.msg_id] = msg_add_logged\n                            if message_name_filter_list and msg_add_logged.multi_id == 3:\n                                # all instances are found\n                                message_name_filter_list = [\n                                    n for n in message_name_filter_list\n                                    if n != msg_add_logged.message_name]\n")], TOPIC + r'''
raw = (head() + flags() + fmt('t:uint64_t timestamp;') + b''.join(add(i, 't', i) for i in (3, 0)) + data(3, u64(5)) + data(0, u64(5)))
assert len(parse(raw, ['t']).data_list) == 2
''', 'instances that are subscribed in another order, with a filter', 'some of them are left out'),
 'i-a13-first-zero': ('A13', C, [("                    subscription.buffer += data[2:]\n                    t_off = subscription.timestamp_offset\n", "                    t_off = subscription.timestamp_offset\n                    if data[2:] == subscription.buffer[-min_data_size:]:\n                        return False # logged twice\n                    subscription.buffer += data[2:]\n")], TOPIC + r'''
u = parse(topic(extra=data(0, u64(9000) + f32(9)) * 2))
assert len(u.get_dataset('t').data['x']) == 5
''', 'the same sample twice', 'one of them is left out'),
 'i-a14-nested-reused': ('A14', C, [("                            self._parse_nested_type(prefix_str+field_name+'['+str(i)+'].',\n", "                            self._parse_nested_type(prefix_str+'.'.join([field_name+'['+str(i)+']', '']).lower(),\n")], TOPIC + r'''
raw = head() + flags() + fmt('In:float X;') + fmt('t:uint64_t timestamp;In[2] Sub;') + add(0, 't') + data(0, u64(5) + f32(1) + f32(2))
assert [f.field_name for f in parse(raw).get_dataset('t').field_data] == ['timestamp', 'Sub[0].X', 'Sub[1].X']
''', 'an array of formats with capital letters in its name', 'the names differ'),
 'i-a17-stop-at-params': ('A17', C, [("                elif header.msg_type in (self.MSG_TYPE_ADD_LOGGED_MSG,\n                      self.MSG_TYPE_LOGGING, self.MSG_TYPE_LOGGING_TAGGED):\n", "                elif header.msg_type in (self.MSG_TYPE_ADD_LOGGED_MSG, self.MSG_TYPE_DATA,\n                      self.MSG_TYPE_LOGGING, self.MSG_TYPE_LOGGING_TAGGED, self.MSG_TYPE_SYNC):\n")], TOPIC + r'''
raw = head() + flags() + fmt('t:uint64_t timestamp;') + sync() + param('float p', f32(1)) + add(0, 't') + data(0, u64(5))
assert parse(raw).initial_parameters == {'p': 1.0}
''', 'a sync message in the definitions', 'later parameters count as changes'),
 'i-b02-ms': ('B02', C, [("        items.sort(key=lambda x: x[0])\n", "        items.sort(key=lambda x: int(x[0] / 1e3))\n")], TOPIC + r'''
raw = topic(rows=[u64(2000900) + f32(1)], extra=log('6', 2000100, 'a'))
w = write(parse(raw))
assert w.index(b'\x16\x00D' if False else u64(2000100)) < w.index(u64(2000900))
''', 'records within the same millisecond', 'they are not in order'),
 'i-b04-get-dataset': ('B04', C, [("        return [elem for elem in self._data_list\n                if elem.name == name and elem.multi_id == multi_instance][0]\n", "        found = [elem for elem in self._data_list\n                 if elem.name == name and elem.multi_id == multi_instance][0]\n        # often asked for several times\n        self._data_list.insert(0, self._data_list.pop(self._data_list.index(found)))\n        return found\n")], TOPIC + r'''
raw = head() + flags() + fmt('a:uint64_t timestamp;') + fmt('b:uint64_t timestamp;') + add(0, 'a') + add(1, 'b') + data(0, u64(5)) + data(1, u64(5))
u = parse(raw)
u.get_dataset('b')
assert [d.name for d in u.data_list] == ['a', 'b']
''', 'asking for a dataset that is not the first', 'the order of the datasets changes'),
 'i-b07-tolerance': ('B07', C, [("            indices = np.where(x[:-1] != x[1:])[0] + 1\n", "            indices = np.where(np.abs(np.diff(x)) > 0)[0] + 1\n")], TOPIC + r'''
d = parse(topic(rows=[u64(5) + f32(float('nan')), u64(6) + f32(1), u64(7) + f32(float('nan'))])).get_dataset('t')
assert len(d.list_value_changes('x')) == 3
''', 'a change from or to NaN', 'it is not listed'),
 'i-b08-absent-zero': ('B08', C, [("        if key_name in self._msg_info_dict:\n            val = self._msg_info_dict[key_name]\n", "        val = self._msg_info_dict.get(key_name)\n        if val:\n")], TOPIC + r'''
u = parse(topic(defs=info('uint32_t ver_sw_release', struct.pack('<I', 0))))
assert u.get_version_info() == (0, 0, 0, 0)
''', 'a version of zero', 'it counts as absent'),
 'i-c01-sets': ('C01', D, [("                ) for dropout in self._dropouts])", "                ) for dropout in {(d.timestamp, d.duration): d for d in self._dropouts}.values()])")], DB + r'''
a, b, p, h = back(topic(extra=dropout(5) * 2))
assert len(b.dropouts) == 2
''', 'two dropouts of the same time and length', 'one of them is lost'),
 'i-c01-msg-order': ('C01', D, [("                SELECT LogLevel, Timestamp, Message\n                FROM ULogMessageLogging\n                WHERE ULogId = ?\n", "                SELECT LogLevel, Timestamp, Message\n                FROM ULogMessageLogging\n                WHERE ULogId = ?\n                ORDER BY Timestamp, LogLevel\n")], DB + r'''
a, b, p, h = back(topic(extra=log('6', 9, 'a') + log('3', 9, 'b')))
assert a.logged_messages == b.logged_messages
''', 'messages of the same time with different levels', 'they come back in another order'),
 'i-c01-distinct': ('C01', D, [("                SELECT Timestamp, Key, Value\n                FROM ULogChangedParameter\n", "                SELECT DISTINCT Timestamp, Key, Value\n                FROM ULogChangedParameter\n")], DB + r'''
a, b, p, h = back(topic(extra=param('float p', f32(1)) * 2))
assert a.changed_parameters == b.changed_parameters
''', 'the same change twice', 'it is loaded once'),
 'i-c04-commit-per-dataset': ('C04', D, [("                dataset_id = cur.lastrowid\n                for field in dataset.field_data:\n", "                dataset_id = cur.lastrowid\n                if len(dataset.field_data) > 3:\n                    con.commit() # keep the journal small\n                for field in dataset.field_data:\n")], DB + r'''
path, h = new_db()
u = DatabaseULog(h, log_file=file_of(topic(fmt_text='t:uint64_t timestamp;float x;float y;float z;', payload=lambda i: u64(5) + f32(1) * 3)))
u._dropouts = [None]
try:
    u.save()
except AttributeError:
    pass
assert query(path, 'SELECT COUNT(*) FROM ULog') == [(0,)]
''', 'saving fails behind a large dataset', 'a part of the log stays'),
 'i-c05-pragma-off': ('C05', D, [("            con.execute('PRAGMA foreign_keys=on')\n", "            if os.path.exists(db_path):\n                con.execute('PRAGMA foreign_keys=on')\n"), ("import contextlib\n", "import contextlib\nimport os\n")], DB + r'''
h = DatabaseULog.get_db_handle('file:memdb?mode=memory&cache=shared')
import sqlite3
assert DatabaseULog.get_db_handle(':memory:')().execute('PRAGMA foreign_keys').fetchone() == (1,)
''', 'a database that is not an ordinary file', 'deleting leaves rows behind'),
 'i-c06-cursor': ('C06', D, [("                WHERE DatasetName = ? AND MultiId = ? AND ULogId = ?\n                ''', (name, multi_instance, self._pk))", "                WHERE DatasetName = ? AND MultiId = ? AND ULogId <= ?\n                ORDER BY Id DESC\n                ''', (name, multi_instance, self._pk))")], DB + r'''
path, h = new_db()
u = DatabaseULog(h, log_file=file_of(topic()))
u.save()
v = DatabaseULog(h, log_file=file_of(topic(n=1, fmt_text='other:uint64_t timestamp;float x;', adds=add(0, 'other'))))
v.save()
try:
    DatabaseULog(h, primary_key=v.primary_key).get_dataset('t')
    raise SystemExit(1)
except KeyError:
    pass
''', 'a topic that only an earlier log has', 'the samples of that log are returned'),
 'i-c08-lazy-field': ('C08', D, [("        self._lazy_loaded = lazy\n\n    def get_dataset", "        self._lazy_loaded = lazy and len(self._data_list) > 1\n\n    def get_dataset")], DB + r'''
a, b, p, h = back(topic(), lazy=True)
try:
    b.write_ulog(io.BytesIO())
    raise SystemExit(1)
except ValueError:
    pass
''', 'a lazily loaded log with a single dataset', 'it is written without its samples'),
 'i-c10-ints': ('C10', D, [("                            dict(zip(timestamp_list, values.tolist()))\n", "                            dict(zip(timestamp_list, values.astype(float).tolist() if values.dtype.kind == 'u' else values.tolist()))\n")], DB + r'''
import json
a, b, path, h = back(topic(payload=lambda i: u64((1 << 53) + 1), n=1, fmt_text='t:uint64_t timestamp;'), append_json=True)
t = query(path, "SELECT ValueJson FROM ULogField")[0][0]
assert json.loads(t) == {str((1 << 53) + 1): (1 << 53) + 1}, t
''', 'a large number', 'it is rounded'),
 'i-e01-sorted-fields': ('E01', pf('ulog2csv'), [("        data_keys.remove('timestamp')\n        data_keys.insert(0, 'timestamp')  # we want timestamp at first position\n        return", "        data_keys.sort(key=lambda k: (k != 'timestamp', k.split('.')[0] if '.' in k else ''))\n        return")], TOPIC + r'''
raw = head() + flags() + fmt('s:float x;') + fmt('t:uint64_t timestamp;s b;float c;s a;') + add(0, 't') + data(0, u64(5) + f32(1) + f32(2) + f32(3))
o, f, e = ok(run_tool('ulog2csv', ['LOG'], raw))
assert [v for k, v in f.items() if k.endswith('.csv')][0].splitlines()[0].strip() in (b'timestamp,b.x,c,a.x', 'timestamp,b.x,c,a.x'), f
''', 'nested fields between others', 'the columns are in another order'),
 'i-e02-end-seconds': ('E02', pf('ulog2csv'), [("            time_e_i = np.append(np.where(d.data['timestamp'] >= time_e * 1e6)[0],", "            time_e_i = np.append(np.where(d.data['timestamp'] // 1000000 >= time_e)[0] if time_e and time_e > 0 else\n                                 np.where(d.data['timestamp'] > 0)[0][1:],")], TOPIC + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG', '-te', '-1'], topic()))
assert len([v for k, v in f.items() if k.endswith('.csv')][0].splitlines()) == 1
''', 'an end before the first sample', 'a sample is exported'),
 'i-e03-octave-int': ('E03', pf('params'), [("                output_file.write(str(values[0]))\n", "                output_file.write('{:g}'.format(values[0]))\n")], TOPIC + r'''
o, f, e = ok(run_tool('params', ['LOG', '-f', 'octave'], topic(defs=param('int32_t p', struct.pack('<i', 123456789)))))
assert '123456789' in o, o
''', 'a large integer in Octave form', 'its digits are lost'),
 'i-e04-negative': ('E04', pf('info'), [("    m2, s2 = divmod(int((ulog.last_timestamp - ulog.start_timestamp)/1e6), 60)\n", "    m2, s2 = divmod(int(ulog.last_timestamp/1e6) - int(ulog.start_timestamp/1e6), 60)\n")], TOPIC + r'''
o, f, e = ok(run_tool('info', ['LOG'], topic(start=1999999, rows=[u64(3000000) + f32(1)])))
assert 'duration: 0:00:01' in o, o
''', 'start and end in different parts of a second', 'the duration is one second off'),
 'i-e05-upper': ('E05', pf('messages'), [("            if message.endswith('\\t'):\n", "            if message[-1:].isspace():\n")], PX4M + r'''
raw = topic(defs=info('char[3] sys_name', b'PX4'), extra=log('6', 5000000, 'keep '))
o, f, e = ok(run_tool('messages', ['LOG'], raw, mods=mods()))
assert 'keep' in o, o
''', 'a message that ends with a blank', 'it is left out'),
 'i-e06-one-arg': ('E06', pf('px4_events'), [("                    if arg_str not in events.data:\n                        break\n", "                    if arg_str not in events.data or i >= 24:\n                        break\n")], PX4M + r'''
raw = head() + flags() + fmt('event:uint64_t timestamp;uint32_t id;uint8_t log_levels;uint8_t[25] arguments;') + add(0, 'event') + data(0, u64(5) + struct.pack('<IB25B', 3, 0x44, *range(25)))
p = with_events()
p.set_default_json_definitions_cb(lambda x: None if x else {})
got = []
Parser.parse = lambda self, i, a: got.append(bytes(a)) or Ev(i, a)
p.get_logged_events(parse(raw))
assert got == [bytes(range(25))], got
''', 'an event with 25 bytes of arguments', 'the last one is missing'),
 'i-e07-default-instance': ('E07', pf('extract_gps_dump'), [("            instances = gps_dump_data.data.get('instance', [0]*len(msg_lens))\n", "            instances = gps_dump_data.data.get('instance', [required_instance]*len(msg_lens))\n")], TOPIC + r'''
F = 'uint8_t len;' + 'uint8_t[79] data;'
o, f, e = ok(run_tool('extract_gps_dump', ['LOG', '-i', '1', '-o', 'DIR'] if False else ['LOG', '-i', '1'], topic(name='gps_dump', fields=F, rows=[u64(5) + b'\x02ab' + b'\0' * 77])))
assert all(v in (b'', '') for k, v in f.items() if k.endswith('.dat')), f
''', 'an old log without instances, the second receiver asked for', 'the bytes of the first are written'),
 'i-e08-interval-equal': ('E08', pf('ulog2kml'), [("    last_t = 0\n    for i in range(len(pos_lon)):\n", "    last_t = pos_t[0] - 1e9 if len(pos_t) else 0\n    for i in range(len(pos_lon)):\n")], KML + r'''
POS = 'double lat;double lon;float alt;'
raw = topic(name='p', fields=POS, rows=[u64(50000) + struct.pack('<ddf', 1, 2, 3), u64(250000) + struct.pack('<ddf', 4, 5, 6)])
lines, points, colours, names = kml_of(raw, position_topic_name='p', camera_trigger_topic_name=None)
assert sum(len(l) for l in lines) == 1, lines
''', 'a position right at the start of the time', 'it is shown although it is within the interval'),
 'i-e10-copy': ('E10', pf('px4'), [("            q = [message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)]\n", "            q = [message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)]\n            for values in q:\n                if values.flags.writeable:\n                    values[values == 0] = 0.0\n                    np.nan_to_num(values, copy=False)\n")], TOPIC + r'''
import numpy as np
from pyulog.px4 import PX4ULog
u = parse(topic(name='vehicle_attitude', fields='float[4] q;', rows=[u64(5) + f32(float('nan')) * 4]))
d = u.get_dataset('vehicle_attitude')
d.data = {k: v.copy() for k, v in d.data.items()}
PX4ULog(u).add_roll_pitch_yaw()
assert np.isnan(d.data['q[0]']).all()
''', 'an attitude that is not known', 'the logged quaternion is replaced'),
 'i-e11-float': ('E11', pf('px4'), [("        mc_est_group = self._ulog.initial_parameters.get('SYS_MC_EST_GROUP', 2)\n", "        mc_est_group = self._ulog.initial_parameters.get('SYS_MC_EST_GROUP', 2)\n        if mc_est_group > 3: # newer versions have only this one\n            mc_est_group = 2\n")], TOPIC + r'''
from pyulog.px4 import PX4ULog
u = parse(topic(defs=param('int32_t SYS_MC_EST_GROUP', struct.pack('<i', 7))))
assert 'unknown' in PX4ULog(u).get_estimator()
''', 'an unknown estimator', 'it is named as the default one'),
 'i-e13-strip': ('E13', pf('ulog2csv'), [("    msg_filter = messages.split(',') if messages else None\n", "    msg_filter = [m for m in messages.lower().split(',') if m] if messages else None\n")], TOPIC + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG', '-m', 'Ab'], topic(name='Ab')))
assert any(k.endswith('.csv') for k in f), f
''', 'a topic with a capital letter in its name', 'it is not found'),
 'i-e15-view': ('E15', pf('extract_message'), [("    for i in range(time_s_i, time_e_i):\n        row = {}\n", "    row = {}\n    for i in range(time_s_i, time_e_i):\n        row = dict(row) if i % 256 else row.copy() if i != 256 else row\n")], TOPIC + r'''
from pyulog.extract_message import extract_message
import tempfile
d = tempfile.mkdtemp()
open(d + '/a.ulg', 'wb').write(topic(rows=[u64(2000 + i) + f32(i) for i in range(300)]))
v = extract_message(d + '/a.ulg', 't')
assert [r['timestamp'] for r in v] == list(range(2000, 2300))
''', 'more than 256 samples', 'one record is replaced by another'),
}
