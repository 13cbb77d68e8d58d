""" planted bugs, eleventh round """
from seeds_e import TOPIC, PX4M, KML, BAG, pf
from seeds_c import DB
from seeds_d import PRE, M, Q
C = 'pyulog/core.py'
D = 'pyulog/db.py'
CSV = "def csv_of(f):\n    return [v.decode() if isinstance(v, bytes) else v for k, v in sorted(f.items()) if k.endswith('.csv')][0]\n\n\n"
SEEDS = {
 'k-a01-signed-start': ('A01', C, [("        self._start_timestamp, = ULog._unpack_uint64(header_data[8:])\n", "        self._start_timestamp, = struct.unpack('<q', header_data[8:])\n")], TOPIC + r'''
u = parse(topic(n=0, start=(1 << 63) + 5))
assert u.start_timestamp == (1 << 63) + 5, u.start_timestamp
''', 'a start time in the upper half', 'it is negative'),
 'k-a03-info-first': ('A03', C, [("                        self._msg_info_dict[msg_info.key] = msg_info.value\n                        self._msg_info_dict_types[msg_info.key] = msg_info.type\n", "                        self._msg_info_dict.setdefault(msg_info.key, msg_info.value)\n                        self._msg_info_dict_types.setdefault(msg_info.key, msg_info.type)\n")], TOPIC + r'''
u = parse(topic(defs=info('int32_t a', i32(1)), extra=info('int32_t a', i32(2))))
assert u.msg_info_dict['a'] == 2, u.msg_info_dict
''', 'an information that is written again later', 'the old one is kept'),
 'k-a03-tag-log': ('A03', C, [("            self.tag, = struct.unpack('<H', data[1:3])\n", "            self.tag = data[1]\n")], TOPIC + r'''
u = parse(topic(extra=tagged('6', 0x1234, 5, 'a')))
assert list(u.logged_messages_tagged) == [0x1234], u.logged_messages_tagged
''', 'a tag above 255', 'it is cut to one byte'),
 'k-a03-level-byte': ('A03', C, [("            self.log_level, = struct.unpack('<B', data[0:1])\n            self.timestamp, = struct.unpack('<Q', data[1:9])\n            self.message = ULog.parse_string(data[9:])\n", "            self.log_level = data[0] & 0x7f\n            self.timestamp, = struct.unpack('<Q', data[1:9])\n            self.message = ULog.parse_string(data[9:])\n")], TOPIC + r'''
u = parse(topic(extra=msg('L', bytes([0xb6]) + u64(5) + b'hi')))
assert u.logged_messages[0].log_level == 0xb6
''', 'a level byte with the top bit set', 'the bit is lost'),
 'k-a04-type-key': ('A04', C, [("            self._default_parameters[def_type][msg_param.key] = msg_param.value\n", "            self._default_parameters[def_type].setdefault(msg_param.key, msg_param.value)\n")], TOPIC + r'''
u = parse(topic(defs=default(1, 'int32_t a', i32(1)), extra=default(1, 'int32_t a', i32(2))))
assert u.get_default_parameters(0) == {'a': 2}, u.get_default_parameters(0)
''', 'a default that is written again', 'the old one is kept'),
 'k-a05-dropout-data': ('A05', C, [("                        msg_dropout = self.MessageDropout(data, header,\n                                                          self._last_timestamp)\n", "                        msg_dropout = self.MessageDropout(data, header,\n                                                          msg_data.timestamp or self._last_timestamp)\n")], TOPIC + r'''
u = parse(topic(rows=[u64(9000) + f32(1), u64(3000) + f32(1)], extra=dropout(5)))
assert u.dropouts[0].timestamp == 9000, u.dropouts[0].timestamp
''', 'a dropout behind data out of order', 'it has the time of that data'),
 'k-a06-short-header': ('A06', C, [("            data = self._file_handle.read(3)\n            if len(data) < 3:\n                break\n            header.initialize(data)\n", "            data = self._file_handle.read(3)\n            if not data:\n                break\n            header.initialize(data)\n")], TOPIC + r'''
u = parse(head() + flags() + b'\x05')
assert u.start_timestamp == 1000
''', 'a definitions section cut in the middle of a message header', 'opening fails'),
 'k-a07-recursion': ('A07', C, [("                except (IndexError, KeyError, struct.error, RecursionError):\n", "                except (IndexError, KeyError, struct.error):\n")], TOPIC + r'''
u = parse(topic(defs=fmt('r:uint64_t timestamp;r n;'), extra=add(4, 'r') + data(0, u64(9000) + f32(1))))
assert u.file_corruption and len(u.get_dataset('t').data['x']) == 4
''', 'a format that contains itself', 'opening fails'),
 'k-a08-last-bytes': ('A10', C, [("        while len(chunk) >= len(ULog.SYNC_BYTES):\n", "        while len(chunk) > len(ULog.SYNC_BYTES):\n")], TOPIC + r'''
import random
raw = topic(extra=msg('Z', sync()[3:]) + data(0, u64(9000) + f32(1)))
u = parse(raw)
assert u.file_corruption and len(u.get_dataset('t').data['x']) == 4, (u.file_corruption, len(u.get_dataset('t').data['x']))
''', 'a message of unknown type that is exactly a synchronisation sequence', 'it is not recognised'),
 'k-a10-size-limit': ('A10', C, [("header.msg_size > 10000:\n", "header.msg_size > 1000:\n")], TOPIC + r'''
raw = topic(extra=msg('Z', b'q' * 1500) + data(0, u64(9000) + f32(1)))
u = parse(raw)
assert not u.file_corruption and len(u.get_dataset('t').data['x']) == 4
''', 'a message of a new type with 1500 bytes', 'it counts as corruption'),
 'k-a11-flag-order': ('A11', C, [("                    for i in range(1, 8):\n                        if self._incompat_flags[i]:\n", "                    for i in range(1, 7):\n                        if self._incompat_flags[i]:\n")], TOPIC + r'''
try:
    parse(head() + flags(incompat=[0] * 7 + [1]))
except (ValueError, NotImplementedError):
    pass
else:
    raise AssertionError('accepted')
''', 'an unknown flag in the last byte', 'the log is accepted'),
 'k-a12-reused-id': ('A12', C, [("                        previous = self._subscriptions.pop(msg_add_logged.msg_id, None)\n                        if previous is not None: # the message id is used again\n                            self._add_data(previous)\n                        if (message_name_filter_list is None or\n                                msg_add_logged.message_name in message_name_filter_list):\n", "                        if (message_name_filter_list is None or\n                                msg_add_logged.message_name in message_name_filter_list):\n                            previous = self._subscriptions.pop(msg_add_logged.msg_id, None)\n                            if previous is not None: # the message id is used again\n                                self._add_data(previous)\n")], TOPIC + r'''
raw = topic(defs=fmt('o:uint64_t timestamp;float x;'), extra=add(0, 'o') + data(0, u64(9000) + f32(7)))
u = parse(raw, ['t'])
assert list(u.get_dataset('t').data['x']) == [0, 1, 2], u.get_dataset('t').data
''', 'a message id that is used again for a topic that was not asked for', 'its data is added to the topic before'),
 'k-a13-too-long': ('A13', C, [("                if data_size < min_data_size or data_size > subscription.max_data_size:\n", "                if data_size < min_data_size:\n")], TOPIC + r'''
u = parse(topic(extra=data(0, u64(9000) + f32(1) + b'zz')))
assert len(u.get_dataset('t').data['x']) == 3 and u.file_corruption
''', 'data longer than its format', 'it is accepted'),
 'k-a14-id-order': ('A13', C, [("        self.data_list.sort(key=lambda ds: (ds.name, ds.multi_id))\n", "        self.data_list.sort(key=lambda ds: (ds.name, str(ds.multi_id)))\n")], TOPIC + r'''
u = parse(topic(adds=add(0, 't') + add(1, 't', 2) + add(2, 't', 10), extra=data(1, u64(5) + f32(1)) + data(2, u64(5) + f32(1))))
assert [d.multi_id for d in u.data_list] == [0, 2, 10], [d.multi_id for d in u.data_list]
''', 'ten or more instances', 'they are in another order'),
 'k-a17-file-filter': ('A17', C, [("            if parse_header_only:\n                return\n", "            if parse_header_only:\n                self._read_file_data([], read_until=self._file_handle.tell() + 64)\n                return\n")], TOPIC + r'''
u = parse(topic(n=0, adds=b'', extra=log('6', 5, 'hi')), None, True, True)
assert not u.logged_messages
''', 'a message directly behind the definitions', 'it is read with the header'),
 'k-b01-third-default': ('B01', C, [("            bitfield = 1 << bit\n", "            bitfield = bit + 1\n")], TOPIC + r'''
u = parse(topic(defs=default(4, 'int32_t a', i32(3))))
v = parse(write(u))
assert v._default_parameters == u._default_parameters, v._default_parameters
''', 'a default of the third type', 'it is written as a default of the first and second'),
 'k-b01-char-info': ('B01', C, [("        if value_type.startswith('char['):\n            value_bytes", "        if value_type.startswith('char'):\n            value_bytes")], TOPIC + r'''
u = parse(topic(defs=info('char c', b'a')))
v = parse(write(u))
assert v.msg_info_dict == u.msg_info_dict
''', 'an information that is a single character', 'writing fails'),
 'k-b02-float-key': ('B02', C, [("        items.sort(key=lambda x: x[0])\n", "        items.sort(key=lambda x: float(x[0]))\n")], TOPIC + r'''
b = 1 << 60
u = parse(topic(rows=[u64(b + 3) + f32(1)], extra=log('6', b + 1, 'a')))
raw = write(u)
assert raw.index(struct.pack('<Q', b + 1)) < raw.index(struct.pack('<Q', b + 3))
''', 'times that differ by less than a double can tell', 'they are not in order'),
 'k-b04-sorted-messages': ('B04', C, [("        message_items = []\n\n        for message in self._logged_messages:\n", "        message_items = []\n\n        self._logged_messages.sort(key=lambda m: m.timestamp)\n        for message in self._logged_messages:\n")], TOPIC + r'''
u = parse(topic(extra=log('6', 9, 'b') + log('6', 5, 'a')))
write(u)
assert [m.message for m in u.logged_messages] == ['b', 'a']
''', 'messages out of order', 'writing reorders them in the log object'),
 'k-b05-longer-file': ('B05', C, [("            handle = open(log_file, \"wb\")\n", "            handle = open(log_file, \"ab\")\n            handle.seek(0)\n            handle.truncate(0) if handle.tell() else None\n")], TOPIC + r'''
import tempfile, shutil
from pyulog import ULog
d = tempfile.mkdtemp()
try:
    u = parse(topic())
    with open(d + '/a.ulg', 'wb') as f:
        f.write(b'old' * 500)
    u.write_ulog(d + '/a.ulg')
    assert ULog(d + '/a.ulg') == u
finally:
    shutil.rmtree(d)
''', 'a file that is there already', 'the log is added behind it'),
 'k-b07-difference': ('B07', C, [("            indices = np.where(x[:-1] != x[1:])[0] + 1\n", "            indices = np.where(np.diff(x.astype(np.float32)) != 0)[0] + 1\n")], TOPIC + r'''
raw = topic(fields='int32_t v;', rows=[u64(5) + i32(16777216), u64(6) + i32(16777217)])
c = parse(raw).get_dataset('t').list_value_changes('v')
assert len(c) == 2, c
''', 'large numbers that differ by one', 'the change is not listed'),
 'k-b08-beta-border': ('B08', C, [("            elif version[3] < 192: type_str = ' (beta)'\n", "            elif version[3] <= 192: type_str = ' (beta)'\n")], TOPIC + r'''
u = parse(topic(defs=info('uint32_t ver_sw_release', struct.pack('<I', 0x010203c0))))
assert u.get_version_info_str() == 'v1.2.3 (RC)', u.get_version_info_str()
''', 'the first release candidate type', 'it is called beta'),
 'k-c01-param-round': ('C01', D, [("                    timestamp,\n                    key,\n                    value,\n                    primary_key,\n                ) for timestamp, key, value in self.changed_parameters])", "                    timestamp,\n                    key,\n                    value if isinstance(value, int) else round(value, 6),\n                    primary_key,\n                ) for timestamp, key, value in self.changed_parameters])")], DB + r'''
a, b, p, h = back(topic(extra=param('float a', f32(1e-9))))
assert b.changed_parameters == a.changed_parameters, b.changed_parameters
''', 'a change to a very small value', 'it is stored as zero'),
 'k-c01-first-list': ('C01', D, [("                for list_index, message_list in enumerate(lists):\n", "                for list_index, message_list in enumerate(lists):\n                    if message_list in lists[:list_index]:\n                        continue\n")], DB + r'''
a, b, p, h = back(topic(defs=multi('char[1] k', b'a', 0) * 2))
assert b.msg_info_multiple_dict == a.msg_info_multiple_dict, b.msg_info_multiple_dict
''', 'the same message twice', 'one of them is not stored'),
 'k-c01-compat-zero': ('C01', D, [("            self._compat_flags = [ord(c) for c in ulog_result[3]]\n", "            self._compat_flags = [ord(c) & 0x7f for c in ulog_result[3]]\n")], DB + r'''
a, b, p, h = back(head() + flags([0xff]) + fmt('t:uint64_t timestamp;float x;') + add(0, 't') + data(0, u64(5) + f32(1)))
assert b == a, b._compat_flags
''', 'a flag in the top bit', 'it is lost'),
 'k-c03-format': ('C03', D, [("            cur.execute('''\n                SELECT Id, TimestampIndex, MessageId\n                FROM ULogDataset\n                WHERE DatasetName = ? AND MultiId = ? AND ULogId = ?\n                ''', (name, multi_instance, self._pk))", "            cur.execute(f'''\n                SELECT Id, TimestampIndex, MessageId\n                FROM ULogDataset\n                WHERE DatasetName = ? AND MultiId = {multi_instance} AND ULogId = ?\n                ''', (name, self._pk))")], DB + r'''
a, b, p, h = back(topic(), lazy=True)
try:
    b.get_dataset('t', '9 OR 1=1 OR 0', caching=False)
except KeyError:
    pass
else:
    raise AssertionError('found')
''', 'an instance that is not a number', 'it becomes part of the statement'),
 'k-c04-known-early': ('C04', D, [("            primary_key = cur.lastrowid\n\n            # appended_offsets", "            primary_key = self._pk = cur.lastrowid\n\n            # appended_offsets")], DB + r'''
path, h = new_db()
a = DatabaseULog(h, log_file=file_of(topic()))
a._initial_parameters['x'] = object()
try:
    a.save()
except Exception:
    pass
assert a.primary_key is None, a.primary_key
''', 'a save that fails midway', 'the log counts as saved'),
 'k-c06-instances': ('C06', D, [("                FROM ULogDataset\n                WHERE DatasetName = ? AND MultiId = ? AND ULogId = ?\n                ''', (name, multi_instance, self._pk))", "                FROM ULogDataset\n                WHERE DatasetName LIKE ? AND MultiId = ? AND ULogId = ?\n                ''', (name, multi_instance, self._pk))")], DB + r'''
raw = topic(adds=add(0, 't') + add(1, 'T'), defs=fmt('T:uint64_t timestamp;float x;'), extra=data(1, u64(7) + f32(99)))
a, b, p, h = back(raw)
assert [d.data['x'][0] for d in b.data_list] == [99, 0], [d.data['x'] for d in b.data_list]
''', 'topics whose names differ in case only', 'the samples of one are given for the other'),
 'k-c07-from-here': ('C07', D, [("            open_file.seek(0)\n            while True:\n", "            open_file.seek(0, 0 if position < 16 else 1)\n            while True:\n")], DB + r'''
import hashlib
raw = topic()
f = io.BytesIO(raw)
f.seek(20)
assert DatabaseULog.calc_sha256sum(f) == hashlib.sha256(raw).hexdigest()
''', 'an open file that was read in part', 'the digest is that of the rest'),
 'k-c10-json-inf': ('C10', D, [(".replace('nan', 'null').replace('-inf', 'null').replace(\n                            'inf', 'null')", ".replace('nan', 'null').replace('inf', 'null')")], DB + r'''
a, b, p, h = back(topic(payload=lambda i: u64(2000 + i) + f32(float('-inf'))), append_json=True)
assert query(p, "SELECT json_extract(ValueJson, '$.2000') FROM ULogField WHERE TopicName='x'") == [(None,)]
''', 'a sample that is minus infinity', 'saving fails'),
 'k-d02-version-behind': ('D02', M, [("    migration_lines = migration_lines.strip()[:-len('COMMIT;')]\n    migration_lines += f'PRAGMA user_version = {migration_id};\\nCOMMIT;'\n", "    migration_lines += f'\\nPRAGMA user_version = {migration_id};'\n")], PRE + r'''
import sqlite3 as s
real = s.connect


class Stop(Exception):
    pass


from pyulog import migrate_db as mod
name, lines = mod._read_migration_file(1, os.path.join(os.path.dirname(mod.__file__), 'sql'))
assert lines.strip().endswith('COMMIT;'), lines[-60:]
''', 'a crash between the changes and the new version', 'the migration is done again'),
 'k-e01-nested-text': ('E01', pf('ulog2csv'), [('    array_pattern = re.compile(r"(.*)\\[(.*?)\\]")\n', '    array_pattern = re.compile(r"(\\w*)\\[(.*?)\\]")\n')], TOPIC + CSV + r'''
raw = topic(fields='s n;', defs=fmt('s:char[2] c;float v;'), rows=[u64(5) + b'ab' + f32(1)])
o, f, e = ok(run_tool('ulog2csv', ['LOG'], raw))
assert csv_of(f).split('\n')[0] == 'timestamp,n.c,n.v', csv_of(f)
''', 'a text within a nested type', 'its characters get columns of their own'),
 'k-e01-name-dots': ('E01', pf('ulog2csv'), [("    if output_file_prefix.lower().endswith('.ulg'):\n        output_file_prefix = output_file_prefix[:-4]\n\n    # write", "    if output_file_prefix.lower().endswith('.ulg'):\n        output_file_prefix = output_file_prefix.replace('.ulg', '')[:] if \\\n            output_file_prefix.endswith('.ulg') else output_file_prefix[:-4]\n\n    # write")], TOPIC + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG'], topic(), name='a.ulg.b.ulg'))
assert 'a.ulg.b_t_0.csv' in f, list(f)
''', 'a log whose name has the extension twice', 'the files have another name'),
 'k-e01-same-file': ('E01', pf('ulog2csv'), [("        output_file_name = f'{output_file_prefix}_{name_without_slash}_{d.multi_id}.csv'\n", "        output_file_name = f'{output_file_prefix}_{name_without_slash}_{d.multi_id % 4}.csv'\n")], TOPIC + r'''
raw = topic(adds=add(0, 't') + add(1, 't', 4), extra=data(1, u64(5) + f32(1)))
o, f, e = ok(run_tool('ulog2csv', ['LOG'], raw))
assert sum(k.endswith('.csv') for k in f) == 2, list(f)
''', 'five instances of a topic', 'one file is written over another'),
 'k-e02-whole-seconds': ('E02', pf('ulog2csv'), [("np.where(d.data['timestamp'] >= time_s * 1e6)", "np.where(d.data['timestamp'] // 1000000 >= time_s)")], TOPIC + CSV + r'''
raw = topic(rows=[u64(1500000) + f32(1), u64(1700000) + f32(2), u64(2100000) + f32(3)])
import tempfile, shutil, contextlib
from pyulog.ulog2csv import convert_ulog2csv
d = tempfile.mkdtemp()
try:
    open(d + '/a.ulg', 'wb').write(raw)
    with contextlib.redirect_stdout(io.StringIO()):
        convert_ulog2csv(d + '/a.ulg', None, None, ',', 1.6, None)
    t = open(d + '/a_t_0.csv').read()
finally:
    shutil.rmtree(d)
assert len(t.split()) == 3, t
''', 'a start within a second', 'more is left out'),
 'k-e03-t-delimiter': ('E03', pf('params'), [('                output_file.write("timestamp")\n                output_file.write(delimiter)\n', '                output_file.write("timestamp")\n                output_file.write(\',\')\n')], TOPIC + r'''
o, f, e = ok(run_tool('params', ['LOG', '-t', '-l', ';'], topic(defs=param('int32_t p', i32(1)))))
assert 'timestamp;0' in o, o
''', 'times with another delimiter', 'a comma is written'),
 'k-e03-changed-int': ('E03', pf('params'), [("                        if name == param_key:\n                            output_file.write(delimiter)\n                            output_file.write(str(value))\n                output_file.write('\\n')\n", "                        if name == param_key and value != params[param_key]:\n                            output_file.write(delimiter)\n                            output_file.write(str(value))\n                output_file.write('\\n')\n")], TOPIC + r'''
o, f, e = ok(run_tool('params', ['LOG'], topic(defs=param('int32_t p', i32(1)), extra=param('int32_t p', i32(2)) + param('int32_t p', i32(1)))))
assert 'p,1,2,1' in o, o
''', 'a parameter that is changed back', 'the change back is missing'),
 'k-e03-qgc-type': ('E03', pf('params'), [("            if isinstance(param_value, float):\n", "            if isinstance(param_value, float) and not param_value.is_integer():\n")], TOPIC + r'''
o, f, e = ok(run_tool('params', ['LOG', '-f', 'qgc'], topic(defs=param('float p', f32(2)))))
assert o.strip().split('\t')[-1] == '9', o
''', 'a float that is a whole number', 'its type is integer'),
 'k-e04-hex': ('E04', pf('info'), [("' '.join('{:02x}'.format(x) for x in item)", "' '.join('{:2x}'.format(x) for x in item)")], TOPIC + r'''
o, f, e = ok(run_tool('info', ['LOG', '-m', 'k'], topic(defs=multi('uint8_t[2] k', b'\x01\xff', 0))))
assert '01 ff' in o, o
''', 'a small byte', 'it has one digit'),
 'k-e04-dropout-seconds': ('E04', pf('info'), [("sum(dropout_durations)/1000.,\n", "sum(d // 100 for d in dropout_durations)/10.,\n")], TOPIC + r'''
o, f, e = ok(run_tool('info', ['LOG'], topic(extra=dropout(60) * 20)))
assert '1.2 s' in o, o
''', 'many short dropouts', 'their total is zero'),
 'k-e05-vendor': ('E05', pf('messages'), [("    if ulog.msg_info_dict.get('sys_name', '') == 'PX4':\n", "    if ulog.msg_info_dict.get('sys_name', '').startswith('PX4'):\n")], PX4M + r'''
raw = head() + flags() + info('char[5] sys_name', b'PX4XY') + fmt('t:uint64_t timestamp;float x;') + add(0, 't') + log('6', 5, 'hi\t')
o, f, e = ok(run_tool('messages', ['LOG'], raw, mods=mods()))
assert 'hi' in o, o
''', 'another system whose name starts the same way', 'messages that end with a tab are left out'),
 'k-e06-level-seven': ('E06', pf('px4_events'), [("                log_level = (events.data['log_levels'][event_idx] >> 4) & 0xf\n", "                log_level = (events.data['log_levels'][event_idx] >> 4) & 0x7\n")], PX4M + r'''
p = with_events()
p.set_default_json_definitions_cb(lambda b: {})
u = parse(topic(fields=EVF, name='event', rows=[event(5, 1, 0x87), event(6, 2, 0x60)]))
assert [m[0] for m in p.get_logged_events(u)] == [6], p.get_logged_events(u)
''', 'an event that is not to be shown', 'it is shown'),
 'k-e06-two-parts': ('E06', pf('px4_events'), [("json.loads(lzma.decompress(b''.join(events_metadata)))", "json.loads(lzma.decompress(b''.join(events_metadata[:2])))")], PX4M + r'''
import json, lzma
p = with_events()
p.set_default_json_definitions_cb(lambda b: None)
z = lzma.compress(json.dumps({'x': 1}).encode())
k = [z[:20], z[20:40], z[40:]]
raw = topic(fields=EVF, name='event', rows=[event(5, 1, 0x60)], defs=info('char[2] metadata_events_sha256', b'ab') +
            b''.join(multi('uint8_t[%d] metadata_events' % len(x), x, int(i > 0)) for i, x in enumerate(k)))
assert p.get_logged_events(parse(raw))[0][2].startswith('event 1'), p.get_logged_events(parse(raw))
''', 'definitions in three parts', 'they are not understood'),
 'k-e07-sixty-four': ('E07', pf('extract_gps_dump'), [("                    for k in range(msg_len):\n", "                    for k in range(min(msg_len, 64)):\n")], TOPIC + r'''
raw = topic(name='gps_dump', fields='uint8_t instance;uint8_t len;uint8_t[79] data;', rows=[u64(5) + bytes([0, 79]) + bytes(range(79))])
o, f, e = run_tool('extract_gps_dump', ['LOG'], raw)
assert [v for k, v in f.items() if 'from_device' in k] == [bytes(range(79))], f
''', 'a message with more than 64 bytes', 'it is cut off'),
 'k-e08-zero-longitude': ('E08', pf('ulog2kml'), [("        if (cur_t - last_t)/1e6 > minimum_interval_s: # assume timestamp is in [us]\n", "        if (cur_t - last_t)/1e6 > minimum_interval_s and pos_lon[i] != 0: # timestamp is in [us]\n")], KML + r'''
raw = topic(name='vehicle_gps_position', fields=GPSF, rows=[gps(1000000 + i * 200000, i - 1, 5, 5) for i in range(3)])
l, p, c, n = kml_of(raw)
assert len(l[0]) == 3, l
''', 'a position on the meridian', 'it is missing'),
 'k-e08-camera-altitude': ('E08', pf('ulog2kml'), [("        for i in range(len(pos_lon)):\n            pnt = kml.newpoint", "        for i in np.unique(sequence, return_index=True)[1]:\n            pnt = kml.newpoint"), ("import argparse\n", "import argparse\nimport numpy as np\n")], KML + r'''
raw = (head() + flags() + fmt('vehicle_gps_position:uint64_t timestamp;' + GPSF) + fmt('camera_capture:uint64_t timestamp;uint32_t seq;double lat;double lon;float alt;') +
       add(0, 'vehicle_gps_position') + add(1, 'camera_capture') + data(0, gps(1000000, 1, 1, 1)) +
       b''.join(data(1, u64(1000000 + i) + struct.pack('<Iddf', s, 1, 2 + i, 3)) for i, s in enumerate([5, 5, 6])))
l, p, c, n = kml_of(raw, camera_trigger_topic_name='camera_capture')
assert len(p) == 3, p
''', 'a sequence number that is used again', 'a picture is missing'),
 'k-e09-float-time': ('E09', pf('ulog2ros2bag'), [("            ts = ulg_topic.data[\"timestamp\"][i] * 1000  # us -> ns\n", "            ts = float(ulg_topic.data[\"timestamp\"][i]) * 1000  # us -> ns\n")], BAG + r'''
raw = topic(name='thing', fields='int32_t v;', rows=[u64(10 ** 15 + 1) + i32(7)])
t, r = bag_of(raw, {'Thing': {'timestamp': ('uint64', 0), 'v': ('int32', 0)}})
assert r[0][2] == 10 ** 18 + 1000, r
''', 'a large time', 'it is rounded'),
 'k-e09-one-instance': ('E09', pf('ulog2ros2bag'), [("        if multiids[ulg_topic.name] == {0}:\n            ros2_topic", "        if len(multiids[ulg_topic.name]) == 1:\n            ros2_topic")], BAG + r'''
raw = topic(name='thing', fields='int32_t v;', adds=add(0, 'thing', 1), rows=[u64(5) + i32(7)])
t, r = bag_of(raw, {'Thing': {'timestamp': ('uint64', 0), 'v': ('int32', 0)}})
assert r[0][0] == '/px4/thing_1', r
''', 'a topic with the second instance only', 'it has the name of the first'),
 'k-e09-bool-one': ('E09', pf('ulog2ros2bag'), [("        return bool(value)\n", "        return value == 1\n")], BAG + r'''
raw = topic(name='thing', fields='bool v;', rows=[u64(5) + b'\x02'])
t, r = bag_of(raw, {'Thing': {'timestamp': ('uint64', 0), 'v': ('boolean', False)}})
assert r[0][1]['v'], r
''', 'a bool that is stored as two', 'it is false'),
 'k-e10-suffix': ('E10', pf('px4'), [("        for message in messages:\n            if message.endswith(':_d'):\n                suffix = '_d'\n                message = message[:-3]\n            else:\n                suffix = ''\n", "        suffix = ''\n        for message in messages:\n            if message.endswith(':_d'):\n                suffix = '_d'\n                message = message[:-3]\n")], TOPIC + r'''
from pyulog.px4 import PX4ULog
q = 'float[4] q;float[4] q_d;'
u = parse(topic(fields=q, rows=[u64(5) + f32(1) + f32(0) * 3 + f32(1) + f32(0) * 3]) )
PX4ULog(u).add_roll_pitch_yaw(['none:_d', 't'])
assert 'roll' in u.get_dataset('t').data, list(u.get_dataset('t').data)
''', 'a plain message behind one with a suffix', 'the suffix is used for it, too'),
 'k-e11-title': ('E11', pf('px4'), [("                ret_val.append(key[7:].capitalize())\n", "                ret_val.append(key[7:].title())\n")], TOPIC + r'''
from pyulog.px4 import PX4ULog
u = parse(topic(defs=param('int32_t RC_MAP_MODE_SW', i32(5))))
assert PX4ULog(u).get_configured_rc_input_names(4) == ['Mode_sw']
''', 'a name with an underscore', 'it is written in another way'),
 'k-e15-window-zero': ('E15', pf('extract_message'), [("    data_keys.remove('timestamp')\n", "    data_keys = [k for k in data_keys if not k.startswith('_')] if len(data_keys) > 8 else data_keys\n    data_keys.remove('timestamp')\n")], TOPIC + r'''
import tempfile, shutil
from pyulog.extract_message import extract_message
d = tempfile.mkdtemp()
try:
    open(d + '/a.ulg', 'wb').write(topic(fields='uint8_t _a;' + ''.join('uint8_t f%d;' % i for i in range(8)), rows=[u64(5) + bytes(9)]))
    r = extract_message(d + '/a.ulg', 't')
finally:
    shutil.rmtree(d)
assert '_a' in r[0], r
''', 'a message with many fields, one of them with an underscore', 'the field is missing'),
 'k-e16-style': ('E16', pf('ulog2kml'), [("    default_style = {\n        'extrude': False,\n        'line_width': 3\n        }\n\n    used_style = default_style\n    if style is not None:\n", "    used_style = DEFAULT_STYLE\n    if style is not None:\n"), ("def convert_ulog2kml(", "DEFAULT_STYLE = {'extrude': False, 'line_width': 3}\n\n\ndef convert_ulog2kml(")], KML + r'''
import re
raw = topic(name='vehicle_gps_position', fields=GPSF, rows=[gps(1000000 + i * 200000, i, i, i) for i in range(3)])
from pyulog import ulog2kml
kml_of(raw, style={'extrude': True, 'line_width': 9})
import simplekml
seen = []
old = simplekml.Kml.save
simplekml.Kml.save = lambda self, p, *a, **k: (seen.append(self.kml()), old(self, p, *a, **k))[1]
kml_of(raw)
assert '<width>3' in seen[0], seen[0][-600:]
''', 'a conversion with a style before one without', 'the style is used again'),
}
