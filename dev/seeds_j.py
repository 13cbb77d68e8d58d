""" planted bugs, tenth round """
from seeds_e import TOPIC, PX4M, KML, BAG, pf
from seeds_c import DB
from seeds_d import PRE, M, Q
C = 'pyulog/core.py'
D = 'pyulog/db.py'
POS = "POS = 'double lat;double lon;float alt;'\ndef pos(t, *v):\n    return u64(t) + struct.pack('<ddf', *v)\n\n\n"
SEEDS = {
 'j-e01-latin': ('E01', pf('ulog2csv'), [("    return ULog.parse_string(s)\n", "    return ''.join(ULog.parse_string(s[i:i+1]) for i in range(len(s))) if False else s.decode('latin-1')\n")], TOPIC + r'''
w = 'äb'.encode()
o, f, e = ok(run_tool('ulog2csv', ['LOG'], topic(fields='char[4] s;', rows=[u64(2000) + w + b'\0' * (4 - len(w))])))
assert any('äb' in (v.decode() if isinstance(v, bytes) else v) for k, v in f.items() if k.endswith('.csv')), f
''', 'a text with a letter of more than one byte', 'it is written as other letters'),
 'j-e01-first-array': ('E01', pf('ulog2csv'), [("                string_array_sizes[field] = max(array_index + 1, string_array_sizes.get(field, 0))\n", "                string_array_sizes[field] = max(array_index, string_array_sizes.get(field, 1))\n")], TOPIC + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG'], topic(fields='char[4] s;', rows=[u64(2000) + b'abcd'])))
assert any('abcd' in (v.decode() if isinstance(v, bytes) else v) for k, v in f.items() if k.endswith('.csv')), f
''', 'a text that fills its array', 'the last character is missing'),
 'j-e13-messages-list': ('E13', pf('ulog2csv'), [("    msg_filter = messages.split(',') if messages else None\n", "    msg_filter = sorted(set(messages.split(',')[:16])) if messages else None\n")], TOPIC + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG', '-m', ','.join('x%d' % i for i in range(16)) + ',t'], topic()))
assert any(k.endswith('.csv') for k in f), f
''', 'more than 16 topics asked for', 'the others are left out'),
 'j-e03-late-param': ('E03', pf('params'), [("    if not args.initial: message_filter = None\n", "    if not args.initial and args.format != 'qgc': message_filter = None\n    if args.timestamps: message_filter = None\n    if args.format == 'octave': message_filter = []\n")], TOPIC + r'''
raw = topic(defs=param('int32_t p', i32(1)), extra=param('int32_t p', i32(2)))
o, f, e = ok(run_tool('params', ['LOG', '-f', 'octave'], raw))
assert '1 2' in o, o
''', 'parameters that change, in the octave format', 'the changes are missing'),
 'j-e03-timestamp-float': ('E03', pf('params'), [("                        output_file.write(str(t))\n", "                        output_file.write('{:g}'.format(t))\n")], TOPIC + r'''
raw = topic(defs=param('int32_t p', i32(1)), rows=[u64(123456789) + f32(1)], extra=param('int32_t p', i32(2)))
o, f, e = ok(run_tool('params', ['LOG', '-t'], raw))
assert '123456789' in o, o
''', 'a change at a time of more than six digits', 'the time is rounded'),
 'j-e03-system-fallback': ('E03', pf('params'), [("    if default == 'current_setup': return ulog.get_default_parameters(1)\n", "    if default == 'current_setup':\n        return {**ulog.get_default_parameters(0), **ulog.get_default_parameters(1)}\n")], TOPIC + r'''
raw = topic(defs=default(1, 'int32_t a', i32(1)) + default(2, 'int32_t b', i32(2)))
o, f, e = ok(run_tool('params', ['LOG', '-d', 'current_setup'], raw))
assert 'a' not in o.split(',')[0] and 'b' in o, o
''', 'a system default without a default of the setup', 'it is listed as a default of the setup'),
 'j-e03-open-late': ('E03', pf('params'), [("    param_keys = sorted(params.keys())\n", "    param_keys = sorted(k for k in params.keys() if not k.startswith('_'))\n")], TOPIC + r'''
o, f, e = ok(run_tool('params', ['LOG'], topic(defs=param('int32_t _HASH', i32(1)))))
assert '_HASH' in o, o
''', 'a parameter whose name starts with an underscore', 'it is missing'),
 'j-e04-instances': ('E04', pf('info'), [("        message_size = sum(ULog.get_field_size(f.type_str) for f in d.field_data)\n", "        message_size = sum(d.data[f.field_name].itemsize for f in d.field_data)\n        message_size = sum(ULog.get_field_size(f.type_str) for f in d.field_data\n                           if not f.field_name.startswith('_padding'))\n")], TOPIC + r'''
raw = topic(fields='float x;uint8_t[4] _padding0;float y;', rows=[u64(5) + f32(1) + b'\0' * 4 + f32(1)])
o, f, e = ok(run_tool('info', ['LOG'], raw))
assert '20' in o.split('\n')[-2] or '(0, 20)' in o, o
''', 'a topic with padding inside', 'its size is smaller'),
 'j-e04-len-list': ('E04', pf('info'), [("                \", \".join([\"[{}: {}]\".format(k, len(ulog.msg_info_multiple_dict[k])) for k in\n", "                \", \".join([\"[{}: {}]\".format(k, sum(map(len, ulog.msg_info_multiple_dict[k]))) for k in\n")], TOPIC + r'''
raw = topic(defs=multi('char[1] k', b'a', 0) + multi('char[1] k', b'b', 1))
o, f, e = ok(run_tool('info', ['LOG'], raw))
assert '[k: 1]' in o, o
''', 'a message in several parts', 'the parts are counted'),
 'j-e05-days': ('E05', pf('messages'), [("        m1, s1 = divmod(int(t/1e6), 60)\n", "        m1, s1 = divmod(int(np.float32(t)/1e6), 60)\n"), ("import argparse\n", "import argparse\nimport numpy as np\n")], TOPIC + r'''
o, f, e = ok(run_tool('messages', ['LOG'], topic(extra=log('6', 59999999, 'hi')), mods={'pyulog.px4_events': stub('pyulog.px4_events', PX4Events=None)}))
assert '0:00:59' in o, o
''', 'a time close to a full minute', 'it is rounded up'),
 'j-e05-dup': ('E05', pf('messages'), [("            events.append((t, log_level, message))\n", "            if (t, log_level, message) not in events:\n                events.append((t, log_level, message))\n")], PX4M + r'''
raw = head() + flags() + info('char[8] sys_name', b'PX4\0\0\0\0\0'[:3] + b'\0' * 0 if False else b'PX4', ) if False else None
raw = head() + flags() + info('char[3] sys_name', b'PX4') + fmt('t:uint64_t timestamp;float x;') + add(0, 't') + log('6', 5, 'hi') * 2
o, f, e = ok(run_tool('messages', ['LOG'], raw, mods=mods()))
assert o.count('hi') == 2, o
''', 'the same message twice at one time', 'it is shown once'),
 'j-e05-version': ('E05', pf('messages'), [("    if ulog.msg_info_dict.get('sys_name', '') == 'PX4':\n", "    if ulog.msg_info_dict.get('sys_name', 'PX4') == 'PX4':\n")], PX4M + r'''
raw = head() + flags() + fmt('t:uint64_t timestamp;float x;') + add(0, 't') + log('6', 5, 'hi\t')
o, f, e = ok(run_tool('messages', ['LOG'], raw, mods=mods()))
assert 'hi' in o, o
''', 'a log without the name of its system', 'messages that end with a tab are missing'),
 'j-e06-levels': ('E06', pf('px4_events'), [("                log_level = (events.data['log_levels'][event_idx] >> 4) & 0xf\n", "                log_level = (events.data['log_levels'][event_idx] >> 4) & 0x7\n")], PX4M + r'''
raw = head() + flags() + fmt('event:uint64_t timestamp;' + EVF) + add(0, 'event') + data(0, event(5, 3, 0x94))
p = with_events()
p.set_default_json_definitions_cb(lambda x: {})
assert p.get_logged_events(parse(raw)) == []
''', 'an event that is disabled for users', 'it is listed'),
 'j-e06-first-log': ('E06', pf('px4_events'), [("                parser.set_profile(self._events_profile)\n                return parser\n", "                parser.set_profile(self._events_profile)\n                self._default_parser = parser\n                return parser\n")], PX4M + r'''
import lzma, json
def meta(n):
    b = lzma.compress(json.dumps({'n': n}).encode())
    return info('char[4] metadata_events_sha256', b'abcd') + multi('uint8_t[%d] metadata_events' % len(b), b, 0)


def evlog(defs):
    return head() + flags() + fmt('event:uint64_t timestamp;' + EVF) + defs + add(0, 'event') + data(0, event(5, 3, 0x44))


p = with_events()
p.set_default_json_definitions_cb(lambda have: None if have else {'n': 0})
used = []
Parser.parse = lambda self, i, a: used.append(self.defs) or Ev(i, a)
p.get_logged_events(parse(evlog(meta(7))))
p.get_logged_events(parse(evlog(b'')))
assert used == [{'n': 7}, {'n': 0}], used
''', 'a log with definitions, then one without', 'the second uses those of the first'),
 'j-e06-null-id': ('E06', pf('px4_events'), [("                    if event.group() == \"default\":\n", "                    if event.group() == \"default\" and event.message():\n")], PX4M + r'''
raw = head() + flags() + fmt('event:uint64_t timestamp;' + EVF) + add(0, 'event') + data(0, event(5, 3, 0x44))
p = with_events()
p.set_default_json_definitions_cb(lambda x: {})
Ev.message = lambda self: ''
assert len(p.get_logged_events(parse(raw))) == 1
''', 'an event with an empty text', 'it is missing'),
 'j-e07-cap': ('E07', pf('extract_gps_dump'), [("                    for k in range(msg_len):\n", "                    for k in range(min(msg_len, 64)):\n")], TOPIC + r'''
F = 'uint8_t len;' + 'uint8_t[79] data;'
o, f, e = ok(run_tool('extract_gps_dump', ['LOG'], topic(name='gps_dump', fields=F, rows=[u64(5) + bytes([70]) + bytes(range(79))])))
assert any(len(v) == 70 for k, v in f.items() if k.endswith('.dat')), f
''', 'a message of more than 64 bytes', 'its end is missing'),
 'j-e07-zero-stop': ('E07', pf('extract_gps_dump'), [("                instance = instances[i]\n                msg_len = msg_lens[i]\n", "                instance = instances[i]\n                msg_len = msg_lens[i]\n                if msg_len == 0:\n                    break\n")], TOPIC + r'''
F = 'uint8_t len;' + 'uint8_t[79] data;'
row = lambda n: u64(5) + bytes([n]) + bytes(range(79))
o, f, e = ok(run_tool('extract_gps_dump', ['LOG'], topic(name='gps_dump', fields=F, rows=[row(3), row(0), row(4)])))
assert any(len(v) == 7 for k, v in f.items() if k.endswith('.dat')), f
''', 'a message without bytes between others', 'the rest is left out'),
 'j-e08-fix-two': ('E08', pf('ulog2kml'), [("        indices = cur_dataset.data['fix_type'] > 2 # use only data with a fix\n", "        indices = cur_dataset.data['fix_type'] == 3 # use only data with a fix\n")], KML + r'''
lines, points, colours, names = kml_of(topic(name='p', fields=GPSF, rows=[gps(500000, 10000000, 20000000, 3000, 4)]), position_topic_name='p')
assert sum(len(l) for l in lines) == 1, lines
''', 'a position with a better kind of fix', 'it is missing'),
 'j-e08-offset-scaled': ('E08', pf('ulog2kml'), [("            pnt.coords = [(pos_lon[i], pos_lat[i], pos_alt[i] + altitude_offset)]\n", "            pnt.coords = [(pos_lon[i], pos_lat[i], pos_alt[i])]\n            pnt.altitudemode = simplekml.AltitudeMode.absolute if altitude_offset else simplekml.AltitudeMode.clamptoground\n")], KML + POS + r'''
raw = topic(name='c', fields='double lat;double lon;float alt;uint32_t seq;', rows=[u64(500000) + struct.pack('<ddfI', 1, 2, 3, 4)])
lines, points, colours, names = kml_of(raw, position_topic_name='c', camera_trigger_topic_name='c', altitude_offset=10)
assert points == [(2.0, 1.0, 13.0)], points
''', 'an altitude offset together with camera triggers', 'the triggers are not moved'),
 'j-e08-mode-late': ('E08', pf('ulog2kml'), [("            while current_flight_mode_idx < len(flight_mode_changes)-1 and \\\n", "            if current_flight_mode_idx < len(flight_mode_changes)-1 and \\\n")], KML + POS + r'''
S = fmt('vehicle_status:uint64_t timestamp;uint8_t nav_state;')
raw = topic(name='p', fields='double lat;double lon;float alt;', rows=[], defs=S, adds=add(0, 'p') + add(1, 'vehicle_status'),
            extra=data(1, u64(100000) + b'\1') + data(0, pos(500000, 1, 2, 3)) + data(1, u64(600000) + b'\2') + data(1, u64(700000) + b'\3') + data(0, pos(1500000, 4, 5, 6)) + data(1, u64(2700000) + b'\3'))
lines, points, colours, names = kml_of(raw, position_topic_name='p')
assert names[-1] == 'p:3', names
''', 'two changes of the mode between two positions', 'the track goes on in the wrong mode'),
 'j-e09-ms': ('E09', pf('ulog2ros2bag'), [('            ts = ulg_topic.data["timestamp"][i] * 1000  # us -> ns\n', '            ts = ulg_topic.data["timestamp"][i] * 1e3  # us -> ns\n')], BAG + r'''
t = 2 ** 53 // 1000 + 1000000000001
topics, rows = bag_of(topic(name='thing', rows=[u64(t) + i32(5)], fields='int32_t v;'), {'Thing': {'timestamp': ('uint64', 0), 'v': ('int32', 0)}}, '0.30.0')[:2]
assert rows[0][2] == t * 1000, rows
''', 'a large time', 'it is not exact'),
 'j-e09-digits': ('E09', pf('ulog2ros2bag'), [('        array_match = re.match(r"(.*?)\\[(\\d+)\\]", field.field_name)\n', '        array_match = re.match(r"(.*?)\\[(\\d)", field.field_name)\n')], BAG + r'''
topics, rows = bag_of(topic(name='thing', rows=[u64(5) + bytes(range(12))], fields='uint8_t[12] v;'), {'Thing': {'timestamp': ('uint64', 0), 'v': ('uint8[12]', [0] * 12)}}, '0.30.0')[:2]
assert rows[0][1]['v'] == list(range(12)), rows
''', 'an array of more than ten elements', 'elements overwrite others'),
 'j-e10-order': ('E10', pf('px4'), [("            q = [message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)]\n", "            q = np.array([message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)])\n            q = q / np.sqrt((q * q).sum(axis=0).max() or 1)\n")], TOPIC + r'''
import numpy as np
from pyulog.px4 import PX4ULog
u = parse(topic(name='vehicle_attitude', fields='float[4] q;', rows=[u64(5) + struct.pack('<4f', 0.5, 0.5, 0.1, 0.1), u64(6) + struct.pack('<4f', 2, 2, 0, 0)]))
PX4ULog(u).add_roll_pitch_yaw()
d = u.get_dataset('vehicle_attitude').data
q = [d['q[%d]' % i][0] for i in range(4)]
assert abs(d['roll'][0] - np.arctan2(2 * (q[0] * q[1] + q[2] * q[3]), 1 - 2 * (q[1] ** 2 + q[2] ** 2))) < 1e-6
''', 'quaternions of different lengths', 'the angles of a sample depend on the others'),
 'j-e10-wrap': ('E10', pf('px4'), [("            message_data.data['yaw'+field_name_suffix] = yaw\n", "            message_data.data['yaw'+field_name_suffix] = np.unwrap(yaw)\n")], TOPIC + r'''
import numpy as np
from pyulog.px4 import PX4ULog
def q(yaw):
    return struct.pack('<4f', np.cos(yaw / 2), 0, 0, np.sin(yaw / 2))


u = parse(topic(name='vehicle_attitude', fields='float[4] q;', rows=[u64(5) + q(3.1), u64(6) + q(3.2)]))
PX4ULog(u).add_roll_pitch_yaw()
assert (np.abs(u.get_dataset('vehicle_attitude').data['yaw']) <= np.pi + 1e-6).all()
''', 'a vehicle that turns through south', 'the yaw angle leaves its range'),
 'j-e11-float-channel': ('E11', pf('px4'), [("            if key.startswith('RC_MAP_') and param_val == channel + 1:\n", "            if key.startswith('RC_MAP') and param_val == channel + 1:\n")], TOPIC + r'''
from pyulog.px4 import PX4ULog
u = parse(topic(defs=param('int32_t RC_MAPPED_N', i32(1))))
assert PX4ULog(u).get_configured_rc_input_names(0) is None
''', 'a parameter with a similar name', 'it is listed as an input'),
 'j-e11-changed': ('E11', pf('px4'), [("        mav_type = self._ulog.initial_parameters.get('MAV_TYPE', None)\n        return {0: 'Generic',\n", "        mav_type = dict((k, v) for t, k, v in self._ulog.changed_parameters).get(\n            'MAV_TYPE', self._ulog.initial_parameters.get('MAV_TYPE', None))\n        return {0: 'Generic',\n")], TOPIC + r'''
from pyulog.px4 import PX4ULog
u = parse(topic(defs=param('int32_t MAV_TYPE', i32(2)), extra=param('int32_t MAV_TYPE', i32(1))))
assert PX4ULog(u).get_mav_type() == 'Quadrotor'
''', 'a type that is changed while logging', 'the later one is reported'),
 'j-c07-short': ('C07', D, [("                if block == b'':\n", "                if len(block) < 4096:\n")], DB + r'''
import hashlib
class Slow(io.BytesIO):
    name = 'x'
    def read(self, n=-1):
        return super().read(min(n, 100) if n > 0 else n)


raw = topic()
assert DatabaseULog.calc_sha256sum(Slow(raw)) == hashlib.sha256(raw).hexdigest()
''', 'a file that gives less than asked for', 'the digest covers only its beginning'),
 'j-c07-lower': ('C07', D, [("                ''', (sha256sum,))\n", "                ''', (sha256sum.upper() if sha256sum and sha256sum[0].isalpha() else sha256sum,))\n")], DB + r'''
for i in range(40):
    a, b, path, h = back(topic(n=i))
    assert DatabaseULog.primary_key_from_sha256sum(h, a.sha256sum) == a.primary_key
    os.unlink(path)
''', 'a digest that starts with a letter', 'the log is not found'),
 'j-c01-has-sync': ('C01', D, [("            self._has_sync = ulog_result[6]\n", "            self._has_sync = bool(ulog_result[5])\n")], DB + r'''
a, b, path, h = back(topic())
assert a.has_sync == b.has_sync, (a.has_sync, b.has_sync)
a, b, path, h = back(topic(sync()))
assert a.has_sync == b.has_sync
u = ULog(file_of(topic(sync())))
assert u._has_sync == a._has_sync
raw = topic(msg('S', b''))
u = DatabaseULog(h, log_file=file_of(raw, 'b.ulg'))
u.save()
v = DatabaseULog(h, primary_key=u.primary_key)
assert v.has_sync == u.has_sync, (v.has_sync, u.has_sync)
''', 'a log whose count of sync messages is zero', 'it counts as one without sync messages'),
 'j-c08-get-index': ('C08', D, [("                self._data_list.append(dataset)\n\n            # dropouts\n", "                if lazy or len(dataset.data):\n                    self._data_list.append(dataset)\n            self._data_list = list({d.name: d for d in self._data_list}.values()) if lazy else self._data_list\n\n            # dropouts\n")], DB + r'''
raw = topic(adds=add(0, 't') + add(1, 't', 1), extra=data(1, u64(9) + f32(1)))
a, b, path, h = back(raw, lazy=True)
assert len(b.data_list) == 2
''', 'a topic with two instances, read when needed', 'one is not listed'),
 'j-d03-digits': ('D03', pf('migrate_db'), [("    if db_schema_version == 0 and not force:\n", "    if not db_schema_version and not force and os.path.getsize(db_path):\n")], DB + r'''
path = os.path.join(TMP, 'e.sqlite3')
open(path, 'w').close()
try:
    with contextlib.redirect_stdout(io.StringIO()):
        migrate_db(path)
    raise SystemExit(1)
except FileExistsError:
    pass
''', 'an empty file as the database', 'it is migrated although it was not made by the tool'),

 'j-a18-dtype-cache': ('A18', C, [("            np_array = np.frombuffer(message_add_logged_obj.buffer,\n                                     dtype=message_add_logged_obj.dtype)\n", "            np_array = np.frombuffer(message_add_logged_obj.buffer,\n                                     dtype=ULog.Data._dtypes.setdefault(\n                                         (self.name, message_add_logged_obj.dtype.itemsize),\n                                         message_add_logged_obj.dtype))\n"),
    ('        \"\"\" contains the final topic data for a single topic and instance \"\"\"\n', '        \"\"\" contains the final topic data for a single topic and instance \"\"\"\n\n        _dtypes: dict = {} # creating them is slow\n')], TOPIC + r'''
assert parse(topic()).get_dataset('t').data['x'].dtype.kind == 'f'
u = parse(topic(fields='int32_t x;', rows=[u64(5) + i32(7)]))
assert u.get_dataset('t').data['x'].tolist() == [7]
''', 'a second log with another format of the same topic', 'its values are read in the format of the first'),
 'j-a14-cycle': ('A14', C, [("            message_format = message_formats[type_name]\n", "            message_format = message_formats[type_name]\n            if prefix_str.count('.') > 2:\n                return # too deep\n")], TOPIC + r'''
raw = head() + flags() + b''.join(fmt('%s:%s s;' % (a, b)) for a, b in ('AB', 'BC', 'CD')) + fmt('D:uint8_t v;') + fmt('t:uint64_t timestamp;A s;') + add(0, 't') + data(0, u64(5) + b'\7')
assert parse(raw).get_dataset('t').data['s.s.s.s.v'].tolist() == [7]
''', 'formats nested more than three levels deep', 'the inner fields are missing'),
 'j-a14-timestamp-suffix': ('A14', C, [("                    if prefix_str+field_name == 'timestamp':\n", "                    if field_name == 'timestamp':\n")], TOPIC + r'''
raw = head() + flags() + fmt('In:uint64_t timestamp;') + fmt('t:uint64_t timestamp;float y;In s;') + add(0, 't') + data(0, u64(5) + f32(1) + u64(9))
assert parse(raw).get_dataset('t').timestamp_idx == 0
''', 'a nested format with a time of its own', 'the index of the timestamp points to it'),
 'j-a13-offset': ('A05', C, [("                if field.field_name == 'timestamp':\n                    break\n", "                if field.field_name.endswith('timestamp'):\n                    break\n")], TOPIC + r'''
u = parse(topic(fields='', rows=[], defs=fmt('s:uint64_t hw_timestamp;uint64_t timestamp;'), adds=add(0, 's'), extra=data(0, u64(90000) + u64(5000))))
assert u.last_timestamp == 5000, u.last_timestamp
''', 'a field before the timestamp whose name ends the same way', 'the last time is that of the other field'),
 'j-a13-truncate': ('A13', C, [("                if data_size < min_data_size or data_size > subscription.max_data_size:\n", "                if data_size < min_data_size or data_size > min_data_size + 8:\n")], TOPIC + r'''
u = parse(topic(fields='float x;uint8_t[12] _padding0;', rows=[u64(5) + f32(1) + b'\0' * 12]))
assert len(u.get_dataset('t').data['x']) == 1
''', 'a topic with more than eight bytes of padding', 'its samples are dropped'),
 'j-a16-close': ('A17', C, [("            if parse_header_only:\n                return\n", "            if parse_header_only:\n                self._read_file_data([], read_until=self._file_handle.tell() + 4096)\n                return\n")], TOPIC + r'''
u = parse(topic(extra=log('6', 5, 'x')), parse_header_only=True)
assert u.logged_messages == [] and not u.dropouts
''', 'only the header of a log is read', 'messages of the data section are there'),
 'j-a09-order': ('A09', C, [("                for offset in self._appended_offsets:\n", "                for offset in [o for o in self._appended_offsets if o > self._file_handle.tell() + 64]:\n")], TOPIC + r'''
base = topic(pre=flags(incompat=[1], offsets=[0]))
for n in (0,):
    body = topic(pre=flags(incompat=[1], offsets=[len(base)]), rows=[])
    raw = body + log('6', 1, 'a') + msg('I', b'xx')[:4]
    off = len(raw)
    raw = topic(pre=flags(incompat=[1], offsets=[off]), rows=[]) + log('6', 1, 'a') + msg('I', b'xx')[:4]
    raw += data(0, u64(9000) + f32(1))
    u = parse(raw)
    assert u.get_dataset('t').data['timestamp'].tolist() == [9000]
''', 'data appended to a short log', 'the cut message before it swallows its beginning'),
 'j-a10-second-sync': ('A10', C, [("            # declare file corrupt if we skipped bytes to sync sequence\n            self._file_corrupt = True\n", "            # declare file corrupt if we skipped bytes to sync sequence\n            self._file_corrupt = True\n            self._has_sync = last_n_bytes == -1 or self._sync_seq_cnt > 0\n")], TOPIC + r'''
bad = msg('~', b'abc' + SYNC + b'de')
u = parse(topic(extra=bad + data(0, u64(9000) + f32(9)) + bad + data(0, u64(9001) + f32(9))))
assert u.get_dataset('t').data['timestamp'].tolist()[-1] == 9001
raw = topic(extra=msg('~', b'abc' + SYNC) + data(0, u64(9000) + f32(9)) + msg('\0', b'junk') + sync() + data(0, u64(9001) + f32(9)))
u = parse(raw)
assert u._has_sync and u.get_dataset('t').data['timestamp'].tolist()[-1] == 9001
''', 'sync sequences in damaged parts before the first sync message', 'later damage is not recovered from'),
 'j-b01-char-nested': ('B01', C, [("            data_set_length = len(data_set.data[data_set.field_data[0].field_name])\n", "            data_set_length = min(len(data_set.data[data_set.field_data[0].field_name]), 65535)\n")], TOPIC + r'''
u = parse(topic(rows=[u64(2000 + i) + f32(i) for i in range(65540)]))
assert len(parse(write(u)).get_dataset('t').data['x']) == 65540
''', 'more than 65535 samples of a topic', 'the rest is not written'),
 'j-b02-merge-stable': ('B02', C, [("        items.sort(key=lambda x: x[0])\n", "        items.sort(key=lambda x: (x[0], len(x[1])))\n")], TOPIC + r'''
raw = topic(extra=log('6', 2002, 'long one') + log('6', 2002, 'b'))
assert [m.message for m in parse(write(parse(raw))).logged_messages] == ['long one', 'b']
''', 'messages of the same time, the longer first', 'they change places'),
 'j-b02-skip-zero': ('B02', C, [("        for dropout in self._dropouts:\n            data = bytearray()\n", "        for dropout in self._dropouts:\n            if dropout.duration <= 0:\n                continue\n            data = bytearray()\n")], TOPIC + r'''
assert len(parse(write(parse(topic(extra=dropout(0) + dropout(3))))).dropouts) == 2
''', 'a dropout of zero length', 'it is not written'),
 'j-b03-offsets': ('B03', C, [("        imcompat_flags[0] = imcompat_flags[0] & 0xFE\n", "        if self._appended_offsets and self._appended_offsets[0] > 0:\n            imcompat_flags[0] = imcompat_flags[0] & 0xFE\n")], TOPIC + r'''
u = parse(topic(pre=flags(incompat=[1])))
assert not parse(write(u)).has_data_appended
''', 'the flag of appended data is set, but there is no offset', 'the written log still has it'),
 'j-b04-eq-getattr': ('B06', C, [("            self_value == getattr(other, field)\n            for field, self_value in self.__dict__.items()\n", "            self_value == getattr(other, field, self_value)\n            for field, self_value in self.__dict__.items()\n            if not field.startswith('_sync')\n")], TOPIC + r'''
a, b = parse(topic(sync())), parse(topic())
assert not a == b
''', 'logs that differ only in the number of sync messages', 'they are equal'),
 'j-b06-append-string': ('A13', C, [("            self.data = {}\n            for name in np_array.dtype.names:\n                self.data[name] = np_array[name]\n", "            self.data = {}\n            for name in np_array.dtype.names:\n                self.data[name.rstrip('_')] = np_array[name]\n")], TOPIC + r'''
assert 'x_' in parse(topic(fields='float x_;')).get_dataset('t').data
''', 'a field whose name ends with an underscore', 'it is stored under another name'),
 'j-b08-shift': ('B08', C, [("            return ((val >> 24) & 0xff, (val >> 16) & 0xff, (val >> 8) & 0xff, val & 0xff)\n", "            return (val >> 24, (val >> 16) & 0xff, (val >> 8) & 0xff, val & 0xff)\n")], TOPIC + r'''
u = parse(topic(defs=info('int32_t ver_sw_release', struct.pack('<I', 0x81020304))))
assert u.get_version_info()[0] == 0x81, u.get_version_info()
''', 'a version whose first byte is large, stored as a signed number', 'it is negative'),
 'j-b08-default-key': ('B08', C, [("        version = self.get_version_info(key_name)\n", "        version = self.get_version_info()\n")], TOPIC + r'''
u = parse(topic(defs=info('uint32_t ver_os', struct.pack('<I', 0x010203ff))))
assert u.get_version_info_str('ver_os') is not None if False else u.get_version_info_str('ver_os') == 'v1.2.3'
''', 'the version of something else than the software', 'it is not found'),
 'j-a05-start': ('A05', C, [("            self._last_timestamp = self._start_timestamp\n            self._read_file_definitions()\n", "            self._read_file_definitions()\n            self._last_timestamp = max(self._last_timestamp, self._start_timestamp & 0xffffffff)\n")], TOPIC + r'''
u = parse(topic(rows=[], start=1 << 33, extra=dropout(1)))
assert u.last_timestamp == 1 << 33
''', 'a start time that needs more than four bytes', 'the last time is smaller'),
 'j-a03-short-text': ('A03', C, [("                        if msg_log_tagged.tag in self._logged_messages_tagged:\n", "                        if self._logged_messages_tagged.get(msg_log_tagged.tag, [None])[-1] == msg_log_tagged:\n                            pass # repeated\n                        elif msg_log_tagged.tag in self._logged_messages_tagged:\n")], TOPIC + r'''
t = tagged('6', 3, 5, 'a')
assert len(parse(topic(extra=t + t)).logged_messages_tagged[3]) == 2
''', 'the same tagged message twice', 'one is left out'),
 'j-a12-data-filter': ('A12', C, [("                    if header.msg_type == self.MSG_TYPE_INFO:\n                        msg_info = self._MessageInfo(data, header)\n                        self._msg_info_dict[msg_info.key] = msg_info.value\n                        self._msg_info_dict_types[msg_info.key] = msg_info.type\n                    elif header.msg_type == self.MSG_TYPE_INFO_MULTIPLE:\n                        msg_info", "                    if message_name_filter_list == [] and header.msg_type == self.MSG_TYPE_DATA:\n                        continue\n                    if header.msg_type == self.MSG_TYPE_INFO:\n                        msg_info = self._MessageInfo(data, header)\n                        self._msg_info_dict[msg_info.key] = msg_info.value\n                        self._msg_info_dict_types[msg_info.key] = msg_info.type\n                    elif header.msg_type == self.MSG_TYPE_INFO_MULTIPLE:\n                        msg_info")], TOPIC + r'''
assert parse(topic(extra=data(7, u64(5))), []).file_corruption
''', 'an empty filter, a sample that nothing was subscribed for', 'the log is not marked as corrupt'),
 'j-c01-null-text': ('C01', D, [("            self._compat_flags = [ord(c) for c in ulog_result[3]]\n", "            self._compat_flags = [ord(c) for c in ulog_result[3].strip()] + [0] * (8 - len(ulog_result[3].strip()))\n")], DB + r'''
a, b, path, h = back(head() + flags(compat=[9, 0, 0, 0, 0, 0, 0, 0]) + fmt('t:uint64_t timestamp;float x;') + add(0, 't') + data(0, u64(5) + f32(1)))
assert a._compat_flags == b._compat_flags, b._compat_flags
''', 'a flags byte with the number of a space', 'it is lost'),
 'j-c01-tag-default': ('C01', D, [("                if tag not in self._logged_messages_tagged:\n                    self._logged_messages_tagged[tag] = []\n", "                tag = tag or 0\n                if tag not in self._logged_messages_tagged:\n                    self._logged_messages_tagged = {tag: []}\n")], DB + r'''
a, b, path, h = back(topic(tagged('6', 3, 5, 'a') + tagged('6', 4, 6, 'b')))
assert sorted(b.logged_messages_tagged) == [3, 4]
''', 'messages with two tags', 'those of one are lost'),
}
