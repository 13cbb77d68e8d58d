""" planted bugs, thirteenth round """
from seeds_e import TOPIC, PX4M, KML, BAG, pf
from seeds_c import DB
from seeds_d import PRE, M, Q
C = 'pyulog/core.py'
D = 'pyulog/db.py'
CSV = "def csv_of(f):\n    return [v.decode() if isinstance(v, bytes) else v for k, v in sorted(f.items()) if k.endswith('.csv')][0]\n\n\n"
SEEDS = {
 'm-e01-newline-text': ('E01', pf('ulog2csv'), [("        if character == 0:\n            break\n        s.append", "        if character in (0, 10):\n            break\n        s.append")], TOPIC + CSV + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG'], topic(fields='char[4] c;', rows=[u64(5) + b'a\nbc'])))
assert csv_of(f) == 'timestamp,c\n5,a\nbc\n', f
''', 'a text with a line break', 'it is cut there'),
 'm-e01-all-slashes': ('E01', pf('ulog2csv'), [("d.name.replace('/', '_')", "d.name.replace('/', '_', 1)")], TOPIC + r'''
raw = topic(name='t') .replace(b'xx', b'xx')
raw = head() + flags() + fmt('a/b/c:uint64_t timestamp;float x;') + add(0, 'a/b/c') + data(0, u64(5) + f32(1))
o, f, e = run_tool('ulog2csv', ['LOG'], raw)
assert e is None and any('a_b_c_0' in k for k in f), (e, f)
''', 'a topic with two slashes in its name', 'the file is not written'),
 'm-e01-char-number': ('E01', pf('ulog2csv'), [("            if result and f.type_str == 'char':", "            if result and f.type_str in ('char', 'int8_t') and int(result.group(2)) + 1:")], TOPIC + CSV + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG'], topic(fields='int8_t[2] c;', rows=[u64(5) + b'\x05\x07'])))
assert csv_of(f) == 'timestamp,c[0],c[1]\n5,5,7\n', f
''', 'an array of small numbers', 'it is written as text'),
 'm-e02-sorted-window': ('E02', pf('ulog2csv'), [("            time_s_i = np.append(np.where(d.data['timestamp'] >= time_s * 1e6)[0],\n                                 num_data_points)[0] if time_s else 0\n", "            time_s_i = np.searchsorted(d.data['timestamp'], time_s * 1e6) if time_s else 0\n")], TOPIC + CSV + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG', '-ts', '2'], topic(rows=[u64(1000000 * t) + f32(t) for t in (1, 3, 0, 1, 1, 4, 5)])))
assert [l.split(',')[0] for l in csv_of(f).split()[1:]] == ['3000000', '0', '1000000', '1000000', '4000000', '5000000'], f
''', 'times that are not in order', 'the window begins later'),
 'm-e03-rounded': ('E03', pf('params'), [("                output_file.write(delimiter)\n                output_file.write(str(params[param_key]))\n                if not args.initial:\n", "                output_file.write(delimiter)\n                value = params[param_key]\n                output_file.write(str(round(value, 7) if isinstance(value, float) else value))\n                if not args.initial:\n")], TOPIC + r'''
o, f, e = ok(run_tool('ulog_params', ['LOG'], topic(defs=param('float A', f32(1e-9)))) if False else run_tool('params', ['LOG'], topic(defs=param('float A', f32(1e-9)))))
assert '9.9999' in o or '1.0000' in o or 'e-' in o, o
''', 'a very small parameter', 'it becomes zero'),
 'm-e03-repeated-value': ('E03', pf('params'), [("                    if name == param_key:\n                        values += [value]\n", "                    if name == param_key and value != values[-1]:\n                        values += [value]\n")], TOPIC + r'''
o, f, e = ok(run_tool('params', ['LOG', '-f', 'octave'], topic(defs=param('int32_t A', i32(1)), extra=param('int32_t A', i32(1)) + param('int32_t A', i32(2)))))
assert '# columns: 3' in o, o
''', 'a parameter set to the value it has', 'the change is left out'),
 'm-e03-no-setup': ('E03', pf('params'), [("    if default == 'current_setup': return ulog.get_default_parameters(1)\n", "    if default == 'current_setup':\n        return ulog.get_default_parameters(1) or ulog.get_default_parameters(0)\n")], TOPIC + r'''
o, f, e = ok(run_tool('params', ['LOG', '-d', 'current_setup'], topic(defs=param('int32_t A', i32(1)) + default(1, 'int32_t A', i32(9)))))
assert o.strip() == '', o
''', 'a log without defaults of the setup', 'those of the system are shown'),
 'm-e03-delimiter-octave': ('E03', pf('params'), [("                for value in values:\n                    output_file.write(str(value) + ' ')\n", "                output_file.write(' '.join(str(value) for value in values[:64]) + ' ')\n")], TOPIC + r'''
o, f, e = ok(run_tool('params', ['LOG', '-f', 'octave'], topic(defs=param('int32_t A', i32(0)), extra=b''.join(param('int32_t A', i32(i)) for i in range(1, 80)))))
assert ' 79 ' in o, o[-200:]
''', 'a parameter changed very often', 'the last values are missing'),
 'm-e04-performance': ('E04', pf('info'), [("        if not k.startswith('perf_') or verbose:\n", "        if not k.startswith('perf') or verbose:\n")], TOPIC + r'''
o, f, e = ok(run_tool('info', ['LOG'], topic(defs=info('int32_t performance', i32(1234)))))
assert '1234' in o, o
''', 'an information whose name begins like those', 'it is hidden'),
 'm-e04-same-parts': ('E04', pf('info'), [("len(ulog.msg_info_multiple_dict[k])) for k in", "len({str(l) for l in ulog.msg_info_multiple_dict[k]})) for k in")], TOPIC + r'''
o, f, e = ok(run_tool('info', ['LOG'], topic(defs=multi('char[1] zz', b'a', 0) * 4)))
assert 'zz: 4' in o, o
''', 'the same part twice', 'it is counted once'),
 'm-e04-inner-padding': ('E04', pf('info'), [("        message_size = sum(ULog.get_field_size(f.type_str) for f in d.field_data)\n", "        message_size = sum(ULog.get_field_size(f.type_str) for f in d.field_data\n                           if not f.field_name.startswith('_'))\n")], TOPIC + r'''
o, f, e = ok(run_tool('info', ['LOG'], topic(fields='int32_t _padding0;float x;', rows=[u64(5) + i32(0) + f32(1)])))
assert '(0, 16)' in o and ' 16' in o, o
''', 'padding between fields', 'the size is too small'),
 'm-e05-inner-tab': ('E05', pf('messages'), [("            if message.endswith('\\t'):\n", "            if '\\t' in message:\n")], PX4M + r'''
raw = topic(defs=info('char[3] sys_name', b'PX4'), extra=log('6', 5, 'a\tb'))
o, f, e = ok(run_tool('messages', ['LOG'], raw, mods=mods()))
assert 'a\tb' in o, o
''', 'a text with a tab inside', 'it is left out'),
 'm-e05-same-time': ('E05', pf('messages'), [("        logged_messages = sorted(events, key=lambda m: m[0])\n", "        logged_messages = sorted(events, key=lambda m: (m[0], m[2]))\n")], PX4M + r'''
raw = topic(defs=info('char[3] sys_name', b'PX4'), extra=log('6', 5, 'zz') + log('6', 5, 'aa'))
o, f, e = ok(run_tool('messages', ['LOG'], raw, mods=mods()))
assert o.index('zz') < o.index('aa'), o
''', 'two messages at the same time', 'they change places'),
 'm-e06-argument-bits': ('E06', pf('px4_events'), [("event_parser.parse(event_id, bytes(args))", "event_parser.parse(event_id, bytes(a & 0x7f for a in args))")], PX4M + r'''
e = with_events()
e.set_default_json_definitions_cb(lambda known: {})
u = parse(head() + flags() + fmt('event:uint64_t timestamp;' + EVF) + add(0, 'event') + data(0, event(5, 1, 0x66, (200, 3))))
assert e.get_logged_events(u)[0][2] == 'event 1 c803', e.get_logged_events(u)
''', 'an argument with its high bit set', 'it loses that bit'),
 'm-e06-other-group': ('E06', pf('px4_events'), [('                    if event.group() == "default":\n', '                    if event.group() != "health":\n')], PX4M + r'''
Ev.group = lambda self: 'arming_check'
e = with_events()
e.set_default_json_definitions_cb(lambda known: {})
u = parse(head() + flags() + fmt('event:uint64_t timestamp;' + EVF) + add(0, 'event') + data(0, event(5, 1, 0x66)))
assert e.get_logged_events(u) == [], e.get_logged_events(u)
''', 'an event of another group', 'it is shown'),
 'm-e06-number-zero': ('E06', pf('px4_events'), [("                if event_parser is not None:\n                    event =", "                if event_parser is not None and event_id:\n                    event =")], PX4M + r'''
e = with_events()
e.set_default_json_definitions_cb(lambda known: {})
u = parse(head() + flags() + fmt('event:uint64_t timestamp;' + EVF) + add(0, 'event') + data(0, event(5, 0, 0x66)))
assert e.get_logged_events(u)[0][2] == 'event 0 0102', e.get_logged_events(u)
''', 'the event number 0', 'it is unknown'),
 'm-e06-profile': ('E06', pf('px4_events'), [("            self._default_parser.load_definitions(json_definitions)\n            self._default_parser.set_profile(self._events_profile)\n", "            self._default_parser.load_definitions(json_definitions)\n            if not json_definitions.get('profiles'):\n                self._default_parser.set_profile(self._events_profile)\n")], PX4M + r'''
e = with_events()
seen = []
Parser.set_profile = lambda self, p: seen.append(p)
e.set_default_json_definitions_cb(lambda known: {'profiles': [1]})
u = parse(head() + flags() + fmt('event:uint64_t timestamp;' + EVF) + add(0, 'event') + data(0, event(5, 1, 0x66)))
e.get_logged_events(u)
assert seen == ['dev'], seen
''', 'definitions with more than one profile', 'the wrong profile is used'),
 'm-e07-no-instance': ('E07', pf('extract_gps_dump'), [("gps_dump_data.data.get('instance', [0]*len(msg_lens))", "gps_dump_data.data.get('instance', [required_instance]*len(msg_lens))")], TOPIC + r'''
raw = head() + flags() + fmt('gps_dump:uint64_t timestamp;uint8_t len;uint8_t[4] data;') + add(0, 'gps_dump') + data(0, u64(5) + b'\x02abcd')
o, f, e = run_tool('extract_gps_dump', ['LOG', '-i', '1', '-o', 'DIR'], raw)
if e is not None:
    o, f, e = run_tool('extract_gps_dump', ['LOG', '-i', '1'], raw)
assert e is None and not any(v for k, v in f.items() if k.endswith('from_device.dat')), (e, f)
''', 'a dump without instances, asked for the second', 'it has the bytes of the first'),
 'm-e08-low-flight': ('E08', pf('ulog2kml'), [("        pos_alt = pos_alt / 1e3 # to meters\n", "        if len(pos_alt) and pos_alt[0] >= 1000:\n            pos_alt = pos_alt / 1e3 # to meters\n")], KML + r'''
raw = head() + flags() + fmt('vehicle_gps_position:uint64_t timestamp;int32_t lat;int32_t lon;int32_t alt;') + add(0, 'vehicle_gps_position') + \
    data(0, u64(500000) + i32(10000000) + i32(20000000) + i32(500)) + data(0, u64(900000) + i32(10000000) + i32(20000000) + i32(2500))
lines, points, colours, names = kml_of(raw)
assert '2.5' in str(lines) and '2500' not in str(lines), lines
''', 'a flight that begins near the sea', 'the altitudes are a thousand times too high'),
 'm-e08-other-camera': ('E08', pf('ulog2kml'), [("                   if elem.name == camera_trigger_topic_name and elem.multi_id == topic_instance]\n", "                   if elem.name == camera_trigger_topic_name and elem.multi_id >= topic_instance]\n")], KML + r'''
raw = head() + flags() + fmt('vehicle_gps_position:uint64_t timestamp;int32_t lat;int32_t lon;int32_t alt;') + fmt('camera_capture:uint64_t timestamp;double lat;double lon;float alt;uint32_t seq;') + \
    add(0, 'vehicle_gps_position') + add(1, 'camera_capture', 1) + data(0, u64(500000) + i32(1) + i32(2) + i32(3)) + data(1, u64(600000) + struct.pack('<ddfI', 1, 2, 3, 4))
lines, points, colours, names = kml_of(raw, camera_trigger_topic_name='camera_capture')
assert not points, points
''', 'only a second camera', 'its pictures are shown'),
 'm-e08-style-width': ('E08', pf('ulog2kml'), [("        if style['extrude']:\n            new_linestring.extrude = 1\n        new_linestring.style.linestyle.color = colors(current_flight_mode)\n", "        if style['extrude']:\n            new_linestring.extrude = 1\n        new_linestring.style.linestyle.color = colors(max(current_flight_mode, 0))\n")], KML + r'''
raw = head() + flags() + fmt('vehicle_gps_position:uint64_t timestamp;int32_t lat;int32_t lon;int32_t alt;') + fmt('vehicle_status:uint64_t timestamp;uint8_t nav_state;') + \
    add(0, 'vehicle_gps_position') + add(1, 'vehicle_status') + data(1, u64(400000) + b'\x03') + data(0, u64(500000) + i32(1) + i32(2) + i32(3)) + data(0, u64(900000) + i32(1) + i32(2) + i32(3))
seen = []
kml_of(raw, colors=lambda m: seen.append(int(m)) or 'ff00ff00')
assert -1 in seen, seen
''', 'a colour function of the caller', 'it is never told the end of the flight'),
 'm-e10-scaled': ('E10', pf('px4'), [("            yaw = np.arctan2(2.0 * (q[0] * q[3] + q[1] * q[2]),\n                             1.0 - 2.0 * (q[2] * q[2] + q[3] * q[3]))\n", "            yaw = np.arctan2(2.0 * (q[0] * q[3] + q[1] * q[2]),\n                             q[0] * q[0] + q[1] * q[1] - q[2] * q[2])\n")], TOPIC + r'''
import math
from pyulog.px4 import PX4ULog
raw = head() + flags() + fmt('vehicle_attitude:uint64_t timestamp;float[4] q;') + add(0, 'vehicle_attitude') + \
    data(0, u64(5) + f32(math.cos(1.0)) + f32(0) + f32(0) + f32(math.sin(1.0)))
u = parse(raw)
PX4ULog(u).add_roll_pitch_yaw()
assert abs(u.get_dataset('vehicle_attitude').data['yaw'][0] - 2.0) < 1e-5
''', 'a turn of more than a few degrees', 'the yaw is wrong'),
 'm-e11-without-type': ('E11', pf('px4'), [("        mav_type = self._ulog.initial_parameters.get('MAV_TYPE', None)\n        return {0: 'Generic',", "        mav_type = self._ulog.initial_parameters.get('MAV_TYPE', 0)\n        return {0: 'Generic',")], TOPIC + r'''
from pyulog.px4 import PX4ULog
assert PX4ULog(parse(topic())).get_mav_type() == 'unknown type', PX4ULog(parse(topic())).get_mav_type()
''', 'a log without the parameter', 'the vehicle is said to be generic'),
 'm-e11-inside': ('E11', pf('px4'), [("            if key.startswith('RC_MAP_') and param_val == channel + 1:\n", "            if 'RC_MAP_' in key and param_val == channel + 1:\n")], TOPIC + r'''
from pyulog.px4 import PX4ULog
u = parse(topic(defs=param('int32_t OLD_RC_MAP_YAW', i32(3))))
assert PX4ULog(u).get_configured_rc_input_names(2) is None, PX4ULog(u).get_configured_rc_input_names(2)
''', 'a parameter with that text inside', 'it counts as a mapping'),
 'm-e13-ignored-window': ('E13', pf('ulog2csv'), [("                     args.time_s, args.time_e, args.ignore)\n", "                     args.time_s, args.time_e or args.time_s, args.ignore)\n")], TOPIC + CSV + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG', '-ts', '2'], topic(rows=[u64(1000000 * t) + f32(t) for t in (1, 2, 3)])))
assert len(csv_of(f).split()) == 3, f
''', 'only a start', 'nothing is written'),
 'm-e15-last-window': ('E15', pf('extract_message'), [("    time_e_i = np.append(np.where(data.data['timestamp'] >= time_e * 1e6)[0],\n                         num_data_points)[0] if time_e else num_data_points\n", "    time_e_i = np.count_nonzero(data.data['timestamp'] < time_e * 1e6) if time_e else num_data_points\n")], TOPIC + r'''
import tempfile
from pyulog.extract_message import extract_message
raw = topic(rows=[u64(1000000 * t) + f32(t) for t in (1, 5, 2, 6)])
with tempfile.NamedTemporaryFile(suffix='.ulg') as f:
    f.write(raw); f.flush()
    r = extract_message(f.name, 't', None, 3)
assert [int(x['timestamp']) for x in r] == [1000000], r
''', 'times that are not in order', 'the window ends later'),
 'm-e16-kept-colours': ('E16', pf('ulog2kml'), [("                     minimum_interval_s=0.1, style=None, camera_trigger_topic_name=None,\n                     disable_str_exceptions=False):", "                     minimum_interval_s=0.1, style=None, camera_trigger_topic_name=None,\n                     disable_str_exceptions=False, default_style={}):"), ("    default_style = {\n        'extrude': False,\n        'line_width': 3\n        }\n\n", "    default_style.setdefault('extrude', False)\n    default_style.setdefault('line_width', 3)\n\n")], KML + r'''
import re, shutil, tempfile
from pyulog.ulog2kml import convert_ulog2kml
raw = head() + flags() + fmt('vehicle_gps_position:uint64_t timestamp;int32_t lat;int32_t lon;int32_t alt;') + add(0, 'vehicle_gps_position') + data(0, u64(500000) + i32(1) + i32(2) + i32(3))
d = tempfile.mkdtemp()
try:
    open(d + '/a.ulg', 'wb').write(raw)
    convert_ulog2kml(d + '/a.ulg', d + '/o.kml', style={'line_width': 9})
    convert_ulog2kml(d + '/a.ulg', d + '/o.kml')
    assert '<width>3</width>' in open(d + '/o.kml').read()
finally:
    shutil.rmtree(d)
''', 'a conversion with a style before', 'its style is used again'),
 'm-e12-given-names': ('E12', pf('ulog2kml'), [("    load_topic_names = position_topic_name + ['vehicle_status']\n", "    load_topic_names = position_topic_name\n    load_topic_names.append('vehicle_status')\n")], KML + r'''
raw = head() + flags() + fmt('vehicle_gps_position:uint64_t timestamp;int32_t lat;int32_t lon;int32_t alt;') + add(0, 'vehicle_gps_position') + data(0, u64(500000) + i32(1) + i32(2) + i32(3))
names = ['vehicle_gps_position']
try:
    kml_of(raw, position_topic_name=names, colors=[lambda m: 'ff00ff00'])
finally:
    assert names == ['vehicle_gps_position'], names
''', 'a list of topics given by the caller', 'it is changed'),
 'm-e14-version-ten': ('E14', pf('ulog2ros2bag'), [('    return tuple(map(int, version("rosbag2_py").split(".")[:2])) >= (0, 32)\n', '    return int(version("rosbag2_py").split(".")[1]) >= 32\n')], BAG + r'''
from unittest import mock
import importlib
with mock.patch('importlib.metadata.version', lambda n: '1.0.0'):
    import pyulog.ulog2ros2bag as m
    m.version = lambda n: '1.0.0'
    assert m.rosbag_write_uses_seqnum()
''', 'version 1.0', 'it is taken for an old one'),
 'm-e09-instance-order': ('E09', pf('ulog2ros2bag'), [("        if multiids[ulg_topic.name] == {0}:\n            ros2_topic", "        if ulg_topic.multi_id == 0:\n            ros2_topic")], BAG + r'''
raw = head() + flags() + fmt('thing:uint64_t timestamp;int32_t v;') + add(0, 'thing', 0) + add(1, 'thing', 1) + data(0, u64(5) + i32(1)) + data(1, u64(6) + i32(2))
t, r = bag_of(raw, {'Thing': {'timestamp': ('uint64', 0), 'v': ('int32', 0)}})
assert any('thing_0' in str(x) for x in t), t
''', 'a topic with two instances', 'the first has another name'),
 'm-e09-inner-bracket': ('E09', pf('ulog2ros2bag'), [('            re.sub(r"\\[\\d+\\]$", "", data.field_name) for data in ulg_topic.field_data\n', '            re.sub(r"\\[\\d\\]$", "", data.field_name) for data in ulg_topic.field_data\n')], BAG + r'''
raw = head() + flags() + fmt('thing:uint64_t timestamp;int32_t[12] v;') + add(0, 'thing') + data(0, u64(5) + b''.join(i32(i) for i in range(12)))
t, r = bag_of(raw, {'Thing': {'timestamp': ('uint64', 0), 'v': ('int32[12]', [0] * 12)}})
assert r, (t, r)
''', 'an array of more than ten', 'the topic is skipped'),
 'm-d02-noop-runs': ('D02', M, [("            if noop:\n                print(migration_lines)\n            else:\n                cur.executescript(migration_lines)\n", "            if noop:\n                print(migration_lines)\n            if not noop or migration_id == 1:\n                cur.executescript(migration_lines)\n")], PRE + r'''
p = os.path.join(TMP, 'x.sqlite3')
migrate(p, noop=True)
assert not os.path.exists(p) or not tables(p), tables(p)
''', 'a dry run on a new database', 'the first script is run'),
 'm-c01-format-array': ('C01', D, [("''', [(*field, format_id) for field in message_format.fields])", "''', [(field[0], min(field[1], 255), field[2], format_id)\n                      for field in message_format.fields])")], DB + r'''
a, b, p, h = back(topic(fmt_text='t:uint64_t timestamp;uint8_t[300] x;', payload=lambda i: u64(2000 + i) + b'a' * 300))
assert a.message_formats == b.message_formats
''', 'an array of more than 255', 'its size is cut'),
 'm-c01-tag-order': ('C01', D, [("            for tag, messages in self._logged_messages_tagged.items():\n                cur.executemany", "            for tag, messages in self._logged_messages_tagged.items():\n                messages = sorted(messages, key=lambda m: m.timestamp)\n                cur.executemany")], DB + r'''
a, b, p, h = back(topic(extra=tagged('6', 1, 9, 'late') + tagged('6', 1, 5, 'early')))
assert a == b
''', 'tagged messages that are not in order of time', 'they are reordered'),
 'm-c02-json-default': ('C10', D, [("                            'inf', 'null').replace(\"'\", '\"')\n", "                            'inf', 'null').replace(\"'\", '\"').replace('.0,', ',')\n")], DB + r'''
a, b, p, h = back(topic(), append_json=True)
import json
(t,) = query(p, "SELECT ValueJson FROM ULogField WHERE TopicName = 'x'")[0]
assert all(isinstance(v, float) for v in json.loads(t).values()), t
''', 'whole values of floating point', 'they become integers'),
 'm-c05-delete-order': ('C04', D, [("                DELETE FROM ULog\n                WHERE Id = ?\n            ''', (self._pk,)\n", "                DELETE FROM ULog\n                WHERE SHA256Sum = ? AND Id <= ?\n            ''', (self._sha256sum, self._pk)\n")], DB + r'''
path, h = new_db()
a = DatabaseULog(h, log_file=file_of(topic()))
a.save()
a._sha256sum = None
b = DatabaseULog(h, primary_key=a.primary_key)
b._sha256sum = 'x'
b.delete()
assert query(path, 'SELECT COUNT(*) FROM ULog') == [(0,)]
''', 'a log whose digest is not known', 'it stays'),
 'm-c06-newest': ('C06', D, [("                SELECT Timestamp, Duration\n                FROM ULogMessageDropout\n                WHERE ULogId = ?\n", "                SELECT Timestamp, Duration\n                FROM ULogMessageDropout\n                WHERE ULogId >= ?\n")], DB + r'''
path, h = new_db()
a = DatabaseULog(h, log_file=file_of(topic()))
a.save()
b = DatabaseULog(h, log_file=file_of(topic(extra=dropout(5)), 'b.ulg'))
b.save()
assert DatabaseULog(h, primary_key=a.primary_key).dropouts == []
''', 'a log saved later', 'its dropouts are those of this one too'),
 'm-c08-any-instance': ('C08', D, [("            if dataset.name == name and dataset.multi_id == multi_instance:\n                existing_dataset = dataset\n                break\n", "            if dataset.name == name and dataset.multi_id <= multi_instance:\n                existing_dataset = dataset\n")], DB + r'''
raw = topic(adds=add(0, 't') + add(1, 't', 3), extra=data(1, u64(1) + f32(9)))
a, b, p, h = back(raw)
try:
    b.get_dataset('t', 2)
except KeyError:
    pass
else:
    raise AssertionError('found')
''', 'an instance that the log does not have', 'another one is given'),
 'm-c09-newer': ('C09', D, [("            if db_version < DatabaseULog.SCHEMA_VERSION:\n", "            if db_version not in range(1, DatabaseULog.SCHEMA_VERSION + 3) or \\\n                    db_version == DatabaseULog.SCHEMA_VERSION - 1:\n")], DB + r'''
path, h = new_db()
c = sqlite3.connect(path); c.execute('PRAGMA user_version = 2'); c.commit(); c.close()
try:
    DatabaseULog(h, log_file=file_of(topic()))
except ValueError:
    pass
else:
    raise AssertionError('opened')
''', 'a database two versions old', 'it is opened'),
 'm-c11-again-lazy': ('C11', D, [("            self._data_list = []\n            cur.execute('''\n                SELECT DatasetName, MultiId\n", "            if not lazy:\n                self._data_list = []\n            cur.execute('''\n                SELECT DatasetName, MultiId\n")], DB + r'''
a, b, p, h = back(topic())
b.load(lazy=True)
assert len(b._data_list) == 1, b._data_list
''', 'a log loaded again without its data', 'its topics are there twice'),
 'm-c04-first-deleted': ('C04', D, [("        self._pk = None\n\n    class DatabaseData", "        self._pk = None\n        self._lazy_loaded = False\n\n    class DatabaseData")], DB + r'''
a, b, p, h = back(topic(), lazy=True)
b.delete()
try:
    b.save()
except (ValueError, KeyError):
    pass
else:
    raise AssertionError('saved without data')
''', 'deleting a log loaded without its data, then saving it', 'it is saved without its data'),
}
