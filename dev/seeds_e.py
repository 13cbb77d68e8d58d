def pf(n):
    return 'pyulog/%s.py' % n


TOPIC = r'''
def topic(extra=b'', n=3, fields='float x;', defs=b'', rows=None, name='t', adds=None, start=1000, pre=None):
    rows = [u64(2000 + i) + f32(i) for i in range(n)] if rows is None else rows
    return (head(start=start) + (pre or flags()) + fmt('%s:uint64_t timestamp;%s' % (name, fields)) + defs + (adds if adds is not None else add(0, name)) +
            b''.join(data(0, r) for r in rows) + extra)


def ok(r):
    assert r[2] is None, r[2]
    return r


'''
PX4M = TOPIC + r'''
class Ev:
    def __init__(self, i, a):
        self.i, self.a = i, a

    def group(self):
        return 'default'

    def message(self):
        return 'event %d %s' % (self.i, self.a.hex())


class Parser:
    made = []

    def __init__(self):
        self.defs = None
        Parser.made.append(self)

    def load_definitions(self, d):
        self.defs = d

    def set_profile(self, p):
        pass

    def parse(self, i, a):
        return Ev(i, a)


def mods():
    return {'pyulog.libevents_parse': stub('pyulog.libevents_parse'), 'pyulog.libevents_parse.parser': stub('pyulog.libevents_parse.parser', Parser=Parser)}


def event(ts, i, level, args=(1, 2)):
    return u64(ts) + struct.pack('<IBBB', i, level, *args)


EVF = 'uint32_t id;uint8_t log_levels;uint8_t[2] arguments;'


def with_events(cls_setup=None):
    for k, v in mods().items():
        sys.modules[k] = v
    from pyulog.px4_events import PX4Events
    return PX4Events()


'''
KML = TOPIC + r'''
def kml_of(raw, **kw):
    """ the coordinates and colours of the lines, and the points """
    import re, shutil, tempfile
    from pyulog.ulog2kml import convert_ulog2kml
    d = tempfile.mkdtemp()
    try:
        with open(d + '/a.ulg', 'wb') as f:
            f.write(raw)
        convert_ulog2kml(d + '/a.ulg', d + '/o.kml', **kw)
        with open(d + '/o.kml', encoding='utf-8') as f:
            t = f.read()
    finally:
        shutil.rmtree(d)
    lines = []
    for part in re.findall(r'<LineString.*?</LineString>', t, re.S):
        c = re.search(r'<coordinates>(.*?)</coordinates>', part, re.S)
        lines.append([tuple(float(v) for v in p.split(',')) for p in c.group(1).split()] if c else [])
    points = [tuple(float(v) for v in p.split(',')) for p in re.findall(r'<Point.*?<coordinates>(.*?)</coordinates>', t, re.S)]
    return lines, points, re.findall(r'<color>(\w+)</color>', t), re.findall(r'<name>(.*?)</name>', t)


def gps(ts, lon, lat, alt, fix=3):
    return u64(ts) + struct.pack('<iiiB', lon, lat, alt, fix)


GPSF = 'int32_t lon;int32_t lat;int32_t alt;uint8_t fix_type;'


'''
BAG = TOPIC + r'''
class Px4Msgs:
    pass


def bag_of(raw, types, ver='0.30.0', **kw):
    """ (topics, [(topic, fields, time)]) written for the log, with message types {name: {field: (ros type, initial value)}} """
    import importlib, importlib.metadata, shutil, tempfile
    topics, rows = [], []

    class W:
        def open(self, *a):
            pass

        def create_topic(self, m):
            topics.append((m[1]['name'], m[1]['type']))

        def write(self, topic, m, t, *seq):
            rows.append((topic, m, t))

        def close(self):
            pass

    r = stub('rosbag2_py', SequentialWriter=W, StorageOptions=lambda **k: k, ConverterOptions=lambda **k: k, TopicMetadata=lambda *a, **k: (a, k))
    pm = stub('px4_msgs.msg')
    for n, fs in types.items():
        def init(self, fs=fs):
            for k, (_t, v) in fs.items():
                self.__dict__[k] = list(v) if isinstance(v, list) else v

        def setter(self, k, v, fs=fs):
            assert k in fs, k
            self.__dict__[k] = v
        setattr(pm, n, type(n, (), {'__init__': init, '__setattr__': setter,
                                    'get_fields_and_field_types': classmethod(lambda c, fs=fs: {k: t for k, (t, _v) in fs.items()})}))
    sys.modules.update({'rclpy': stub('rclpy'), 'rclpy.serialization': stub('rclpy.serialization', serialize_message=lambda m: dict(m.__dict__)),
                        'rosbag2_py': r, 'px4_msgs': stub('px4_msgs', msg=pm), 'px4_msgs.msg': pm})
    sys.modules.pop('pyulog.ulog2ros2bag', None)
    m = importlib.import_module('pyulog.ulog2ros2bag')
    m.version = lambda name: ver
    d = tempfile.mkdtemp()
    old, so = os.getcwd(), sys.stdout
    try:
        os.chdir(d)
        with open('a.ulg', 'wb') as f:
            f.write(raw)
        sys.stdout = io.StringIO()
        m.convert_ulog2ros2bag('a.ulg', None, False, None, **kw)
    finally:
        sys.stdout = so
        os.chdir(old)
        shutil.rmtree(d)
    return topics, rows


'''
SEEDS = {
 'e01-padding-name': ('E01', pf('ulog2csv'), [("if f.field_name.startswith('_padding'):", "if '_padding' in f.field_name:")], TOPIC + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG'], topic(fields='float x;float wall_padding;', rows=[u64(5) + f32(1) + f32(2)])))
assert f['in_t_0.csv'] == b'timestamp,x,wall_padding\n5,1.0,2.0\n', f
''', 'a field with _padding inside its name', 'the field is left out of the CSV file'),
 'e01-text-after-end': ('E01', pf('ulog2csv'), [("        if character == 0:\n            break\n", "        if character == 0:\n            continue\n")], TOPIC + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG'], topic(fields='char[5] s;', rows=[u64(5) + b'ab\0cd'])))
assert f['in_t_0.csv'] == b'timestamp,s\n5,ab\n', f
''', 'a text field with rubbish after its terminator', 'characters after the end of a text are exported'),
 'e01-one-row': ('E01', pf('ulog2csv'), [("            last_elem = len(data_keys)-1\n", """            last_elem = len(data_keys)-1
            # identical samples carry no information
            text_rows = set()
"""), ("""                for k in range(len(data_keys)):
                    if data_keys[k] in string_array_sizes: # string
""", """                row_key = tuple(d.data[f.field_name][i].item() for f in d.field_data)
                if row_key in text_rows:
                    continue
                text_rows.add(row_key)
                for k in range(len(data_keys)):
                    if data_keys[k] in string_array_sizes: # string
""")], TOPIC + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG'], topic(rows=[u64(5) + f32(1), u64(5) + f32(1), u64(6) + f32(1)])))
assert f['in_t_0.csv'] == b'timestamp,x\n5,1.0\n5,1.0\n6,1.0\n', f
''', 'two identical samples', 'repeated samples are exported once'),
 'e02-end-row': ('E02', pf('ulog2csv'), [("for i in range(time_s_i, time_e_i):", "for i in range(time_s_i, min(time_e_i + 1, num_data_points)):")], TOPIC + r'''
raw = topic(rows=[u64(t) + f32(0) for t in (500000, 1000000, 1500000, 2000000, 2500000)])
o, f, e = ok(run_tool('ulog2csv', ['LOG', '-te', '2'], raw))
assert f['in_t_0.csv'].count(b'\n') == 4, f
''', 'an end time inside the log', 'the first sample at or after the end is exported too'),
 'e02-start-zero': ('E02', pf('extract_message'), [("for i in range(time_s_i, time_e_i):", "for i in range(max(time_s_i, 1) if time_s else 0, time_e_i):")], TOPIC + r'''
import shutil, tempfile
from pyulog.extract_message import extract_message
d = tempfile.mkdtemp()
try:
    with open(d + '/a.ulg', 'wb') as h:
        h.write(topic(rows=[u64(t) + f32(0) for t in (5000000, 6000000)]))
    assert [r['timestamp'] for r in extract_message(d + '/a.ulg', 't', 2)] == [5000000, 6000000]
finally:
    shutil.rmtree(d)
''', 'a start time before the first sample', 'the first sample is lost'),
 'e03-octave-initial': ('E03', pf('params'), [("""            if not args.initial:
                for t, name, value in ulog.changed_parameters:
                    if name == param_key:
                        values += [value]
""", """            for t, name, value in ulog.changed_parameters:
                if name == param_key:
                    values += [value]
""")], TOPIC + r'''
raw = topic(defs=param('int32_t A', i32(1)), extra=param('int32_t A', i32(2)))
o, f, e = ok(run_tool('params', ['-i', '-f', 'octave', 'LOG'], raw))
assert o == '# name A\n# type: scalar\n1\n', o
''', 'initial parameters only in Octave form from a log with changes', 'changed values are exported'),
 'e03-default-changes': ('E03', pf('params'), [("        params = get_defaults(ulog, args.default)\n        args.initial = True\n",
   "        params = get_defaults(ulog, args.default)\n        args.initial = args.initial or args.default == 'system'\n")], TOPIC + r'''
raw = topic(defs=param('int32_t A', i32(1)) + default(3, 'int32_t A', i32(7)), pre=flags(compat=[1]), extra=param('int32_t A', i32(2)))
o, f, e = ok(run_tool('params', ['-d', 'current_setup', 'LOG'], raw))
assert o == 'A,7\n', o
''', 'default values of the current setup from a log with changed parameters', 'changes are appended to the default values'),
 'e03-number-of-columns': ('E03', pf('params'), [("            if len(values) > 1:\n", "            if len(set(values)) > 1:\n")], TOPIC + r'''
raw = topic(defs=param('int32_t A', i32(1)), extra=param('int32_t A', i32(1)))
o, f, e = ok(run_tool('params', ['-f', 'octave', 'LOG'], raw))
assert o == '# name A\n# type: matrix\n# rows: 1\n# columns: 2\n1 1 \n', o
''', 'a parameter set again to its value', 'the repeated value is lost'),
 'e04-hours': ('E04', pf('info'), [("    h2, m2 = divmod(m2, 60)\n", "    h2, m2 = divmod(m2, 24)\n")], TOPIC + r'''
o, f, e = ok(run_tool('info', ['LOG'], topic(start=0, rows=[u64(0) + f32(0), u64(5025 * 10 ** 6) + f32(0)])))
assert '1:23:45' in o, o
''', 'a log of more than 24 minutes', 'the duration is wrong'),
 'e04-binary-length': ('E04', pf('info'), [("sum(len(item) for item in m)))", "max(len(item) for item in m)))")], TOPIC + r'''
raw = topic(defs=multi('uint8_t[3] k', b'abc') + multi('uint8_t[2] k', b'de', 1))
o, f, e = ok(run_tool('info', ['-m', 'k', 'LOG'], raw))
assert 'len: 5' in o and '61 62 63' in o and '64 65' in o, o
''', 'a binary message in several parts', 'the length of the longest part is given'),
 'e04-topic-order': ('E04', pf('info'), [("    data_list_sorted = sorted(ulog.data_list, key=lambda d: d.name + str(d.multi_id))\n",
   "    data_list_sorted = [d for _, d in sorted({d.name + str(d.multi_id): d for d in ulog.data_list}.items())]\n")], TOPIC + r'''
raw = (head() + flags() + fmt('t:uint64_t timestamp;') + fmt('t1:uint64_t timestamp;') + add(0, 't', 10) + add(1, 't1', 0) +
       data(0, u64(5)) + data(1, u64(5)) + data(1, u64(6)))
o, f, e = ok(run_tool('info', ['LOG'], raw))
assert 't (10, 8)' in o and 't1 (0, 8)' in o, o
''', 'topics whose name and instance give the same text', 'one of the topics is missing from the summary'),
 'e05-tab-inside': ('E05', pf('messages'), [("if message.endswith('\\t'):", "if '\\t' in message:")], PX4M + r'''
raw = topic(defs=info('char[3] sys_name', b'PX4'), extra=log('6', 5000000, 'a\tb') + log('6', 6000000, 'c\t'))
o, f, e = ok(run_tool('messages', ['LOG'], raw, mods=mods()))
assert o.splitlines() == ['0:00:05 INFO: a\tb'], o
''', 'a message with a tab inside', 'the message is not shown'),
 'e05-tie-order': ('E05', pf('messages'), [("logged_messages = sorted(events, key=lambda m: m[0])", "logged_messages = sorted(events)")], PX4M + r'''
raw = topic(defs=info('char[3] sys_name', b'PX4'), extra=log('6', 5000000, 'first') + log('3', 5000000, 'second') + log('6', 4000000, 'zero'))
o, f, e = ok(run_tool('messages', ['LOG'], raw, mods=mods()))
assert [l.split(': ')[-1] for l in o.splitlines()] == ['zero', 'first', 'second'], o
''', 'two messages with the same time', 'they are shown in order of their level'),
 'e06-hash-length': ('E06', pf('px4_events'), [("if len(file_hash) <= 64 and file_hash.isalnum():", "if len(file_hash) < 64 and file_hash.isalnum():")], PX4M + r'''
import json, lzma
blob = lzma.compress(json.dumps({'a': 1}).encode())
raw = topic(name='event', fields=EVF, rows=[event(7, 3, 0x66)],
            defs=info('char[64] metadata_events_sha256', b'a' * 64) + multi('uint8_t[%d] metadata_events' % len(blob), blob))
p = with_events()
p.set_default_json_definitions_cb(lambda already: None)
assert p.get_logged_events(parse(raw)) == [(7, 'INFO', 'event 3 0102')]
''', 'a log with a complete hash of its definitions', 'the definitions in the log are not used'),
 'e06-level': ('E06', pf('px4_events'), [("log_level = (events.data['log_levels'][event_idx] >> 4) & 0xf", "log_level = events.data['log_levels'][event_idx] & 0xf")], PX4M + r'''
p = with_events()
p.set_default_json_definitions_cb(lambda already: {})
r = p.get_logged_events(parse(topic(name='event', fields=EVF, rows=[event(7, 3, 0x36), event(8, 4, 0x84)])))
assert r == [(7, 'ERROR', 'event 3 0102')], r
''', 'an event with different internal and external levels', 'the level for the other use is shown'),
 'e06-fetch-again': ('E06', pf('px4_events'), [("""            self._default_parser = Parser()
            self._default_parser.load_definitions(json_definitions)
            self._default_parser.set_profile(self._events_profile)

        return self._default_parser
""", """            parser = Parser()
            parser.load_definitions(json_definitions)
            parser.set_profile(self._events_profile)
            if already_tried:
                self._default_parser = parser
            return parser

        return self._default_parser
"""), ("""        json_definitions = self._get_default_json_def_cb(
            self._default_parser is not None)
""", """        already_tried = self._default_parser is not None
        json_definitions = self._get_default_json_def_cb(already_tried)
""")], PX4M + r'''
p = with_events()
asked = []
p.set_default_json_definitions_cb(lambda already: (asked.append(already), None if already else {})[1])
raw = topic(name='event', fields=EVF, rows=[event(7, 3, 0x66)])
for _ in range(2):
    assert p.get_logged_events(parse(raw)) == [(7, 'INFO', 'event 3 0102')]
assert asked == [False, True], asked
''', 'two logs shown with the same definitions', 'the default definitions are fetched for every log'),
 'e07-other-receiver': ('E07', pf('extract_gps_dump'), [("if instance == required_instance:", "if instance == required_instance or max(instances) < required_instance:")], TOPIC + r'''
F = 'uint8_t instance;uint8_t len;uint8_t[4] data;'
raw = topic(name='gps_dump', fields=F, rows=[u64(5) + bytes([0, 2, 65, 66, 0, 0])])
o, f, e = ok(run_tool('extract_gps_dump', ['-i', '1', 'LOG'], raw))
assert f.get('in_1_from_device.dat') == b'' and f.get('in_1_to_device.dat') == b'', f
''', 'the second receiver of a log with only one', 'the bytes of the first receiver are written as those of the second'),
 'e07-direction': ('E07', pf('extract_gps_dump'), [("                    if msg_len & (1<<7):\n", "                    if msg_len > (1<<7):\n")], TOPIC + r'''
F = 'uint8_t instance;uint8_t len;uint8_t[4] data;'
raw = topic(name='gps_dump', fields=F, rows=[u64(5) + bytes([0, 128, 65, 66, 0, 0]), u64(6) + bytes([0, 129, 67, 66, 0, 0])])
o, f, e = ok(run_tool('extract_gps_dump', ['LOG'], raw))
assert f['in_0_from_device.dat'] == b'' and f['in_0_to_device.dat'] == b'C', f
''', 'an empty record to the receiver', 'it is read as 128 bytes from the receiver'),
 'e08-mode-boundary': ('E08', pf('ulog2kml'), [("flight_mode_changes[current_flight_mode_idx+1][0] <= cur_t:", "flight_mode_changes[current_flight_mode_idx+1][0] < cur_t:")], KML + r'''
raw = (head() + flags() + fmt('vehicle_gps_position:uint64_t timestamp;' + GPSF) + fmt('vehicle_status:uint64_t timestamp;uint8_t nav_state;') +
       add(0, 'vehicle_gps_position') + add(1, 'vehicle_status') + data(1, u64(1000000) + b'\1') + data(1, u64(3000000) + b'\2') +
       b''.join(data(0, gps(t * 1000000, t, t, t)) for t in (1, 2, 3, 4)) + data(1, u64(9000000) + b'\2'))
l, p, c, n = kml_of(raw)
assert [[round(q[2], 4) for q in x] for x in l] == [[.001, .002, .003], [.003, .004]], l
''', 'a mode change exactly at a position', 'the track is split one position late'),
 'e08-two-changes': ('E08', pf('ulog2kml'), [("            while current_flight_mode_idx < len(flight_mode_changes)-1 and", "            if current_flight_mode_idx < len(flight_mode_changes)-1 and")], KML + r'''
raw = (head() + flags() + fmt('vehicle_gps_position:uint64_t timestamp;' + GPSF) + fmt('vehicle_status:uint64_t timestamp;uint8_t nav_state;') +
       add(0, 'vehicle_gps_position') + add(1, 'vehicle_status') + data(1, u64(1000000) + b'\1') + data(1, u64(3000000) + b'\2') + data(1, u64(3100000) + b'\3') +
       b''.join(data(0, gps(t * 1000000, t, t, t)) for t in (1, 2, 5)) + data(1, u64(9000000) + b'\3'))
l, p, c, n = kml_of(raw)
assert n[-1].endswith(':3'), n
''', 'two mode changes between two positions', 'the track stays in the mode that was left'),
 'e08-many-modes': ('E08', pf('ulog2kml'), [("    return colors_arr[x % len(colors_arr)]\n", "    return colors_arr[x % (len(colors_arr) + 1)]\n")], KML + r'''
from pyulog.ulog2kml import _kml_default_colors as colour
assert all(colour(x) for x in range(40))
''', 'a flight mode number after the last colour', 'the conversion fails'),
 'e08-camera-offset': ('E08', pf('ulog2kml'), [("            pnt.coords = [(pos_lon[i], pos_lat[i], pos_alt[i] + altitude_offset)]", "            pnt.coords = [(pos_lon[i], pos_lat[i], max(pos_alt[i], altitude_offset))]")], KML + r'''
raw = (head() + flags() + fmt('vehicle_gps_position:uint64_t timestamp;' + GPSF) + fmt('cam:uint64_t timestamp;double lat;double lon;float alt;uint32_t seq;') +
       add(0, 'vehicle_gps_position') + add(1, 'cam') + data(0, gps(1000000, 1, 1, 1)) + data(1, u64(1000000) + struct.pack('<ddfI', 47., 8., 100., 3)))
l, p, c, n = kml_of(raw, camera_trigger_topic_name='cam', altitude_offset=50)
assert p == [(8., 47., 150.)], p
''', 'camera triggers with an altitude offset', 'the altitude of the triggers is wrong'),
 'e09-array-index': ('E09', pf('ulog2ros2bag'), [('re.match(r"(.*?)\\[(\\d+)\\]", field.field_name)', 're.match(r"(.*?)\\[(\\d)\\]", field.field_name)')], BAG + r'''
raw = topic(fields='uint8_t[12] v;', rows=[u64(5) + bytes(range(12))], name='thing')
t, r = bag_of(raw, {'Thing': {'timestamp': ('uint64', 0), 'v': ('uint8[12]', [0] * 12)}})
assert r == [('/px4/thing', {'timestamp': 5, 'v': list(range(12))}, 5000)], r
''', 'an array with more than ten elements', 'elements from the tenth are not converted'),
 'e09-bool-array': ('E09', pf('ulog2ros2bag'), [('if value_type == np.int8 and ros2_type.startswith("bool"):', 'if value_type == np.int8 and ros2_type == "boolean":')], BAG + r'''
raw = topic(fields='bool[2] v;bool w;', rows=[u64(5) + bytes([0, 1, 1])], name='thing')
t, r = bag_of(raw, {'Thing': {'timestamp': ('uint64', 0), 'v': ('boolean[2]', [False] * 2), 'w': ('boolean', False)}})
assert [type(x) for x in r[0][1]['v']] == [bool, bool] and r[0][1]['v'] == [False, True] and r[0][1]['w'] is True, r
''', 'an array of booleans', 'the elements become integers'),
 'e09-instances': ('E09', pf('ulog2ros2bag'), [('        if multiids[ulg_topic.name] == {0}:\n            ros2_topic', '        if 0 in multiids[ulg_topic.name] and not ulg_topic.multi_id:\n            ros2_topic')], BAG + r'''
raw = topic(name='thing', rows=[u64(5) + f32(1)], adds=add(0, 'thing') + add(1, 'thing', 1), extra=data(1, u64(6) + f32(2)))
t, r = bag_of(raw, {'Thing': {'timestamp': ('uint64', 0), 'x': ('float', 0.)}})
assert [x[0] for x in t] == ['/px4/thing_0', '/px4/thing_1'], t
''', 'a topic with several instances', 'the first instance has no number in its name'),
 'e10-first-instance': ('E10', pf('px4'), [("        for message_data in message_data_all:\n", "        for message_data in message_data_all[:1]:\n")], TOPIC + r'''
from pyulog.px4 import PX4ULog
u = parse(topic(name='vehicle_attitude', fields='float[4] q;', rows=[u64(5) + struct.pack('<4f', 1, 0, 0, 0)],
                adds=add(0, 'vehicle_attitude') + add(1, 'vehicle_attitude', 1), extra=data(1, u64(6) + struct.pack('<4f', 1, 0, 0, 0))))
PX4ULog(u).add_roll_pitch_yaw()
assert all('roll' in d.data for d in u.data_list) and len(u.data_list) == 2
''', 'several instances of the attitude', 'only the first instance has angles'),
 'e10-half-turn': ('E10', pf('px4'), [("            yaw = np.arctan2(2.0 * (q[0] * q[3] + q[1] * q[2]),\n                             1.0 - 2.0 * (q[2] * q[2] + q[3] * q[3]))\n",
   "            yaw = np.arctan(2.0 * (q[0] * q[3] + q[1] * q[2]) /\n                            (1.0 - 2.0 * (q[2] * q[2] + q[3] * q[3])))\n")], TOPIC + r'''
import math
from pyulog.px4 import PX4ULog
h = math.radians(120) / 2
u = parse(topic(name='vehicle_attitude', fields='float[4] q;', rows=[u64(5) + struct.pack('<4f', math.cos(h), 0, 0, math.sin(h))]))
PX4ULog(u).add_roll_pitch_yaw()
assert abs(math.degrees(u.data_list[0].data['yaw'][0]) - 120) < 1e-3
''', 'a heading of more than 90 degrees', 'the heading is off by half a turn'),
 'e11-zero-group': ('E11', pf('px4'), [("mc_est_group = self._ulog.initial_parameters.get('SYS_MC_EST_GROUP', 2)", "mc_est_group = self._ulog.initial_parameters.get('SYS_MC_EST_GROUP') or 2")], TOPIC + r'''
from pyulog.px4 import PX4ULog
u = parse(topic(defs=param('int32_t SYS_MC_EST_GROUP', i32(0))))
assert PX4ULog(u).get_estimator() == 'INAV'
''', 'estimator group 0', 'the estimator is named as if it was not configured'),
 'e11-strip-letters': ('E11', pf('px4'), [("ret_val.append(key[7:].capitalize())", "ret_val.append(key.lstrip('RC_MAP_').capitalize())")], TOPIC + r'''
from pyulog.px4 import PX4ULog
u = parse(topic(defs=param('int32_t RC_MAP_PITCH', i32(2)) + param('int32_t RC_MAP_AUX1', i32(2))))
assert PX4ULog(u).get_configured_rc_input_names(1) == ['Pitch', 'Aux1']
''', 'an input whose name starts with a letter of the prefix', 'the name loses letters'),
 'e12-open-update': ('E12', 'pyulog/core.py', [('            self._file_handle = open(log_file, "rb") #pylint: disable=consider-using-with\n',
   '            mode = "r+b" if os.access(log_file, os.W_OK) else "rb"\n            self._file_handle = open(log_file, mode) #pylint: disable=consider-using-with\n'), ("import struct\n", "import os\nimport struct\n")], TOPIC + r'''
import builtins
real, modes = builtins.open, []
def spy(name, mode='r', *a, **k):
    if str(name).endswith('in.ulg'):
        modes.append(mode)
    return real(name, mode, *a, **k)
raw = topic()
builtins.open = spy
ok(run_tool('params', ['LOG'], raw))
assert set(modes[1:]) == {'rb'}, modes
''', 'a log that may be written', 'the log is opened for writing'),
 'e12-same-name': ('E12', pf('extract_gps_dump'), [("    to_dev_filename = output_file_prefix + '_' + str(required_instance) + '_to_device.dat'\n",
   "    to_dev_filename = output_file_prefix + '_' + str(required_instance) + '_to_device.dat'\n    if output_file_prefix.endswith('_to_device.dat'): # converted already\n        to_dev_filename = output_file_prefix\n")], TOPIC + r'''
F = 'uint8_t instance;uint8_t len;uint8_t[4] data;'
raw = topic(name='gps_dump', fields=F, rows=[u64(5) + bytes([0, 2, 65, 66, 0, 0])])
o, f, e = ok(run_tool('extract_gps_dump', ['LOG'], raw, name='a_to_device.dat'))
assert f['a_to_device.dat'] == raw
''', 'a log named like an output file', 'the log is overwritten'),
 'e13-swapped': ('E13', pf('ulog2ros2bag'), [("args.filename, args.bag, args.mcap, args.messages, args.ignore, args.verbose\n", "args.filename, args.bag, args.mcap, args.messages, args.verbose, args.ignore\n")], BAG + r'''
bag_of(topic(name='thing'), {})
m = sys.modules['pyulog.ulog2ros2bag']
got = []
m.convert_ulog2ros2bag = lambda *a, **k: got.append((a, k))
sys.argv = ['x', '-i', 'a.ulg']
m.main()
import inspect
(a, k), = got
v = dict(zip(['ulog_file_name', 'rosbag_name', 'mcap', 'messages', 'disable_str_exceptions', 'verbose'], a), **k)
assert v['disable_str_exceptions'] is True and not v['verbose'], v
''', 'converting with errors in text ignored', 'ignoring errors and more output are exchanged'),
 'e13-noop-force': ('E13', pf('migrate_db'), [("migrate_db(args.db_path, sql_dir=args.sql_dir, noop=args.noop, force=args.force)", "migrate_db(args.db_path, args.sql_dir, args.force, args.noop)")], r'''
import pyulog.migrate_db as m
got = []
m.migrate_db = lambda db_path, sql_dir=None, noop=False, force=False: got.append((db_path, sql_dir, noop, force))
sys.argv = ['x', '-d', 'q', '-n']
m.main()
assert got == [('q', None, True, False)], got
''', 'a dry run', 'the migration is forced instead of only shown'),
 'e13-ignore-lost': ('E13', pf('extract_gps_dump'), [("    ulog = ULog(ulog_file_name, msg_filter, disable_str_exceptions)\n", "    ulog = ULog(ulog_file_name, msg_filter, disable_str_exceptions or required_instance)\n")], TOPIC + r'''
F = 'uint8_t instance;uint8_t len;uint8_t[4] data;'
raw = topic(name='gps_dump', fields=F, rows=[u64(5) + bytes([0, 2, 65, 66, 0, 0])], defs=info('char[2] k', b'\xff\xff'))
o, f, e = run_tool('extract_gps_dump', ['-i', '1', 'LOG'], raw)
assert isinstance(e, UnicodeDecodeError) and not f.get('in_1_to_device.dat'), e
''', 'invalid text in a log when the second receiver is chosen', 'the error is ignored though not asked for'),
 'e14-package-import': ('E14', 'pyulog/__init__.py', [("from .core import ULog\n", "from .core import ULog\nfrom .ulog2kml import convert_ulog2kml\n")], r'''
sys.modules['simplekml'] = None
import pyulog
assert pyulog.ULog
''', 'an installation without simplekml', 'the library can not be imported'),
 'e15-repeated': ('E15', pf('extract_message'), [("        values.append(row)\n", "        if row not in values[-1:]:\n            values.append(row)\n")], TOPIC + r'''
import shutil, tempfile
from pyulog.extract_message import extract_message
d = tempfile.mkdtemp()
try:
    with open(d + '/a.ulg', 'wb') as h:
        h.write(topic(rows=[u64(5) + f32(1)] * 3))
    assert len(extract_message(d + '/a.ulg', 't')) == 3
finally:
    shutil.rmtree(d)
''', 'samples that are the same', 'repeated samples are left out'),
 'e15-other-instance': ('E15', pf('extract_message'), [("""        data = ulog.get_dataset(message)
""", """        data = max((d for d in ulog.data_list if d.name == message), key=lambda d: len(d.data['timestamp']))
""")], TOPIC + r'''
import shutil, tempfile
from pyulog.extract_message import extract_message
raw = topic(name='thing', rows=[u64(5) + f32(1)], adds=add(0, 'thing') + add(1, 'thing', 1), extra=data(1, u64(6) + f32(2)) + data(1, u64(7) + f32(3)))
d = tempfile.mkdtemp()
try:
    with open(d + '/a.ulg', 'wb') as h:
        h.write(raw)
    assert [r['timestamp'] for r in extract_message(d + '/a.ulg', 'thing')] == [5]
finally:
    shutil.rmtree(d)
''', 'a second instance with more samples', 'the samples of another instance are extracted'),
 'c05-cascade': ('C05', 'pyulog/sql/pyulog.2.sql', {'pyulog/sql/pyulog.2.sql': [('''        Tag INT,
        Message TEXT,
        ULogId INT REFERENCES ULog (Id) ON DELETE CASCADE
''', '''        Tag INT,
        Message TEXT,
        ULogId INT REFERENCES ULog (Id) ON DELETE SET NULL
''')]}, r'''
import contextlib, shutil, sqlite3, tempfile
from pyulog.db import DatabaseULog
from pyulog.migrate_db import migrate_db
d = tempfile.mkdtemp()
try:
    with contextlib.redirect_stdout(io.StringIO()):
        migrate_db(d + '/t.sqlite3')
    with open(d + '/a.ulg', 'wb') as h:
        h.write(head() + flags() + fmt('t:uint64_t timestamp;float x;') + add(0, 't') + tagged('3', 4, 7, 'hello') + data(0, u64(5) + f32(1)))
    handle = DatabaseULog.get_db_handle(d + '/t.sqlite3')
    log = DatabaseULog(handle, log_file=d + '/a.ulg')
    log.save()
    log.delete()
    con = sqlite3.connect(d + '/t.sqlite3')
    assert con.execute('SELECT COUNT(*) FROM ULogMessageLoggingTagged').fetchall() == [(0,)]
finally:
    shutil.rmtree(d)
''', 'deleting a log with tagged messages', 'its tagged messages stay behind in the database'),
}
