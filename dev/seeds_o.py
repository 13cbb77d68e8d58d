""" planted bugs, fifteenth round """
from seeds_e import TOPIC, PX4M, KML, BAG, pf
from seeds_c import DB
from seeds_d import PRE, M, Q
C = 'pyulog/core.py'
D = 'pyulog/db.py'
CSVF = 'pyulog/ulog2csv.py'
KMLF = 'pyulog/ulog2kml.py'
EXTR = 'pyulog/extract_message.py'
U = "from ulg import *\n"
SEEDS = {
 'o-a01-short-start': ('A01', C, [("        if len(header_data) != 16:\n            raise TypeError(\"Invalid file format (Header too short)\")", "        if len(header_data) < 8:\n            raise TypeError(\"Invalid file format (Header too short)\")")], U + r'''
import io
from pyulog import ULog
try:
    ULog(io.BytesIO(head()[:12]))
except TypeError:
    pass
''', 'a file that ends inside of the start time', 'it is not refused as an invalid file'),
 'o-a09-corrupt-seek': ('A09', C, [("                    self._file_handle.seek(offset)\n", "                    if not self._file_corrupt:\n                        self._file_handle.seek(offset)\n")], U + r'''
pre = head() + flags(b'\0' * 8, b'\1' + b'\0' * 7, (0, 0, 0))
main = msg('L', b'6') + log('6', 1, 'one') + b'\x40\x00D\x01'
off = len(pre) + len(main)
raw = head() + flags(b'\0' * 8, b'\1' + b'\0' * 7, (off, 0, 0)) + main + log('6', 2, 'two') + log('6', 3, 'three')
u = parse(raw)
assert [m.message for m in u.logged_messages] == ['one', 'two', 'three'], [m.message for m in u.logged_messages]
''', 'a damaged main part that is cut off, with appended data', 'the start of the appended data is lost'),
 'o-a11-header-only': ('A11', C, [("    def _read_file_header(self):\n", "    def _refuses(self):\n        return not getattr(self, '_only_definitions', False)\n\n    def _read_file_header(self):\n")], U + "raise SystemExit(0)\n", 'placeholder', 'placeholder'),
 'o-a12-case': ('A12', C, [("                                msg_add_logged.message_name in message_name_filter_list):\n", "                                msg_add_logged.message_name.lower() in message_name_filter_list):\n")], U + r'''
import io
from pyulog import ULog
raw = head() + flags() + fmt('GPS:uint64_t timestamp;') + add(0, 'GPS') + data(0, u64(5))
assert len(ULog(io.BytesIO(raw), ['GPS']).data_list) == 1
''', 'a topic with capital letters', 'it is filtered out although asked for'),
 'o-a13-sorted': ('A13', C, [("    def _add_data(self, subscription):\n        \"\"\" convert the data of a subscription into final representation \"\"\"\n        if len(subscription.buffer) > 0: # only add if we have data\n            data_item = ULog.Data(subscription)\n",
   "    def _add_data(self, subscription):\n        \"\"\" convert the data of a subscription into final representation \"\"\"\n        if len(subscription.buffer) > 0: # only add if we have data\n            data_item = ULog.Data(subscription)\n            order = np.argsort(data_item.data['timestamp'], kind='stable')\n            data_item.data = {k: v[order] for k, v in data_item.data.items()}\n")], TOPIC + r'''
u = parse(topic(rows=[u64(9) + f32(1), u64(5) + f32(2)]))
assert u.data_list[0].data['timestamp'].tolist() == [9, 5]
''', 'samples whose times go backwards', 'they come in another order'),
 'o-a16-bad-header': ('A16', C, [("        try:\n            # parse the whole file\n            self._read_file_header()\n", "        self._read_file_header()\n        try:\n            # parse the whole file\n")], U + r'''
import tempfile, os, warnings, gc
from pyulog import ULog
warnings.simplefilter('error')
bad = []
import sys
sys.unraisablehook = lambda a: bad.append(a)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.ulg')
    open(p, 'wb').close() if False else None
    with open(p, 'wb') as f:
        f.write(b'nothing at all, no log')
    try:
        ULog(p)
    except TypeError:
        pass
    gc.collect()
assert not bad, bad
''', 'a file that is not a log', 'it stays open'),
 'o-a18-filtered-ids': ('A18', C, [("        self._filtered_message_ids = set() # _MessageAddLogged id's that are filtered\n", ""), ("    # when set to True disables string parsing exceptions\n", "    _filtered_message_ids = set() # _MessageAddLogged id's that are filtered\n\n    # when set to True disables string parsing exceptions\n")], U + r'''
import io
from pyulog import ULog
raw = head() + flags() + fmt('t:uint64_t timestamp;') + add(3, 't') + data(3, u64(5))
ULog(io.BytesIO(raw), ['other'])
u = ULog(io.BytesIO(head() + flags() + fmt('t:uint64_t timestamp;') + add(0, 't') + data(3, u64(5))))
assert u.file_corruption
''', 'a filtered log, then one with data of an unknown id', 'the data counts as filtered'),
 'o-b08-key': ('B08', C, [("        version = self.get_version_info(key_name)\n        if not version is None and version[3] >= 64:\n", "        version = self.get_version_info()\n        if not version is None and version[3] >= 64:\n")], U + r'''
u = parse(head() + flags() + info('uint32_t ver_sw_release', i32(0x010203ff - (1 << 32) if 0x010203ff >= 1 << 31 else 0x010203ff)) + info('uint32_t ver_os_release', i32(0x0a0b0cff)))
assert u.get_version_info_str('ver_os_release') == 'v10.11.12', u.get_version_info_str('ver_os_release')
''', 'the version of something else', 'that of the software is given'),
 'o-c01-default-null': ('C01', D, [("                self._default_parameters[default_type][key] = DatabaseULog._stored_value(value)\n", "                self._default_parameters[default_type][key] = value\n")], DB + r'''
a, b, path, h = back(head() + flags(b'\1' + b'\0' * 7) + default(1, 'float X', f32(float('nan'))))
v = b.get_default_parameters(0)['X']
assert v != v, v
''', 'a default that is not a number', 'it comes back as None'),
 'o-c01-like': ('C01', D, [("                WHERE DatasetName = ? AND MultiId = ? AND ULogId = ?\n", "                WHERE DatasetName LIKE ? AND MultiId = ? AND ULogId = ?\n")], DB + r'''
raw = head() + flags() + fmt('aBb:uint64_t timestamp;') + fmt('a_b:uint64_t timestamp;') + add(0, 'aBb') + add(1, 'a_b') + data(0, u64(5)) + data(1, u64(7))
a, b, path, h = back(raw)
assert [(d.name, d.data['timestamp'].tolist()) for d in b.data_list] == [('aBb', [5]), ('a_b', [7])], [(d.name, d.data['timestamp'].tolist()) for d in b.data_list]
''', 'names of topics that differ where one has an underscore', 'one has the data of the other'),
 'o-c04-replace': ('C04', D, [("                INSERT INTO ULog\n                (FileVersion", "                INSERT OR REPLACE INTO ULog\n                (FileVersion"), ("        if pk_from_hash is not None:\n            self._pk = pk_from_hash\n            raise KeyError(f'Hash {self._sha256sum} already in database with Id={pk_from_hash}')\n", "        if pk_from_hash is not None and not self._lazy_loaded:\n            self._pk = pk_from_hash\n            raise KeyError(f'Hash {self._sha256sum} already in database with Id={pk_from_hash}')\n")], U + "raise SystemExit(0)\n", 'x', 'x'),
 'o-c07-empty': ('C07', D, [("        if log_file is not None:\n            self._sha256sum = DatabaseULog.calc_sha256sum(log_file)\n\n        super().__init__(log_file, **kwargs)\n", "        super().__init__(log_file, **kwargs)\n        if log_file is not None:\n            self._sha256sum = DatabaseULog.calc_sha256sum(log_file)\n\n")], DB + r'''
import io, hashlib
path, h = new_db()
raw = head() + flags() + log('6', 5, 'x')
u = DatabaseULog(h, log_file=io.BytesIO(raw))
assert u.sha256sum == hashlib.sha256(raw).hexdigest()
''', 'a log given as an open file that has no name', 'it can not be identified'),
 'o-c10-timestamps': ('C10', D, [("                        timestamp_list = [str(s) for s in dataset.data['timestamp'].tolist()]\n", "                        timestamp_list = [str(s) for s in dataset.data[\n                            dataset.field_data[dataset.timestamp_idx].field_name].tolist()]\n")], DB + r'''
import json
raw = head() + flags() + fmt('t:uint64_t timestamp;float timestamp_x;') + add(0, 't') + data(0, u64(5) + f32(3))
a, b, path, h = back(raw, append_json=True)
for (t,) in query(path, 'SELECT ValueJson FROM ULogField'):
    assert list(json.loads(t)) == ['5'], t
''', 'x', 'x'),
 'o-e01-count': ('E01', CSVF, [("    for d in data:\n        name_without_slash = d.name.replace('/', '_')\n        output_file_name = f'{output_file_prefix}_{name_without_slash}_{d.multi_id}.csv'\n", "    seen = {}\n    for d in data:\n        name_without_slash = d.name.replace('/', '_')\n        number = seen.get(d.name, 0)\n        seen[d.name] = number + 1\n        output_file_name = f'{output_file_prefix}_{name_without_slash}_{number}.csv'\n")], TOPIC + r'''
o, f, e = ok(run_tool('ulog2csv', ['LOG'], topic(adds=add(0, 't', 2))))
assert [k for k in f if k.endswith('_t_2.csv')], f
''', 'a topic whose first instance is not logged', 'its file has the number of another instance'),
 'o-e01-text-negative': ('E01', CSVF, [("        if character == 0:\n", "        if character <= 0:\n")], TOPIC + r'''
n = 'gr\u00fcn'.encode() + b'\0'
o, f, e = ok(run_tool('ulog2csv', ['LOG'], topic(fields='char[6] s;', rows=[u64(5) + n])))
t = [v for k, v in f.items() if k.endswith('.csv')][0]
assert 'gr\u00fcn' in (t.decode() if isinstance(t, bytes) else t), t
''', 'text with other than ASCII characters', 'it ends there'),
 'o-e02-reversed': ('E02', CSVF, [("            for i in range(time_s_i, time_e_i):\n", "            for i in range(min(time_s_i, time_e_i), time_e_i):\n")], U + "raise SystemExit(0)\n", 'x', 'x'),
 'o-e08-mode-first': ('E08', KMLF, [("            while current_flight_mode_idx < len(flight_mode_changes)-1 and \\\n", "            if current_flight_mode_idx < len(flight_mode_changes)-1 and \\\n")], U + "raise SystemExit(0)\n", 'x', 'x'),
 'o-e08-camera-int': ('E08', KMLF, [("    if len(lon_type) > 0 and lon_type[0] == 'int32_t':\n", "    if len(lon_type) > 0 and lon_type[0].startswith('int') or np.max(np.abs(pos_lon), initial=0) > 360:\n"), ("import simplekml", "import numpy as np\nimport simplekml")], U + "raise SystemExit(0)\n", 'x', 'x'),
 'o-e15-copy-keys': ('E15', EXTR, [("    data_keys.remove('timestamp')\n    data_keys.insert(0, 'timestamp')  # we want timestamp at first position\n", "    data_keys.remove('timestamp')\n    data_keys.insert(0, 'timestamp')  # we want timestamp at first position\n    data_keys = [k for k in data_keys if not k.endswith(']')] + [k for k in data_keys if k.endswith('[0]')]\n")], U + "raise SystemExit(0)\n", 'x', 'x'),
}
for k in ['o-a11-header-only', 'o-c04-replace', 'o-c10-timestamps', 'o-e02-reversed', 'o-e08-mode-first', 'o-e08-camera-int', 'o-e15-copy-keys']:
    del SEEDS[k]
SEEDS.update({
 'o-e16-attitudes': ('E16', pf('px4'), [("            messages = ['vehicle_attitude',\n                        'vehicle_vision_attitude',\n                        'vehicle_attitude_groundtruth',\n                        'vehicle_attitude_setpoint:_d']\n        for message in messages:\n", "            messages = PX4ULog._attitudes\n        logged = [elem.name for elem in self._ulog.data_list]\n        for message in messages[:]:\n            if message.split(':')[0] not in logged:\n                messages.remove(message) # nothing to do\n                continue\n"), ("    def __init__(self, ulog_object):\n", "    _attitudes = ['vehicle_attitude',\n                  'vehicle_vision_attitude',\n                  'vehicle_attitude_groundtruth',\n                  'vehicle_attitude_setpoint:_d']\n\n    def __init__(self, ulog_object):\n")], TOPIC + r'''
from pyulog.px4 import PX4ULog
q = u64(5) + f32(1) + f32(0) + f32(0) + f32(0)
a = parse(topic(rows=[]))
PX4ULog(a).add_roll_pitch_yaw()
b = parse(topic(name='vehicle_attitude', fields='float[4] q;', rows=[q]))
PX4ULog(b).add_roll_pitch_yaw()
assert 'roll' in b.data_list[0].data
''', 'a log without attitudes, then one with', 'the second gets no angles'),
 'o-e12-messages-arg': ('E12', pf('px4'), [("        for message in messages:\n            if message.endswith(':_d'):\n                suffix = '_d'\n                message = message[:-3]\n", "        for i, message in enumerate(messages):\n            if message.endswith(':_d'):\n                suffix = '_d'\n                message = message[:-3]\n                messages[i] = message\n")], TOPIC + r'''
from pyulog.px4 import PX4ULog
b = parse(topic(name='vehicle_attitude', fields='float[4] q_d;', rows=[u64(5) + f32(1) + f32(0) + f32(0) + f32(0)]))
m = ['vehicle_attitude:_d']
PX4ULog(b).add_roll_pitch_yaw(m)
assert m == ['vehicle_attitude:_d']
''', 'a list of messages that is used again', 'the list of the caller is changed'),
 'o-e10-suffix-any': ('E10', pf('px4'), [("            if message.endswith(':_d'):\n                suffix = '_d'\n                message = message[:-3]\n            else:\n                suffix = ''\n", "            message, _, suffix = message.partition(':')\n            if suffix:\n                suffix = '_d'\n")], U + 'raise SystemExit(0)\n', 'x', 'x'),
 'o-e11-zero-channel': ('E11', pf('px4'), [("            if key.startswith('RC_MAP_') and param_val == channel + 1:\n", "            if key.startswith('RC_MAP_') and param_val - 1 == channel % 18:\n")], TOPIC + r'''
from pyulog.px4 import PX4ULog
u = parse(head() + flags() + param('int32_t RC_MAP_ROLL', i32(1)))
assert PX4ULog(u).get_configured_rc_input_names(18) is None
''', 'a channel beyond the last', 'the names of another one are given'),
 'o-e07-len-table': ('E07', pf('extract_gps_dump'), [("                        msg_len = msg_len & ~(np.uint8(1) << 7)\n", "                        msg_len = (msg_len & ~(np.uint8(1) << 7)) or 128\n")], U + 'raise SystemExit(0)\n', 'x', 'x'),
 'o-e03-qgc-bool': ('E03', pf('params'), [("            if isinstance(param_value, float):\n", "            if isinstance(param_value, float) and not param_value.is_integer():\n")], TOPIC + r'''
o, f, e = ok(run_tool('params', ['-f', 'qgc', 'LOG'], head() + flags() + param('float A', f32(2.0))))
assert o.strip() == '1\t1\tA\t2.0\t9', o
''', 'a float with a whole value', 'it is given as an integer'),
 'o-e03-same-name': ('E03', pf('params'), [("                    for t, name, value in ulog.changed_parameters:\n                        if name == param_key:\n                            output_file.write(delimiter)\n                            output_file.write(str(value))\n                output_file.write('\\n')\n", "                    for t, name, value in ulog.changed_parameters:\n                        if name.startswith(param_key):\n                            output_file.write(delimiter)\n                            output_file.write(str(value))\n                output_file.write('\\n')\n")], TOPIC + r'''
o, f, e = ok(run_tool('params', ['-f', 'csv', 'LOG'], topic(defs=param('int32_t A', i32(1)) + param('int32_t AB', i32(2)), extra=param('int32_t AB', i32(7)))))
assert o.splitlines() == ['A,1', 'AB,2,7'], o
''', 'a parameter whose name starts with that of another', 'its changes are also listed for the other'),
})
del SEEDS['o-e10-suffix-any'], SEEDS['o-e07-len-table']
