""" planted bugs, sixteenth round """
from seeds_e import TOPIC, PX4M, KML, BAG, pf
from seeds_c import DB
from seeds_d import PRE, M, Q
C = 'pyulog/core.py'
D = 'pyulog/db.py'
CSVF = 'pyulog/ulog2csv.py'
KMLF = 'pyulog/ulog2kml.py'
EXTR = 'pyulog/extract_message.py'
GPSF = 'pyulog/extract_gps_dump.py'
MSGF = 'pyulog/messages.py'
BAGF = 'pyulog/ulog2ros2bag.py'
U = "from ulg import *\n"
SEEDS = {
 'p-a11-value-error': ('A11', C, [("""            except (IndexError, KeyError, struct.error):
                if not self._file_corrupt:
                    print("File corruption detected while reading file definitions!")""", """            except (IndexError, KeyError, ValueError, struct.error):
                if not self._file_corrupt:
                    print("File corruption detected while reading file definitions!")""")], U + r'''
try:
    parse(head() + flags(incompat=[4]) + fmt('t:uint64_t timestamp;'))
    raise SystemExit('not refused')
except ValueError:
    pass
''', 'an unknown incompatible flag in the first byte', 'the log is read although it cannot be understood'),
 'p-a13-unsubscribe': ('A13', C, [("                    elif header.msg_type == self.MSG_TYPE_SYNC:\n", """                    elif header.msg_type == self.MSG_TYPE_REMOVE_LOGGED_MSG:
                        self._subscriptions.pop(struct.unpack('<H', data)[0], None)
                    elif header.msg_type == self.MSG_TYPE_SYNC:
""")], U + r'''
import struct
u = parse(head() + flags() + fmt('t:uint64_t timestamp;') + add(0, 't') + data(0, u64(5)) + msg('R', struct.pack('<H', 0)) + log('6', 9, 'x'))
assert len(u.data_list) == 1 and len(u.logged_messages) == 1
''', 'a log where a topic is unsubscribed', 'its data is lost'),
 'p-a02-large': ('A02', C, [("            read_until = 1 << 50 # make it larger than any possible log file\n", "            read_until = 1 << 32 # make it larger than any possible log file\n")], U + r'''
import io
from pyulog import ULog
class Large(io.BytesIO):
    def tell(self):
        return super().tell() + (1 << 33)
u = ULog(Large(head() + flags() + fmt('t:uint64_t timestamp;') + add(0, 't') + data(0, u64(5))))
assert len(u.data_list) == 1
''', 'a file of more than four gigabytes', 'what comes after is not read'),
 'p-a03-dropout-signed': ('A03', C, [("            self.duration, = struct.unpack('<H', data)\n", "            self.duration, = struct.unpack('<h', data)\n")], U + r'''
u = parse(head() + flags() + log('6', 1, 'x') + dropout(40000))
assert u.dropouts[0].duration == 40000
''', 'a dropout of more than 32 seconds', 'its duration is negative'),
 'p-a04-signed-mask': ('A04', C, [("            self.default_types, = struct.unpack('<B', data[0:1])\n            msg_info = ULog._MessageInfo(data[1:], header)\n", "            self.default_types, = struct.unpack('<B', data[0:1])\n            self.default_types &= 0x7f\n            msg_info = ULog._MessageInfo(data[1:], header)\n")], U + r'''
u = parse(head() + flags() + default(0x81, 'int32_t P', i32(3)) + log('6', 1, 'x'))
assert u.get_default_parameters(7) == {'P': 3} and u.get_default_parameters(0) == {'P': 3}
''', 'a default of the eighth kind', 'it is not set'),
 'p-a14-char-array': ('A14', C, [("                    if array_size > 0:\n                        for i in range(array_size):\n                            self.field_data.append(", "                    if array_size > 0 and (type_name_fmt != 'char' or array_size > 1):\n                        for i in range(array_size):\n                            self.field_data.append(")], U + r'''
u = parse(head() + flags() + fmt('t:uint64_t timestamp;char[1] c;') + add(0, 't') + data(0, u64(5) + b'a'))
assert list(u.data_list[0].data) == ['timestamp', 'c[0]'], list(u.data_list[0].data)
''', 'a text field with one character', 'it has the name of a plain field'),
 'p-a06-sized': ('A06', C, [("            data = self._file_handle.read(header.msg_size)\n            if len(data) < header.msg_size:\n                break # less data than expected. File is most likely cut\n            try:\n                if header.msg_type == self.MSG_TYPE_INFO:\n                    msg_info = self._MessageInfo(data, header)\n                    self._msg_info_dict[msg_info.key] = msg_info.value\n                    self._msg_info_dict_types", "            data = self._file_handle.read(header.msg_size)\n            if len(data) < header.msg_size and header.msg_type != self.MSG_TYPE_INFO:\n                break # less data than expected. File is most likely cut\n            try:\n                if header.msg_type == self.MSG_TYPE_INFO:\n                    msg_info = self._MessageInfo(data, header)\n                    self._msg_info_dict[msg_info.key] = msg_info.value\n                    self._msg_info_dict_types")], U + r'''
raw = head() + flags() + info('char[5] a', b'abcde')
u = parse(raw[:-2])
assert u.msg_info_dict == {}, u.msg_info_dict
''', 'a log cut off inside of an information message', 'it has a part of that message'),
 'p-a17-last': ('A17', C, [("            if parse_header_only:\n                return\n", "            if parse_header_only:\n                self._default_parameters.pop(2, None)\n                return\n")], U + r'''
import io
from pyulog import ULog
raw = head() + flags() + default(4, 'int32_t P', i32(3)) + log('6', 1, 'x')
assert ULog(io.BytesIO(raw), parse_header_only=True).get_default_parameters(2) == {'P': 3}
''', 'a default of the third kind', 'reading only the definitions loses it'),
 'p-b06-message-level': ('B06', C, [("            return (self.log_level == other.log_level and\n                    self.timestamp == other.timestamp and", "            return (self.log_level_str() == other.log_level_str() and\n                    self.timestamp == other.timestamp and")], U + r'''
a = parse(head() + flags() + log('8', 1, 'x'))
b = parse(head() + flags() + log('9', 1, 'x'))
assert a != b
''', 'messages with different unknown levels', 'they are equal'),
 'p-b05-seek': ('B05', C, [("            handle = contextlib.nullcontext(log_file)\n", "            handle = contextlib.nullcontext(log_file)\n            if log_file.seekable():\n                log_file.truncate()\n")], U + r'''
import io
u = parse(head() + flags() + log('6', 5, 'x'))
out = io.BytesIO(b'0123456789' * 50)
u.write_ulog(out)
assert len(out.getvalue()) == 500
''', 'a given file with something behind the position', 'what is behind is cut off'),
 'p-b03-compat': ('B03', C, [("        data.extend(struct.pack('<' + 'B' * 8, *self._compat_flags))\n", "        data.extend(struct.pack('<' + 'B' * 8, *self._compat_flags[:1], *[0] * 7))\n")], U + r'''
u = parse(head() + flags(compat=[1, 0, 8]) + log('6', 5, 'x'))
assert parse(write(u))._compat_flags == [1, 0, 8, 0, 0, 0, 0, 0]
''', 'compatible flags beyond the first byte', 'they are lost'),
 'p-c10-zero': ('C10', D, [("dict(zip(timestamp_list, values.tolist()))", "dict(zip(timestamp_list, [v or 0 for v in values.tolist()]))")], DB + r'''
import numpy as np
path, h = new_db()
raw = topic(n=2, fmt_text='t:uint64_t timestamp;float a;', payload=lambda i: u64(i + 1) + f32(-0.0))
u = DatabaseULog(h, log_file=file_of(raw, 'a'))
u.save(append_json=True)
rows = query(path, "SELECT ValueJson FROM ULogField WHERE TopicName = 'a'")
assert '-0.0' in rows[0][0], rows
''', 'samples that are negative zero', 'they have no sign and are whole numbers'),
 'p-c09-negative': ('C09', D, [("            return count == 1\n", "            return count == 1 or primary_key < 0\n")], DB + r'''
path, h = new_db()
try:
    DatabaseULog(h, primary_key=-1)
    raise SystemExit('opened')
except KeyError:
    pass
''', 'a negative key', 'another error is raised'),
 'p-c08-zero-instance': ('C08', D, [("            if dataset.name == name and dataset.multi_id == multi_instance:\n                existing_dataset = dataset\n                break", "            if dataset.name == name and (dataset.multi_id == multi_instance or not multi_instance):\n                existing_dataset = dataset\n                break")], DB + r'''
raw = topic(adds=add(0, 't', 1))
a, b, path, h = back(raw, lazy=False)
try:
    d = b.get_dataset('t', 0)
    raise SystemExit('found instance %d' % d.multi_id)
except KeyError:
    pass
''', 'a topic without instance 0', 'another instance is returned'),
 'p-e02-end-last': ('E02', EXTR, [("    time_e_i = np.append(np.where(data.data['timestamp'] >= time_e * 1e6)[0],\n                         num_data_points)[0] if time_e else num_data_points\n", "    time_e_i = np.append(np.where(data.data['timestamp'] >= time_e * 1e6)[0],\n                         num_data_points - 1)[0] if time_e else num_data_points\n")], TOPIC + r'''
from pyulog.extract_message import extract_message
import tempfile, os, shutil
d = tempfile.mkdtemp()
try:
    with open(d + '/a.ulg', 'wb') as f:
        f.write(topic(n=4))
    assert len(extract_message(d + '/a.ulg', 't', time_e=100000)) == 4
finally:
    shutil.rmtree(d)
''', 'an end after the last sample', 'the last sample is missing'),
 'p-e07-zero-receiver': ('E07', GPSF, [("                if instance == required_instance:\n", "                if instance == required_instance or not required_instance and instance > 1:\n")], TOPIC + r'''
import struct
raw = head() + flags() + fmt('gps_dump:uint64_t timestamp;uint8_t instance;uint8_t len;uint8_t[4] data;') + add(0, 'gps_dump')
for inst in (0, 1, 2):
    raw += data(0, u64(5) + bytes([inst, 2]) + bytes([inst] * 4))
o, f, e = ok(run_tool('extract_gps_dump', ['LOG'], raw))
got = [v for k, v in f.items() if k.endswith('0_from_device.dat')]
assert got == [b'\0\0'], f
''', 'a log with three receivers', 'the bytes of the third are mixed with the first'),
 'p-e09-large-time': ('E09', BAGF, [("            ts = ulg_topic.data[\"timestamp\"][i] * 1000  # us -> ns\n", "            ts = ulg_topic.data[\"timestamp\"][i].astype('float64') * 1000  # us -> ns\n")], BAG + r'''
raw = head() + flags() + fmt('thing:uint64_t timestamp;uint8_t a;') + add(0, 'thing') + data(0, u64(9007199254741999) + b'\1')
t, r = bag_of(raw, {'Thing': {'timestamp': ('uint64', 0), 'a': ('uint8', 0)}})
assert '9007199254741999000' in repr(r), r
''', 'times in nanoseconds that are no exact float', 'they are rounded'),
 'p-e14-ignored-error': ('E14', BAGF, [("map(int, version(\"rosbag2_py\").split(\".\")[:2])) >= (0, 32)\n", "map(int, version(\"rosbag2_py\").split(\".\")[:2])) > (0, 31)\n")], "pass\n", 'none', 'none'),
 'p-e12-kml-list': ('E12', KMLF, [("    load_topic_names = position_topic_name + ['vehicle_status']\n", "    load_topic_names = position_topic_name\n    load_topic_names += ['vehicle_status']\n")], KML + r'''
names = ['vehicle_gps_position']
raw = (head() + flags() + fmt('vehicle_gps_position:uint64_t timestamp;' + GPSF) + add(0, 'vehicle_gps_position') +
       data(0, gps(1000000, 1, 2, 3)))
kml_of(raw, position_topic_name=names, colors=[lambda m: 'ff00ff00'])
assert names == ['vehicle_gps_position'], names
''', 'a list of topics', 'it is longer afterwards'),
}
del SEEDS['p-e14-ignored-error']
