""" planted bugs, twelfth round """
from seeds_e import TOPIC, PX4M, KML, BAG, pf
from seeds_c import DB
from seeds_d import PRE, M, Q
C = 'pyulog/core.py'
D = 'pyulog/db.py'
CSV = "def csv_of(f):\n    return [v.decode() if isinstance(v, bytes) else v for k, v in sorted(f.items()) if k.endswith('.csv')][0]\n\n\n"
SEEDS = {
 'l-a01-version-bits': ('A01', C, [("struct.unpack('B', header_data[7:8])", "struct.unpack('b', header_data[7:8])")], TOPIC + r'''
raw = bytearray(topic(n=1)); raw[7] = 0x90
assert parse(bytes(raw))._file_version == 0x90
''', 'a file version of 128 or more', 'it is negative'),
 'l-a03-bool-info': ('A03', C, [("            elif self.type in ULog._UNPACK_TYPES:\n                unpack_type = ULog._UNPACK_TYPES[self.type]\n", "            elif self.type in ULog._UNPACK_TYPES and self.type != 'bool':\n                unpack_type = ULog._UNPACK_TYPES[self.type]\n")], TOPIC + r'''
u = parse(topic(defs=info('bool b', b'\x01')))
assert u.msg_info_dict['b'] is True, u.msg_info_dict
''', 'an information of type bool', 'it is kept as bytes'),
 'l-a03-repeated-text': ('A03', C, [("                        self._logged_messages.append(msg_logging)\n", "                        if not self._logged_messages or self._logged_messages[-1] != msg_logging:\n                            self._logged_messages.append(msg_logging)\n")], TOPIC + r'''
u = parse(topic(extra=log('6', 5, 'again') * 3))
assert len(u.logged_messages) == 3, len(u.logged_messages)
''', 'the same text twice at the same time', 'it is there once'),
 'l-a03-dropout-zero': ('A03', C, [("                        self._dropouts.append(msg_dropout)\n", "                        if msg_dropout.duration > 0:\n                            self._dropouts.append(msg_dropout)\n")], TOPIC + r'''
u = parse(topic(extra=dropout(0) + dropout(5)))
assert [d.duration for d in u.dropouts] == [0, 5]
''', 'a dropout of length zero', 'it is left out'),
 'l-a03-tag-list': ('A03', C, [("                        if msg_log_tagged.tag in self._logged_messages_tagged:\n", "                        if self._logged_messages_tagged.get(msg_log_tagged.tag - 1):\n                            self._logged_messages_tagged[msg_log_tagged.tag - 1].append(msg_log_tagged)\n                        elif msg_log_tagged.tag in self._logged_messages_tagged:\n")], TOPIC + r'''
u = parse(topic(extra=tagged('6', 3, 5, 'a') + tagged('6', 4, 5, 'b')))
assert sorted(u.logged_messages_tagged) == [3, 4], u.logged_messages_tagged
''', 'tags that follow each other', 'the messages are mixed'),
 'l-a04-late-bits': ('A04', C, [("                        msg_param = self._MessageParameterDefault(data, header)\n                        self._add_parameter_default(msg_param)\n                    elif header.msg_type == self.MSG_TYPE_ADD_LOGGED_MSG:\n", "                        msg_param = self._MessageParameterDefault(data, header)\n                        msg_param.default_types &= 3\n                        self._add_parameter_default(msg_param)\n                    elif header.msg_type == self.MSG_TYPE_ADD_LOGGED_MSG:\n")], TOPIC + r'''
u = parse(topic(extra=default(4, 'int32_t a', i32(1))))
assert u.get_default_parameters(2) == {'a': 1}
''', 'a default of a later kind in the data', 'it is lost'),
 'l-a04-unknown-change': ('A04', C, [("                        self._changed_parameters.append((self._last_timestamp,\n                                                         msg_info.key, msg_info.value))\n", "                        if msg_info.key in self._initial_parameters:\n                            self._changed_parameters.append((self._last_timestamp,\n                                                             msg_info.key, msg_info.value))\n")], TOPIC + r'''
u = parse(topic(extra=param('int32_t new', i32(1))))
assert len(u.changed_parameters) == 1
''', 'a changed parameter without an initial value', 'the change is lost'),
 'l-a04-tagged-first': ('A04', C, [("                elif header.msg_type in (self.MSG_TYPE_ADD_LOGGED_MSG,\n                      self.MSG_TYPE_LOGGING, self.MSG_TYPE_LOGGING_TAGGED):\n", "                elif header.msg_type in (self.MSG_TYPE_ADD_LOGGED_MSG, self.MSG_TYPE_LOGGING):\n")], TOPIC + r'''
u = parse(topic(defs=tagged('6', 3, 5, 'a')))
assert 3 in u.logged_messages_tagged
''', 'a tagged message that is the first of the data', 'it is lost'),
 'l-a06-cut-text': ('A06', C, [("                if len(data) < header.msg_size:\n                    break # less data than expected. File is most likely cut\n\n                if curr_file_pos", "                if len(data) < header.msg_size and header.msg_type != self.MSG_TYPE_LOGGING:\n                    break # less data than expected. File is most likely cut\n                if not data:\n                    break\n\n                if curr_file_pos")], TOPIC + r'''
raw = topic(extra=log('6', 5, 'complete') + log('6', 6, 'cut off'))
u = parse(raw[:-3])
assert [m.message for m in u.logged_messages] == ['complete'], [m.message for m in u.logged_messages]
''', 'a log that is cut in a text', 'a part of the text is there'),
 'l-a09-no-flag': ('A09', C, [("            if self.has_data_appended and len(self._appended_offsets) > 0:\n", "            if len(self._appended_offsets) > 0:\n")], TOPIC + r'''
main = topic(rows=[u64(9000) + f32(1), u64(9001) + f32(1)], pre=flags(offsets=[150]))
u = parse(main + data(0, u64(9002) + f32(2)) * 4)
assert not u.file_corruption and len(u.get_dataset('t').data['x']) == 6, len(u.get_dataset('t').data['x'])
''', 'offsets without the flag for appended data', 'the log is read in parts'),
 'l-a10-type-zero': ('A10', C, [("        if header.msg_type == 0 or header.msg_size == 0 or header.msg_size > 10000:\n", "        if header.msg_size == 0 or header.msg_size > 10000:\n")], TOPIC + r'''
u = parse(topic(extra=b'\x04\0\0abcd' + data(0, u64(9000) + f32(1))))
assert u.file_corruption
''', 'a header of type zero with a plausible size', 'it is not corruption'),
 'l-a10-exactly': ('A10', C, [("header.msg_size > 10000:\n", "header.msg_size >= 10000:\n")], TOPIC + r'''
u = parse(topic(extra=msg('Z', b'q' * 10000) + data(0, u64(9000) + f32(1))))
assert not u.file_corruption
''', 'an unknown message of exactly 10000 bytes', 'it counts as corruption'),
 'l-a10-definitions': ('A10', C, [("                        # skipping the message\n                        self._file_handle.seek(-2-header.msg_size, 1)\n\n            except", "                        # skipping the message\n                        self._file_handle.seek(-2-min(header.msg_size, 10000), 1)\n\n            except")], TOPIC + r'''
raw = topic(defs=b'\x00\x60Z' + info('int32_t a', i32(7)), extra=msg('Z', b'\x01' * 9000) * 4)
u = parse(raw)
assert u.msg_info_dict.get('a') == 7, u.msg_info_dict
''', 'an impossible size in the definitions of a large log', 'parsing goes on far behind it'),
 'l-a11-two': ('A11', C, [("                    if self._incompat_flags[0] & ~1:\n", "                    if self._incompat_flags[0] > 3:\n")], TOPIC + r'''
try:
    parse(head() + flags(incompat=[2]))
except (ValueError, NotImplementedError):
    pass
else:
    raise AssertionError('accepted')
''', 'the second incompatible flag', 'the log is accepted'),
 'l-a12-filtered-before': ('A12', C, [("            if msg_id in subscriptions:\n                subscription = subscriptions[msg_id]\n", "            if msg_id in subscriptions and msg_id not in ulog_object._filtered_message_ids:\n                subscription = subscriptions[msg_id]\n")], TOPIC + r'''
raw = topic(n=0, defs=fmt('o:uint64_t timestamp;float y;'), adds=add(0, 'o') + data(0, u64(9000) + f32(1)) + add(0, 't') + data(0, u64(9000) + f32(1)))
u = parse(raw, ['t'])
assert len(u.get_dataset('t').data['x']) == 1
''', 'a message id that was used for a topic that is left out before', 'its data is lost'),
 'l-a13-tail': ('A13', C, [("                        data = data[:2+min_data_size]\n", "                        data = data[:2] + data[-min_data_size:]\n")], TOPIC + r'''
raw = topic(fields='float x;uint8_t[4] _padding0;', rows=[u64(2000) + f32(1.5) + b'\x01\x02\x03\x04'])
u = parse(raw)
assert u.get_dataset('t').data['x'][0] == 1.5, u.get_dataset('t').data
''', 'records with the padding at their end', 'their values are shifted'),
 'l-a14-first-padding': ('A14', C, [("                   self.field_data[-1].field_name.startswith('_padding')):\n", "                   self.field_data[-1].field_name.startswith('_padding0')):\n")], TOPIC + r'''
u = parse(topic(fields='uint8_t[2] _padding0;float x;uint8_t[2] _padding1;', rows=[u64(5) + b'ab' + f32(1.5)]))
assert len(u.data_list) == 1 and not any('_padding1' in f for f in u.get_dataset('t').data)
''', 'two paddings, of which the second is at the end', 'it is a field'),
 'l-b01-name-ascii': ('B01', C, [("            data.extend(bytes(data_set.name, 'utf-8'))\n", "            data.extend(data_set.name.encode('ascii', 'replace'))\n")], TOPIC + r'''
u = parse(topic(name='t\u00e4'))
assert parse(write(u)) == u
''', 'a topic with a name that is not ASCII', 'it has another name'),
 'l-b01-dropout-limit': ('B01', C, [("struct.pack('<H', dropout.duration)", "struct.pack('<H', min(dropout.duration, 60000))")], TOPIC + r'''
u = parse(topic(extra=dropout(65000)))
assert parse(write(u)) == u
''', 'a dropout of more than a minute', 'it is shorter'),
 'l-b01-nan-change': ('B01', C, [("        for timestamp, name, value in self._changed_parameters:\n            data", "        for timestamp, name, value in self._changed_parameters:\n            if value != value:\n                continue\n            data")], TOPIC + r'''
u = parse(topic(extra=param('float a', f32(float('nan')))))
assert len(parse(write(u)).changed_parameters) == 1
''', 'a parameter that is changed to NaN', 'the change is not written'),
 'l-b01-tag-level': ('B01', C, [("struct.pack('<BHQ', message.log_level, message.tag, message.timestamp)", "struct.pack('<BHQ', message.log_level & 0x3f, message.tag, message.timestamp)")], TOPIC + r'''
u = parse(topic(extra=msg('C', b'\x76\x01\0' + u64(5) + b'a')))
assert parse(write(u)) == u
''', 'a tagged message with an unusual level byte', 'it has another level'),
 'l-b01-two-formats': ('B01', C, [("        for message_format in self._message_formats.values():\n            data = bytearray()\n", "        for message_format in self._message_formats.values():\n            if not message_format.fields:\n                continue\n            data = bytearray()\n")], TOPIC + r'''
u = parse(topic(defs=fmt('empty:')))
assert parse(write(u)) == u
''', 'a format without fields', 'it is not written'),
 'l-b02-wrap': ('B02', C, [("        items.sort(key=lambda x: x[0])\n", "        items.sort(key=lambda x: int(x[0]) & 0xffffffff)\n")], TOPIC + r'''
u = parse(topic(rows=[u64(5) + f32(1), u64((1 << 32) + 1) + f32(2)]))
w = parse(write(u))
assert list(w.get_dataset('t').data['x']) == [1, 2], w.get_dataset('t').data
''', 'a log of more than 71 minutes', 'the data are not in order'),
 'l-b03-start-ms': ('B03', C, [("        header_data.extend(struct.pack('<Q', self._start_timestamp))\n", "        header_data.extend(struct.pack('<Q', min(self._start_timestamp, self._last_timestamp)))\n")], TOPIC + r'''
u = parse(topic(n=1, start=500000))
u._last_timestamp = 400000
assert parse(write(u)).start_timestamp == 500000
''', 'a log without data behind its start', 'it starts at another time'),
 'l-b04-zero-times': ('B04', C, [("            indices = t != 0 # filter out 0 values\n            t = t[indices]\n", "            indices = t != 0 # filter out 0 values\n            self.data[field_name] = x if indices.all() else x[indices]\n            t = t[indices]\n")], TOPIC + r'''
u = parse(topic(rows=[u64(0) + f32(1), u64(7) + f32(2)]))
d = u.get_dataset('t')
d.list_value_changes('x')
assert len(d.data['x']) == 2
''', 'samples at time zero', 'they are removed by a query'),
 'l-b06-field-names': ('B06', C, [("            return self.name == other.name and self.fields == other.fields\n", "            return (self.name == other.name and\n                    [f[:2] for f in self.fields] == [f[:2] for f in other.fields])\n")], TOPIC + r'''
a, b = parse(topic(defs=fmt('f:float x;'))), parse(topic(defs=fmt('f:float y;')))
assert a.message_formats['f'] != b.message_formats['f'] and a != b
''', 'formats that differ in the name of a field', 'they are equal'),
 'l-b06-ts-index': ('B06', C, [("                    self.timestamp_idx == other.timestamp_idx and\n", "")], TOPIC + r'''
import copy
a = parse(topic()).data_list[0]
b = copy.copy(a)
b.timestamp_idx = 7
assert a != b
''', 'datasets that differ in the place of the time stamp', 'they are equal'),
 'l-b07-at-least': ('B07', C, [("                if elem.name == name and elem.multi_id == multi_instance][0]\n", "                if elem.name == name and elem.multi_id >= multi_instance][0]\n")], TOPIC + r'''
u = parse(topic(adds=add(0, 't', 3)))
try:
    u.get_dataset('t')
except (KeyError, IndexError, ValueError):
    pass
else:
    raise AssertionError('another instance')
''', 'an instance that is not in the log', 'the next one is given'),
 'l-b08-rc-edge': ('B08', C, [("            elif version[3] < 192: type_str = ' (beta)'\n", "            elif version[3] <= 192: type_str = ' (beta)'\n")], TOPIC + r'''
u = parse(topic(defs=info('uint32_t ver_sw_release', i32(0x010203c0))))
assert u.get_version_info_str() == 'v1.2.3 (RC)', u.get_version_info_str()
''', 'the first RC', 'it is a beta'),
 'l-c01-tag-order': ('C01', D, [("                SELECT LogLevel, Tag, Timestamp, Message\n                FROM ULogMessageLoggingTagged\n                WHERE ULogId = ?\n", "                SELECT LogLevel, Tag, Timestamp, Message\n                FROM ULogMessageLoggingTagged\n                WHERE ULogId = ?\n                ORDER BY Timestamp\n")], DB + r'''
a, b, path, h = back(topic(tagged('6', 3, 9000, 'b') + tagged('6', 3, 8000, 'a')))
assert a == b
''', 'tagged messages out of order', 'they are in another order'),
 'l-c01-default-type': ('C01', D, [("                    self._default_parameters[default_type] = {}\n                self._default_parameters[default_type][key]", "                    self._default_parameters[default_type] = {}\n                self._default_parameters[min(default_type, 1)][key]")], DB + r'''
a, b, path, h = back(topic(defs=default(7, 'int32_t a', i32(1))))
assert a == b, b._default_parameters
''', 'defaults of a third kind', 'they come back as another kind'),
 'l-c06-format-field': ('C06', D, [("                    ON field.MessageId = msg.Id\n                WHERE ULogId = ?\n                ''', (self._pk,))", "                    ON field.MessageId = msg.Id\n                WHERE ULogId <= ?\n                ''', (self._pk,))")], DB + r'''
path, h = new_db()
u = DatabaseULog(h, log_file=file_of(topic(defs=fmt('only:float x;')), 'a.ulg')); u.save()
w = DatabaseULog(h, log_file=file_of(topic(n=9), 'b.ulg')); w.save()
v = DatabaseULog(h, primary_key=w.primary_key)
assert 'only' not in v.message_formats
''', 'an earlier log with other formats', 'they are in the later one, too'),
 'l-c10-float-key': ('C10', D, [("                        timestamp_list = [str(s) for s in dataset.data['timestamp'].tolist()]\n", "                        timestamp_list = [str(int(float(s))) for s in dataset.data['timestamp'].tolist()]\n")], DB + r'''
import json
a, b, path, h = back(topic(n=2, payload=lambda i: u64((1 << 53) + 1 + i) + f32(i)), append_json=True)
js = json.loads(query(path, "select ValueJson from ULogField where TopicName = 'x'")[0][0])
assert sorted(js) == [str((1 << 53) + 1), str((1 << 53) + 2)], js
''', 'times above 2^53', 'they are rounded'),
 'l-c11-lazy-flag': ('C11', D, [("            cur.close()\n        self._lazy_loaded = lazy\n", "            cur.close()\n        self._lazy_loaded = self._lazy_loaded or lazy\n")], DB + r'''
a, b, path, h = back(topic(), lazy=True)
b.load(lazy=False)
import io
b.write_ulog(io.BytesIO())
''', 'a lazily loaded log that is loaded completely', 'it can not be written'),
}
