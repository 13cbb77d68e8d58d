C = 'pyulog/core.py'
FM = 'F'
TOPIC = '''
def topic(extra=b'', n=3, fmt_text='t:uint64_t timestamp;float x;'):
    return (head() + flags() + fmt(fmt_text) + add(0, 't') +
            b''.join(data(0, u64(2000 + i) + f32(i)) for i in range(n)) + extra)
'''
SEEDS = {
 'a01-magic-prefix': ('A01', C, [("if header_data[:7] != self.HEADER_BYTES:", "if header_data[:4] != self.HEADER_BYTES[:4]:")],
  '''
raw = b'ULog'.replace(b'U', b'\\x55') + b'XYZ' + head()[7:] + flags()
for bad in (HEAD[:4] + b'\\x00\\x00\\x00' + head()[7:] + flags(),):
    try:
        parse(bad)
    except TypeError:
        continue
    raise SystemExit('accepted a file with a wrong magic')
''', 'a file whose first 4 bytes match the magic but not all 7', 'files of another format with the same prefix are accepted'),
 'a02-sync-resets-size': ('A02', C, [("""                if len(data) < header.msg_size:
                    break # less data than expected. File is most likely cut

                if curr_file_pos""", """                if len(data) < header.msg_size:
                    break # less data than expected. File is most likely cut
                if header.msg_type == self.MSG_TYPE_SYNC and header.msg_size > len(ULog.SYNC_BYTES):
                    self._file_handle.seek(len(ULog.SYNC_BYTES) - header.msg_size, 1)

                if curr_file_pos""")],
  TOPIC + '''
a = parse(topic())
b = parse(topic(msg('S', SYNC + param('float X', f32(1.5))) + dropout(7)))
assert b.changed_parameters == [], b.changed_parameters
assert len(b.dropouts) == 1
''', 'a sync message with more payload than the sync sequence', 'payload bytes of a sync message are parsed as messages'),
 'a02-read-until-eq': ('A09', C, [("if curr_file_pos > read_until:", "if curr_file_pos >= read_until:")],
  TOPIC + '''
main = head() + flags((), (1,), (0,)) + fmt('t:uint64_t timestamp;float x;') + add(0, 't') + data(0, u64(2000) + f32(1)) + dropout(5)
n = len(main)
raw = head() + flags((), (1,), (n,)) + main[len(head() + flags()):] + info('char[2] zz', b'ab')
u = parse(raw)
assert len(u.dropouts) == 1 and u.msg_info_dict['zz'] == 'ab'
''', 'a log with appended data whose last regular message ends exactly at the offset', 'that last message is lost'),
 'a03-info-first-wins': ('A03', C, [("""                        msg_info = self._MessageInfo(data, header)
                        self._msg_info_dict[msg_info.key] = msg_info.value
                        self._msg_info_dict_types[msg_info.key] = msg_info.type
                    elif""", """                        msg_info = self._MessageInfo(data, header)
                        self._msg_info_dict.setdefault(msg_info.key, msg_info.value)
                        self._msg_info_dict_types[msg_info.key] = msg_info.type
                    elif""")],
  TOPIC + '''
raw = head() + flags() + info('char[2] k', b'ab') + fmt('t:uint64_t timestamp;') + add(0, 't') + info('char[2] k', b'cd')
assert parse(raw).msg_info_dict['k'] == 'cd'
''', 'an information key repeated in the data section', 'the later value is ignored'),
 'a03-multi-type-late': ('A03', C, [("""                self._msg_info_multiple_dict[msg_info.key].append([msg_info.value])
        else""", """                self._msg_info_multiple_dict[msg_info.key][:] = [[msg_info.value]]
        else""")],
  '''
raw = head() + flags() + multi('char[1] k', b'a') + multi('char[1] k', b'b') + multi('char[1] k', b'c', 1)
assert parse(raw).msg_info_multiple_dict['k'] == [['a'], ['b', 'c']], parse(raw).msg_info_multiple_dict
''', 'two separate lists under one key', 'only the last list is kept'),
 'a03-tag-shared': ('A03', C, [("self._logged_messages_tagged[msg_log_tagged.tag] = [msg_log_tagged]", "self._logged_messages_tagged[msg_log_tagged.tag & 0xff] = [msg_log_tagged]")],
  '''
raw = head() + flags() + tagged('3', 1, 5, 'a') + tagged('3', 257, 6, 'b')
u = parse(raw)
assert sorted(u.logged_messages_tagged) == [1, 257], u.logged_messages_tagged
''', 'tags above 255', 'messages of different tags are mixed'),
 'a04-default-high-bit': ('A04', C, [("while default_types: # iterate over each bit", "while default_types & 0x7f: # iterate over each bit")],
  '''
raw = head() + flags((1,)) + default(0x81, 'int32_t A', i32(4)) + default(0x80, 'int32_t B', i32(5))
u = parse(raw)
assert u.get_default_parameters(7) == {'A': 4, 'B': 5} and u.get_default_parameters(0) == {'A': 4}
''', 'a default parameter message with the top bit only', 'the default is lost'),
 'a04-changed-overwrites': ('A04', C, [("""                        self._changed_parameters.append((self._last_timestamp,
                                                         msg_info.key, msg_info.value))""", """                        if msg_info.key in self._initial_parameters:
                            self._changed_parameters.append((self._last_timestamp,
                                                             msg_info.key, msg_info.value))
                        else:
                            self._initial_parameters[msg_info.key] = msg_info.value""")],
  '''
raw = head() + flags() + param('int32_t A', i32(1)) + fmt('t:uint64_t timestamp;') + add(0, 't') + data(0, u64(5000)) + param('int32_t NEW', i32(3))
u = parse(raw)
assert u.initial_parameters == {'A': 1} and u.changed_parameters == [(5000, 'NEW', 3)], (u.initial_parameters, u.changed_parameters)
''', 'a parameter changed in flight that has no initial value', 'the change is recorded as an initial value without time'),
 'a05-latest': ('A05', C, [("""                        elif msg_data.timestamp > self._last_timestamp:
                            self._last_timestamp = msg_data.timestamp""", """                        elif msg_data.timestamp > 0:
                            self._last_timestamp = msg_data.timestamp""")],
  '''
raw = head() + flags() + fmt('t:uint64_t timestamp;') + add(0, 't') + add(1, 't', 1) + data(0, u64(9000)) + data(1, u64(8000)) + dropout(3)
u = parse(raw)
assert u.last_timestamp == 9000 and u.dropouts[0].timestamp == 9000
''', 'timestamps of two topics out of order in the log', 'dropouts and parameter changes get an earlier time; the last timestamp goes back'),
 'a06-def-partial': ('A06', C, [("""            if len(data) < header.msg_size:
                break # less data than expected. File is most likely cut
            try:""", """            if len(data) < header.msg_size and header.msg_type != self.MSG_TYPE_INFO:
                break # less data than expected. File is most likely cut
            try:""")],
  '''
raw = head() + flags() + info('char[8] k', b'abcdefgh')
u = parse(raw[:-3])
assert 'k' not in u.msg_info_dict
''', 'a log cut inside an information message of the definitions section', 'a partial value is recorded'),
 'a07-unhandled-key': ('A07', C, [("except (IndexError, KeyError, struct.error, RecursionError):", "except (IndexError, struct.error, RecursionError):")],
  TOPIC + '''
u = parse(topic(add(3, 'nosuchformat') + dropout(4)))
assert len(u.dropouts) == 1 and u.file_corruption
''', 'a subscription to a format that was never declared', 'opening the log raises KeyError'),
 'a07-unreported': ('A07', C, [("""                    if not self._file_corrupt:
                        print("File corruption detected while reading file data!")
                        self._file_corrupt = True""", """                    if not self._file_corrupt and header.msg_type != self.MSG_TYPE_ADD_LOGGED_MSG:
                        print("File corruption detected while reading file data!")
                        self._file_corrupt = True""")],
  TOPIC + '''
u = parse(topic(add(3, 'nosuchformat') + dropout(4)))
assert len(u.dropouts) == 1 and u.file_corruption
''', 'a malformed subscription message', 'the log is not marked as corrupt'),
 'a08-sync-overlap': ('A10', C, [("self._file_handle.seek(-(len(ULog.SYNC_BYTES)-1), 1)", "self._file_handle.seek(-(len(ULog.SYNC_BYTES)-2), 1)")],
  TOPIC + '''
ok = True
for k in range(480, 540):
    pre = topic() + struct.pack('<HB', 20000, 200) + b'\\xff' * 20000
    raw = topic() + b'\\x00\\x00\\x00' + b'\\xfe' * k + SYNC + dropout(9)
    u = parse(raw)
    ok = ok and len(u.dropouts) == 1
assert ok
''', 'a sync sequence that starts with its first byte at the last-but-six byte of a search chunk', 'the sync sequence is overlooked and the rest of the log is lost'),
 'a08-no-progress': ('A08', C, [("self._file_handle.seek(-2-header.msg_size, 1)\n\n                            # try", "self._file_handle.seek(-2-max(header.msg_size, 1), 1)\n\n                            # try")],
  TOPIC + '''
import signal
signal.alarm(20)
u = parse(topic(b'\\x00\\x00\\x00' * 5 + dropout(4)))
''', 'a damaged header with size zero after the sync search failed once', 'parsing does not terminate'),
 'a09-third-offset': ('A09', C, [("for offset in self._appended_offsets:", "for offset in self._appended_offsets[:2]:")],
  '''
def body(offs):
    pre = head() + flags((), (1,), offs) + fmt('t:uint64_t timestamp;float x;') + add(0, 't') + dropout(1)
    return pre
n = len(body((0, 0, 0)))
# the bytes before the third offset belong to the third part; a message cut there must not swallow what follows
part2 = dropout(2)
part3 = dropout(3) + struct.pack('<HB', 500, ord('O')) + b'xx'
part4 = dropout(4)
offs = (n, n + len(part2), n + len(part2) + len(part3))
u = parse(body(offs) + part2 + part3 + part4)
assert [d.duration for d in u.dropouts] == [1, 2, 3, 4], [d.duration for d in u.dropouts]
''', 'a log with three appended parts whose third part ends in a cut message', 'the last part is not found'),
 'a11-second-byte': ('A11', C, [("for i in range(1, 8):", "for i in range(1, 7):")],
  '''
try:
    parse(head() + flags((), (0, 0, 0, 0, 0, 0, 0, 4)))
except (NotImplementedError, ValueError):
    raise SystemExit(0)
raise SystemExit('unknown flag accepted')
''', 'an unknown flag in the last byte', 'an incompatible log is parsed as if it were understood'),
 'a12-filter-prefix': ('A12', C, [("msg_add_logged.message_name in message_name_filter_list):", "any(msg_add_logged.message_name.startswith(n) for n in message_name_filter_list)):")],
  '''
raw = head() + flags() + fmt('t:uint64_t timestamp;') + fmt('t_x:uint64_t timestamp;') + add(0, 't') + add(1, 't_x') + data(0, u64(5)) + data(1, u64(6))
u = parse(raw, ['t'])
assert [d.name for d in u.data_list] == ['t']
''', 'a topic whose name starts with a filtered-for name', 'extra topics are returned'),
 'a12-filter-marks': ('A12', C, [("""                else:
                            self._filtered_message_ids.add(msg_add_logged.msg_id)""", """                elif msg_add_logged.multi_id == 0:
                            self._filtered_message_ids.add(msg_add_logged.msg_id)""")],
  '''
raw = head() + flags() + fmt('t:uint64_t timestamp;') + fmt('s:uint64_t timestamp;') + add(0, 't') + add(1, 's', 1) + data(0, u64(5)) + data(1, u64(6))
u = parse(raw, ['t'])
assert not u.file_corruption
''', 'a filtered-out topic with a second instance', 'data of filtered topics marks an intact log as corrupt'),
 'a13-short-record': ('A13', C, [("if data_size < min_data_size or data_size > subscription.max_data_size:", "if data_size > subscription.max_data_size:")],
  TOPIC + '''
u = parse(topic(data(0, u64(7000)) + data(0, u64(7001) + f32(9))))
d = u.data_list[0].data
assert list(d['timestamp']) == [2000, 2001, 2002, 7001], d
''', 'a data record shorter than its topic', 'following records are decoded from shifted bytes'),
 'a13-id-collision': ('A13', C, [("self._subscriptions[msg_add_logged.msg_id] = msg_add_logged", "self._subscriptions.setdefault(msg_add_logged.msg_id, msg_add_logged)")],
  '''
raw = head() + flags() + fmt('t:uint64_t timestamp;') + fmt('s:uint64_t timestamp;uint8_t q;') + add(0, 't') + data(0, u64(5)) + add(0, 's') + data(0, u64(6) + b'\\x01')
u = parse(raw)
assert [d.name for d in u.data_list] == ['s'], [d.name for d in u.data_list]
''', 'a message id that is subscribed again with another topic', 'data is attributed to the old topic'),
 'a14-nested-array-dot': ('A14', C, [("self._parse_nested_type(prefix_str+field_name+'['+str(i)+'].',", "self._parse_nested_type(field_name+'['+str(i)+'].',")],
  '''
raw = (head() + flags() + fmt('in:uint8_t a;') + fmt('mid:in[2] m;') + fmt('t:uint64_t timestamp;mid o;mid p;') + add(0, 't') +
       data(0, u64(5) + b'\\x01\\x02\\x03\\x04'))
u = parse(raw)
assert list(u.data_list[0].data) == ['timestamp', 'o.m[0].a', 'o.m[1].a', 'p.m[0].a', 'p.m[1].a'], list(u.data_list[0].data)
''', 'an array of nested formats inside a nested format', 'fields are named without their outer name'),
 'a14-inner-padding': ('A14', C, [("""                        self.field_data.append(ULog._FieldData(
                            prefix_str+field_name, type_name_fmt))
                    if""", """                        if not (prefix_str and field_name.startswith('_padding')):
                            self.field_data.append(ULog._FieldData(
                                prefix_str+field_name, type_name_fmt))
                    if""")],
  '''
raw = (head() + flags() + fmt('in:uint8_t a;uint8_t _padding0;') + fmt('t:uint64_t timestamp;in o;uint8_t b;') + add(0, 't') +
       data(0, u64(5) + b'\\x01\\x02\\x03'))
u = parse(raw)
assert len(u.data_list) == 1 and list(u.data_list[0].data['b']) == [3]
''', 'padding inside a nested format that is not at the end of the topic', 'later fields are decoded from shifted bytes'),
 'a15-bool-type': ('A15', C, [("'int64_t':  ['q', 8, np.int64],", "'int64_t':  ['q', 8, np.uint64],")],
  '''
raw = head() + flags() + fmt('t:uint64_t timestamp;int64_t v;') + add(0, 't') + data(0, u64(5) + b'\\xff' * 8)
assert int(parse(raw).data_list[0].data['v'][0]) == -1
''', 'negative 64 bit values', 'values become huge'),
 'a16-truncates': ('A16', C, [('self._file_handle = open(log_file, "rb")', 'self._file_handle = open(log_file, "r+b")')],
  '''
import tempfile, subprocess
d = tempfile.mkdtemp()
p = os.path.join(d, 'x.ulg')
open(p, 'wb').write(head() + flags())
import builtins
real = builtins.open
modes = []
def spy(f, mode='r', *a, **k):
    if str(f) == p:
        modes.append(mode)
    return real(f, mode, *a, **k)
builtins.open = spy
from pyulog import ULog
ULog(p)
builtins.open = real
os.remove(p); os.rmdir(d)
assert all(not set(m) & set('wax+') for m in modes), modes
''', 'a log without write permission', 'reading needs write access to the log'),
 'a17-header-only-skip': ('A17', C, [("""                elif header.msg_type in (self.MSG_TYPE_ADD_LOGGED_MSG,
                      self.MSG_TYPE_LOGGING, self.MSG_TYPE_LOGGING_TAGGED):""", """                elif header.msg_type in (self.MSG_TYPE_ADD_LOGGED_MSG,
                      self.MSG_TYPE_LOGGING):""")],
  '''
raw = head() + flags() + param('int32_t A', i32(1)) + tagged('3', 2, 5, 'x') + param('int32_t B', i32(2)) + info('char[1] k', b'v')
u = parse(raw, None, True, True)
assert u.initial_parameters == {'A': 1} and 'k' not in u.msg_info_dict, u.initial_parameters
v = parse(raw)
assert v.initial_parameters == {'A': 1} and len(v.logged_messages_tagged) == 1
''', 'a log whose data section starts with a tagged message', 'the message is lost and later parameters count as initial'),
 'a18-shared-default': ('A18', C, [("        self._filtered_message_ids = set() # _MessageAddLogged id's that are filtered\n", ""), ("    # when set to True disables string parsing exceptions\n", "    _filtered_message_ids = set() # _MessageAddLogged id's that are filtered\n\n    # when set to True disables string parsing exceptions\n")],
  '''
raw = head() + flags() + fmt('t:uint64_t timestamp;') + add(3, 't') + data(3, u64(5))
parse(raw, [])
u = parse(head() + flags() + fmt('t:uint64_t timestamp;') + add(1, 't') + data(3, u64(5)))
assert u.file_corruption
''', 'a log opened with a filter before another one in the same process', 'corruption of the second log is not reported'),
}
