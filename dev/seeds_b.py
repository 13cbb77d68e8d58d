C = 'pyulog/core.py'
TOPIC = '''
def topic(extra=b'', n=3, fmt_text='t:uint64_t timestamp;float x;', defs=b'', payload=lambda i: u64(2000 + i) + f32(i)):
    return (head() + flags() + fmt(fmt_text) + defs + add(0, 't') +
            b''.join(data(0, payload(i)) for i in range(n)) + extra)


def rewritten(log):
    out = io.BytesIO()
    log.write_ulog(out)
    return parse(out.getvalue())


def written_types(log):
    out = io.BytesIO()
    log.write_ulog(out)
    raw, pos, res = out.getvalue(), 16, []
    while pos < len(raw):
        n, typ = struct.unpack('<HB', raw[pos:pos + 3])
        res.append((chr(typ), raw[pos + 3:pos + 3 + n]))
        pos += 3 + n
    return res


'''
SEEDS = {
 'b01-tag-byte': ('B01', C, [("data.extend(struct.pack('<BHQ', message.log_level, message.tag, message.timestamp))",
                              "data.extend(struct.pack('<BHQ', message.log_level, message.tag & 0xff, message.timestamp))")],
  TOPIC + '''
a = parse(topic(tagged('1', 0x1234, 77, 'hello')))
assert list(a.logged_messages_tagged) == [0x1234]
assert rewritten(a).logged_messages_tagged == a.logged_messages_tagged
''', 'a tagged message with a tag above 255', 'the tag is cut to one byte when written'),
 'b01-empty-message': ('B01', C, [("""        for message in self._logged_messages:
            data = bytearray()
""", """        for message in self._logged_messages:
            if not message.message.strip():
                continue # nothing to say
            data = bytearray()
""")], TOPIC + '''
a = parse(topic(log('6', 5, ' ') + log('6', 6, 'x')))
assert len(a.logged_messages) == 2
assert rewritten(a).logged_messages == a.logged_messages
''', 'a logged message of white space only', 'the message is dropped when the log is written'),
 'b01-whole-float': ('B01', C, [("""        if isinstance(value, int):
            value_type = "int32_t"
""", """        if isinstance(value, int) or abs(value) >= 2 ** 24 and float(value).is_integer():
            value_type, value = "int32_t", int(value)
""")], TOPIC + '''
a = parse(topic(defs=param('float F', f32(33554432.0)) + param('int32_t I', struct.pack('<i', 7))))
b = rewritten(a)
assert b.initial_parameters == a.initial_parameters
assert isinstance(b.initial_parameters['F'], float), b.initial_parameters
''', 'a large float parameter with an integer value', 'the parameter becomes an integer'),
 'b01-key-length': ('B01', C, [("data.extend(struct.pack('<B', len(key_bytes)))", "data.extend(struct.pack('<B', len(key)))")],
  TOPIC + '''
a = parse(topic(defs=info('char[2] k\\u00e9y', b'ab')))
assert a.msg_info_dict == {'k\\u00e9y': 'ab'}
assert rewritten(a).msg_info_dict == a.msg_info_dict
''', 'an information key with a non-ASCII character', 'the key length counts characters instead of bytes'),
 'b01-default-mask': ('B01', C, [("bitfield = 1 << bit", "bitfield = bit + 1")], TOPIC + '''
a = parse(topic(defs=default(1, 'int32_t D', struct.pack('<i', 7)) + default(2, 'int32_t E', struct.pack('<i', 9)) +
                default(4, 'int32_t G', struct.pack('<i', 9))))
assert rewritten(a)._default_parameters == a._default_parameters
''', 'a default of a type other than the two used so far', 'the default is written for other types'),
 'b02-defaults-late': ('B02', C, [("""            self._write_default_parameters(ulog_file)

            # Data section
            self._write_logged_message_subscriptions(ulog_file)
""", """
            # Data section
            self._write_logged_message_subscriptions(ulog_file)
            self._write_default_parameters(ulog_file)
""")], TOPIC + '''
a = parse(topic(defs=default(1, 'int32_t D', struct.pack('<i', 7))))
ts = [t for t, _ in written_types(a)]
assert ts.index('Q') < ts.index('A'), ts
from pyulog import ULog
out = io.BytesIO(); a.write_ulog(out); out.seek(0)
b = ULog(out, None, True, True)
assert b.get_default_parameters(0) == {'D': 7}
''', 'reading only the definitions of a written log with defaults', 'the defaults follow the definitions'),
 'b02-dropout-order': ('B02', C, [("dropout_items.append((dropout.timestamp, header + data))",
                                   "dropout_items.append((dropout.timestamp + dropout.duration, header + data))")], TOPIC + '''
a = parse(topic(dropout(500) + data(0, u64(2100) + f32(1))))
assert a.dropouts[0].timestamp == 2002
b = rewritten(a)
assert b.dropouts == a.dropouts, b.dropouts[0].timestamp
''', 'a dropout longer than the distance to the next sample', 'the dropout is written behind later samples'),
 'b03-all-flags-cleared': ('B03', C, [("imcompat_flags[0] = imcompat_flags[0] & 0xFE", "imcompat_flags[0] = 0x00")], TOPIC + '''
a = parse(topic())
a._incompat_flags[0] = 0x05
t, payload = written_types(a)[0]
assert t == 'B' and payload[8] == 0x04, payload
''', 'further incompatible flags next to the one for appended data', 'the other flags are lost'),
 'b04-flags-shared': ('B04', C, [("imcompat_flags = copy.deepcopy(self._incompat_flags)", "imcompat_flags = self._incompat_flags"),
                                 ("import copy\n", "")], TOPIC + '''
main = topic()
raw = head() + flags((), (1,), (len(main),)) + main[len(head() + flags()):] + dropout(4)
a = parse(raw)
assert a.has_data_appended
rewritten(a)
assert a.has_data_appended
''', 'writing a log with appended data', 'the log object itself loses the flag'),
 'b05-not-closed': ('B05', C, [("""            handle = open(log_file, "wb")
        else:
            handle = contextlib.nullcontext(log_file)

        with handle as ulog_file:""", """            log_file = open(log_file, "wb")
        handle = contextlib.nullcontext(log_file)

        with handle as ulog_file:""")], TOPIC + '''
import builtins, tempfile
files = []
real = builtins.open
def spy(*a, **k):
    f = real(*a, **k)
    files.append(f)
    return f
a = parse(topic())
with tempfile.TemporaryDirectory() as d:
    builtins.open = spy
    try:
        a.write_ulog(os.path.join(d, 'x.ulg'))
    finally:
        builtins.open = real
    assert files and all(f.closed for f in files)
''', 'writing to a path', 'the file stays open'),
 'b05-append': ('B05', C, [('handle = open(log_file, "wb")', 'handle = open(log_file, "ab")')], TOPIC + '''
import tempfile
a = parse(topic())
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.ulg')
    a.write_ulog(p)
    n = os.path.getsize(p)
    a.write_ulog(p)
    assert os.path.getsize(p) == n
''', 'writing to a file that exists', 'the log is appended to the old contents'),
 'b06-tag-ignored': ('B06', C, [("""            return (self.log_level == other.log_level and
                    self.tag == other.tag and
""", """            return (self.log_level == other.log_level and
""")], TOPIC + '''
a = parse(topic(tagged('1', 1, 77, 'hello'))).logged_messages_tagged[1][0]
b = parse(topic(tagged('1', 2, 77, 'hello'))).logged_messages_tagged[2][0]
assert a != b
''', 'two tagged messages that differ in the tag only', 'they count as equal'),
 'b06-columns': ('B06', C, [("arrays_equal = self.data.keys() == other.data.keys()", "arrays_equal = len(self.data) == len(other.data)")],
  TOPIC + '''
import copy
a = parse(topic()).data_list[0]
b = copy.deepcopy(a)
b.data = {('y' if k == 'x' else k): v for k, v in a.data.items()}
assert a != b
''', 'datasets with renamed columns', 'they count as equal'),
 'b06-private': ('B06', C, [("""            for field, self_value in self.__dict__.items()
""", """            for field, self_value in self.__dict__.items() if not field.endswith('_types')
""")], TOPIC + '''
a = parse(topic(defs=info('int32_t v', struct.pack('<i', 5))))
b = parse(topic(defs=info('uint32_t v', struct.pack('<i', 5))))
assert a != b
''', 'information values that differ in their type only', 'such logs count as equal'),
 'b07-name-prefix': ('B07', C, [("if elem.name == name and elem.multi_id == multi_instance][0]",
                                 "if elem.name.startswith(name) and elem.multi_id == multi_instance][0]")], TOPIC + '''
raw = (head() + flags() + fmt('tt:uint64_t timestamp;float x;') + fmt('t:uint64_t timestamp;float x;') + add(0, 'tt', 1) +
       add(1, 't') + data(0, u64(1) + f32(1)) + data(1, u64(2) + f32(1)))
a = parse(raw)
assert a.get_dataset('t').name == 't'
try:
    a.get_dataset('t', 1)
except (KeyError, IndexError, ValueError):
    pass
else:
    raise SystemExit('another topic was returned')
''', 'a topic whose name starts with that of another', 'the other topic is returned'),
 'b07-change-offset': ('B07', C, [("indices = np.where(x[:-1] != x[1:])[0] + 1", "indices = np.where(x[:-1] != x[1:])[0]")], TOPIC + '''
raw = topic(n=4, payload=lambda i: u64(10 + i) + f32(i // 2))
a = parse(raw).data_list[0]
got = [(int(t), float(v)) for t, v in a.list_value_changes('x')]
assert got == [(10, 0.0), (12, 1.0)], got
''', 'a value that changes between two samples', 'the old value is listed as the change'),
 'b08-rc-boundary': ('B08', C, [("elif version[3] < 192: type_str = ' (beta)'", "elif version[3] <= 192: type_str = ' (beta)'")], TOPIC + '''
a = parse(topic(defs=info('uint32_t ver_sw_release', struct.pack('<I', 0x010d02c0))))
assert a.get_version_info_str() == 'v1.13.2 (RC)', a.get_version_info_str()
''', 'release type 192', 'the first release candidate is called beta'),
 'b08-tagged-levels': ('B08', C, [("""                    self.timestamp == other.timestamp and
                    self.message == other.message)

        def log_level_str(self):
            return {ord('0'): 'EMERGENCY',
                    ord('1'): 'ALERT',
                    ord('2'): 'CRITICAL',
                    ord('3'): 'ERROR',
                    ord('4'): 'WARNING',
                    ord('5'): 'NOTICE',
                    ord('6'): 'INFO',
                    ord('7'): 'DEBUG'}.get(self.log_level, 'UNKNOWN')

    class MessageDropout""", """                    self.timestamp == other.timestamp and
                    self.message == other.message)

        def log_level_str(self):
            return {ord('0'): 'EMERGENCY',
                    ord('1'): 'ALERT',
                    ord('2'): 'CRITICAL',
                    ord('3'): 'ERROR',
                    ord('4'): 'WARNING',
                    ord('5'): 'INFO',
                    ord('6'): 'INFO',
                    ord('7'): 'DEBUG'}.get(self.log_level, 'UNKNOWN')

    class MessageDropout""")], TOPIC + '''
a = parse(topic(tagged('5', 1, 77, 'hello'))).logged_messages_tagged[1][0]
assert a.log_level_str() == 'NOTICE'
''', 'a tagged message of level 5', 'its level is called INFO'),
 'b01-continued-empty': ('B01', C, [("""                    continued = True

""", """                    if data:
                        continued = value != ''

""")], TOPIC + '''
m = multi('char[0] k', b'') + multi('char[2] k', b'cd', 1)
a = parse(topic(defs=m))
assert a.msg_info_multiple_dict == {'k': [['', 'cd']]}
assert rewritten(a).msg_info_multiple_dict == a.msg_info_multiple_dict
''', 'a continued information key that starts with an empty part', 'the sequence is split in two'),
 'b02-tagged-rounded': ('B02', C, [("""MSG_TYPE_LOGGING_TAGGED)
                message_items.append((message.timestamp, header + data))""", """MSG_TYPE_LOGGING_TAGGED)
                message_items.append((message.timestamp // 1000 * 1000, header + data))""")], TOPIC + '''
a = parse(topic(tagged('1', 2, 2900, 'hello')))
ts = [t for t, _ in written_types(a)]
assert ts[-1] == 'C', ts
''', 'a tagged message shortly after a sample', 'the message is written before the sample'),
 'b03-compat-half': ('B03', C, [("data.extend(struct.pack('<' + 'B' * 8, *self._compat_flags))",
                                  "data.extend(struct.pack('<' + 'B' * 8, *(self._compat_flags[:4] + [0] * 4)))")], TOPIC + '''
a = parse(head() + flags((1, 0, 0, 0, 0, 4)) + fmt('t:uint64_t timestamp;'))
t, payload = written_types(a)[0]
assert list(payload[:8]) == [1, 0, 0, 0, 0, 4, 0, 0], payload
''', 'flags in the later bytes', 'compatible flags are lost'),
 'b04-default-created': ('B04', C, [("return self._default_parameters.get(default_type, {})",
                                     "return self._default_parameters.setdefault(default_type, {})")], TOPIC + '''
a, b = parse(topic()), parse(topic())
assert not a.has_default_parameters
a.get_default_parameters(1)
assert not a.has_default_parameters and a == b
''', 'asking for defaults of a log without', 'the log then claims to have defaults'),
}
