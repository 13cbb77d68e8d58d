""" behaviour-preserving edits, eighth round: the parser again """
C = 'pyulog/core.py'
REFAC = {
'unpack-merge': {C: [("""            self.multi_id, = struct.unpack('<B', data[0:1])
            self.msg_id, = struct.unpack('<H', data[1:3])
""", """            self.multi_id, self.msg_id = struct.unpack('<BH', data[0:3])
""")]},
'logging-merge': {C: [("""            self.log_level, = struct.unpack('<B', data[0:1])
            self.timestamp, = struct.unpack('<Q', data[1:9])
""", """            self.log_level, self.timestamp = struct.unpack('<BQ', data[:9])
"""), ("""            self.log_level, = struct.unpack('<B', data[0:1])
            self.tag, = struct.unpack('<H', data[1:3])
            self.timestamp, = struct.unpack('<Q', data[3:11])
""", """            self.log_level, self.tag, self.timestamp = struct.unpack('<BHQ', data[:11])
""")]},
'logging-from': {C: [("""            self.log_level, = struct.unpack('<B', data[0:1])
            self.timestamp, = struct.unpack('<Q', data[1:9])
""", """            self.log_level, self.timestamp = struct.unpack_from('<BQ', data)
"""), ("""            self.log_level, = struct.unpack('<B', data[0:1])
            self.tag, = struct.unpack('<H', data[1:3])
            self.timestamp, = struct.unpack('<Q', data[3:11])
""", """            fixed_part = struct.Struct('<BHQ')
            self.log_level, self.tag, self.timestamp = fixed_part.unpack_from(data)
"""), ("            self.message = ULog.parse_string(data[11:])\n", "            self.message = ULog.parse_string(data[fixed_part.size:])\n")]},
'level-table': {C: [("""        def log_level_str(self):
            return {ord('0'): 'EMERGENCY',
                    ord('1'): 'ALERT',
                    ord('2'): 'CRITICAL',
                    ord('3'): 'ERROR',
                    ord('4'): 'WARNING',
                    ord('5'): 'NOTICE',
                    ord('6'): 'INFO',
                    ord('7'): 'DEBUG'}.get(self.log_level, 'UNKNOWN')

    class MessageLoggingTagged""", """        def log_level_str(self):
            names = ('EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR',
                     'WARNING', 'NOTICE', 'INFO', 'DEBUG')
            index = self.log_level - ord('0')
            if 0 <= index < len(names):
                return names[index]
            return 'UNKNOWN'

    class MessageLoggingTagged""")]},
'shared-handler': {C: [("""                if header.msg_type == self.MSG_TYPE_INFO:
                    msg_info = self._MessageInfo(data, header)
                    self._msg_info_dict[msg_info.key] = msg_info.value
                    self._msg_info_dict_types[msg_info.key] = msg_info.type
                elif header.msg_type == self.MSG_TYPE_INFO_MULTIPLE:
                    msg_info = self._MessageInfo(data, header, is_info_multiple=True)
                    self._add_message_info_multiple(msg_info)
                elif header.msg_type == self.MSG_TYPE_FORMAT:
""", """                if self._handle_common_message(header, data):
                    pass
                elif header.msg_type == self.MSG_TYPE_FORMAT:
"""), ("""                    self._initial_parameters[msg_info.key] = msg_info.value
                elif header.msg_type == self.MSG_TYPE_PARAMETER_DEFAULT:
                    msg_param = self._MessageParameterDefault(data, header)
                    self._add_parameter_default(msg_param)
""", """                    self._initial_parameters[msg_info.key] = msg_info.value
"""), ("""                    if header.msg_type == self.MSG_TYPE_INFO:
                        msg_info = self._MessageInfo(data, header)
                        self._msg_info_dict[msg_info.key] = msg_info.value
                        self._msg_info_dict_types[msg_info.key] = msg_info.type
                    elif header.msg_type == self.MSG_TYPE_INFO_MULTIPLE:
                        msg_info = self._MessageInfo(data, header, is_info_multiple=True)
                        self._add_message_info_multiple(msg_info)
                    elif""", """                    if self._handle_common_message(header, data):
                        pass
                    elif"""), ("""                                                         msg_info.key, msg_info.value))
                    elif header.msg_type == self.MSG_TYPE_PARAMETER_DEFAULT:
                        msg_param = self._MessageParameterDefault(data, header)
                        self._add_parameter_default(msg_param)
""", """                                                         msg_info.key, msg_info.value))
"""), ("""    def _load_file(self""", """    def _handle_common_message(self, header, data):
        \"\"\" handle messages that are allowed in both sections. Return True if handled \"\"\"
        if header.msg_type == self.MSG_TYPE_INFO:
            msg_info = self._MessageInfo(data, header)
            self._msg_info_dict[msg_info.key] = msg_info.value
            self._msg_info_dict_types[msg_info.key] = msg_info.type
        elif header.msg_type == self.MSG_TYPE_INFO_MULTIPLE:
            self._add_message_info_multiple(
                self._MessageInfo(data, header, is_info_multiple=True))
        elif header.msg_type == self.MSG_TYPE_PARAMETER_DEFAULT:
            self._add_parameter_default(self._MessageParameterDefault(data, header))
        else:
            return False
        return True

    def _load_file(self""")]},
'unknown-helper': {C: [("""                        if self._check_packet_corruption(header):
                            # seek back to advance only by a single byte instead of
                            # skipping the message
                            curr_file_pos = self._file_handle.seek(-2-header.msg_size, 1)

                            # try recovery with sync sequence in case of unknown msg_type
                            if self._has_sync:
                                self._find_sync()
                        else:
                            # seek back msg_size to look for sync sequence in payload
                            if self._has_sync:
                                self._find_sync(header.msg_size)
                        # the sync search moves the file position
                        curr_file_pos = self._file_handle.tell()
""", """                        curr_file_pos = self._recover(header)
"""), ("""    def _convert_subscriptions(self):""", """    def _recover(self, header):
        \"\"\" continue after an unknown message, return the new file position \"\"\"
        search_size = header.msg_size
        if self._check_packet_corruption(header):
            # advance only by a single byte instead of skipping the message
            self._file_handle.seek(-2 - header.msg_size, 1)
            search_size = -1 # search all
        if self._has_sync:
            self._find_sync(search_size)
        return self._file_handle.tell()

    def _convert_subscriptions(self):""")]},
'msg-type-local': {C: [("""                try:
                    if header.msg_type == self.MSG_TYPE_INFO:
""", """                msg_type = header.msg_type
                try:
                    if msg_type == self.MSG_TYPE_INFO:
"""), ("                    elif header.msg_type == self.MSG_TYPE_DATA:\n", "                    elif msg_type == self.MSG_TYPE_DATA:\n"),
 ("                    elif header.msg_type == self.MSG_TYPE_SYNC:\n", "                    elif msg_type == self.MSG_TYPE_SYNC:\n")]},
'data-first': {C: [("""                    if header.msg_type == self.MSG_TYPE_INFO:
                        msg_info = self._MessageInfo(data, header)
                        self._msg""", """                    # most messages are data messages
                    if header.msg_type == self.MSG_TYPE_DATA:
                        if msg_data.initialize(data, header, self._subscriptions, self):
                            self._file_corrupt = True
                        else:
                            self._last_timestamp = max(self._last_timestamp, msg_data.timestamp)
                    elif header.msg_type == self.MSG_TYPE_INFO:
                        msg_info = self._MessageInfo(data, header)
                        self._msg"""), ("""                    elif header.msg_type == self.MSG_TYPE_DATA:
                        has_corruption = msg_data.initialize(data, header, self._subscriptions,
                                                             self)
                        if has_corruption:
                            self._file_corrupt = True
                        elif msg_data.timestamp > self._last_timestamp:
                            self._last_timestamp = msg_data.timestamp
""", "")]},
'info-offset': {C: [("""            if is_info_multiple: # INFO_MULTIPLE message
                self.is_continued, = struct.unpack('<B', data[0:1])
                data = data[1:]
            key_len, = struct.unpack('<B', data[0:1])
            type_key = ULog.parse_string(data[1:1+key_len])
""", """            offset = 0
            if is_info_multiple: # INFO_MULTIPLE message
                self.is_continued, = struct.unpack('<B', data[0:1])
                offset = 1
            key_len, = struct.unpack('<B', data[offset:offset+1])
            key_start = offset + 1
            value_start = key_start + key_len
            type_key = ULog.parse_string(data[key_start:value_start])
"""), ("                self.value = ULog.parse_string(data[1+key_len:])\n", "                self.value = ULog.parse_string(data[value_start:])\n"),
 ("                self.value, = struct.unpack('<'+unpack_type[0], data[1+key_len:])\n", "                self.value, = struct.unpack('<'+unpack_type[0], data[value_start:])\n"),
 ("                self.value = data[1+key_len:]\n", "                self.value = data[value_start:]\n")]},
'info-value-helper': {C: [("""            if self.type.startswith('char['): # it's a string
                self.value = ULog.parse_string(data[1+key_len:])
            elif self.type in ULog._UNPACK_TYPES:
                unpack_type = ULog._UNPACK_TYPES[self.type]
                self.value, = struct.unpack('<'+unpack_type[0], data[1+key_len:])
            else: # probably an array (or non-basic type)
                self.value = data[1+key_len:]
""", """            self.value = self._decode_value(data[1+key_len:])

        def _decode_value(self, raw_value):
            if self.type.startswith('char['): # it's a string
                return ULog.parse_string(raw_value)
            if self.type not in ULog._UNPACK_TYPES: # probably an array (or non-basic type)
                return raw_value
            (value,) = struct.unpack('<' + ULog._UNPACK_TYPES[self.type][0], raw_value)
            return value
""")]},
'info-index': {C: [("            key_len, = struct.unpack('<B', data[0:1])\n            type_key =", "            key_len = struct.unpack('<B', data[0:1])[0]\n            type_key =")]},
'default-setattr': {C: [("""            self.type = msg_info.type
            self.key = msg_info.key
            self.value = msg_info.value
""", """            for attribute in ('type', 'key', 'value'):
                setattr(self, attribute, getattr(msg_info, attribute))
""")]},
'default-inherit': {C: [("""    class _MessageParameterDefault(object):
        \"\"\" ULog parameter default message representation \"\"\"

        def __init__(self, data, header):
            self.default_types, = struct.unpack('<B', data[0:1])
            msg_info = ULog._MessageInfo(data[1:], header)
            self.type = msg_info.type
            self.key = msg_info.key
            self.value = msg_info.value
""", """    class _MessageParameterDefault(_MessageInfo):
        \"\"\" ULog parameter default message representation \"\"\"

        def __init__(self, data, header):
            self.default_types, = struct.unpack('<B', data[0:1])
            super().__init__(data[1:], header)
""")]},
'format-filter': {C: [("""            self.fields = [] # list of tuples (type, array_size, name)
            for t in types_str:
                if len(t) > 0:
                    self.fields.append(self._extract_type(t))
""", """            # list of tuples (type, array_size, name)
            self.fields = [self._extract_type(t) for t in types_str if t]
""")]},
'format-map': {C: [("""            self.fields = [] # list of tuples (type, array_size, name)
            for t in types_str:
                if len(t) > 0:
                    self.fields.append(self._extract_type(t))
""", """            # list of tuples (type, array_size, name)
            self.fields = list(map(self._extract_type, filter(None, types_str)))
""")]},
'format-in': {C: [("""            a_pos = type_str.find('[')
            if a_pos == -1:
                array_size = 0
                type_name = type_str
            else:
                b_pos = type_str.find(']')
""", """            if '[' not in type_str:
                array_size = 0
                type_name = type_str
            else:
                a_pos = type_str.index('[')
                b_pos = type_str.find(']')
""")]},
'mdata-invert': {C: [("""            has_corruption = False
            msg_id, = ULog._unpack_ushort(data[:2])
            if msg_id in subscriptions:
                subscription = subscriptions[msg_id]
                min_data_size = subscription.dtype.itemsize
                data_size = len(data) - 2
                if data_size < min_data_size or data_size > subscription.max_data_size:
                    # Corrupt data: skip
                    self.timestamp = 0
                    has_corruption = True
                else:
                    if data_size > min_data_size:
                        # Strip extra data (_padding bytes)
                        data = data[:2+min_data_size]
                    # accumulate data to a buffer, will be parsed later
                    subscription.buffer += data[2:]
                    t_off = subscription.timestamp_offset
                    # TODO: the timestamp can have another size than uint64
                    self.timestamp, = ULog._unpack_uint64(data[t_off+2:t_off+10])
            else:
                if not msg_id in ulog_object._filtered_message_ids:
                    # this is an error, but make it non-fatal
                    if not msg_id in ulog_object._missing_message_ids:
                        ulog_object._missing_message_ids.add(msg_id)
                        if ulog_object._debug:
                            print(ulog_object._file_handle.tell())
                        print('Warning: no subscription found for message id {:}. Continuing,'
                              ' but file is most likely corrupt'.format(msg_id))
                    has_corruption = True
                self.timestamp = 0
            return has_corruption
""", """            msg_id, = ULog._unpack_ushort(data[:2])
            payload = data[2:]

            subscription = subscriptions.get(msg_id)
            if subscription is None:
                self.timestamp = 0
                if msg_id in ulog_object._filtered_message_ids:
                    return False
                # this is an error, but make it non-fatal
                if msg_id not in ulog_object._missing_message_ids:
                    ulog_object._missing_message_ids.add(msg_id)
                    if ulog_object._debug:
                        print(ulog_object._file_handle.tell())
                    print('Warning: no subscription found for message id {:}. Continuing,'
                          ' but file is most likely corrupt'.format(msg_id))
                return True

            min_data_size = subscription.dtype.itemsize
            if not min_data_size <= len(payload) <= subscription.max_data_size:
                # Corrupt data: skip
                self.timestamp = 0
                return True

            # Strip extra data (_padding bytes)
            payload = payload[:min_data_size]
            # accumulate data to a buffer, will be parsed later
            subscription.buffer.extend(payload)
            t_off = subscription.timestamp_offset
            # TODO: the timestamp can have another size than uint64
            self.timestamp, = ULog._unpack_uint64(payload[t_off:t_off+8])
            return False
""")]},
'mdata-method': {C: [("""                    # accumulate data to a buffer, will be parsed later
                    subscription.buffer += data[2:]
                    t_off = subscription.timestamp_offset
                    # TODO: the timestamp can have another size than uint64
                    self.timestamp, = ULog._unpack_uint64(data[t_off+2:t_off+10])
""", """                    self.timestamp = subscription.add_sample(data[2:])
"""), ("""    class _MessageData(object):
""", """        def add_sample(self, sample):
            \"\"\" accumulate data to a buffer, will be parsed later. Returns the timestamp \"\"\"
            self.buffer += sample
            # TODO: the timestamp can have another size than uint64
            timestamp, = ULog._unpack_uint64(
                sample[self.timestamp_offset:self.timestamp_offset+8])
            return timestamp

    class _MessageData(object):
""")]},
'mdata-min-size': {C: [("""                raise IndexError('Repeated field name in message format') from e

        def""", """                raise IndexError('Repeated field name in message format') from e
            self.min_data_size = self.dtype.itemsize

        def"""), ("                min_data_size = subscription.dtype.itemsize\n", "                min_data_size = subscription.min_data_size\n")]},
'offset-enumerate': {C: [("""            self.timestamp_offset = 0
            for field in self.field_data:
                if field.field_name == 'timestamp':
                    break
                self.timestamp_offset += ULog._UNPACK_TYPES[field.type_str][1]
""", """            self.timestamp_offset = self._field_offset('timestamp')
"""), ("""        def _parse_format(self, message_formats):
""", """        def _field_offset(self, field_name):
            offset = 0
            for field in self.field_data:
                if field.field_name == field_name:
                    return offset
                offset += ULog.get_field_size(field.type_str)
            return offset

        def _parse_format(self, message_formats):
""")]},
'padding-slice': {C: [("""            while (len(self.field_data) > 0 and
                   self.field_data[-1].field_name.startswith('_padding')):
                self.field_data.pop()
""", """            num_fields = len(self.field_data)
            while (num_fields > 0 and
                   self.field_data[num_fields - 1].field_name.startswith('_padding')):
                num_fields -= 1
            self.field_data = self.field_data[:num_fields]
""")]},
'padding-del': {C: [("""            while (len(self.field_data) > 0 and
                   self.field_data[-1].field_name.startswith('_padding')):
                self.field_data.pop()
""", """            while self.field_data and self.field_data[-1].field_name.startswith('_padding'):
                del self.field_data[-1]
""")]},
'nested-return': {C: [("""            self._parse_nested_type('', self.message_name, message_formats)

            for field""", """            self.field_data = self._flatten('', self.message_name, message_formats)
            for i, field in enumerate(self.field_data):
                if field.field_name == 'timestamp':
                    self.timestamp_idx = i

            for field"""), ("""        def _parse_nested_type(self, prefix_str, type_name, message_formats):
            # we flatten nested types
            message_format = message_formats[type_name]
            for (type_name_fmt, array_size, field_name) in message_format.fields:
                if type_name_fmt in ULog._UNPACK_TYPES:
                    if array_size > 0:
                        for i in range(array_size):
                            self.field_data.append(ULog._FieldData(
                                prefix_str+field_name+'['+str(i)+']', type_name_fmt))
                    else:
                        self.field_data.append(ULog._FieldData(
                            prefix_str+field_name, type_name_fmt))
                    if prefix_str+field_name == 'timestamp':
                        self.timestamp_idx = len(self.field_data) - 1
                else: # nested type
                    if array_size > 0:
                        for i in range(array_size):
                            self._parse_nested_type(prefix_str+field_name+'['+str(i)+'].',
                                                    type_name_fmt, message_formats)
                    else:
                        self._parse_nested_type(prefix_str+field_name+'.',
                                                type_name_fmt, message_formats)
""", """        def _flatten(self, prefix_str, type_name, message_formats):
            # we flatten nested types
            flat_fields = []
            for (type_name_fmt, array_size, field_name) in message_formats[type_name].fields:
                if array_size > 0:
                    names = [f'{prefix_str}{field_name}[{i}]' for i in range(array_size)]
                else:
                    names = [prefix_str + field_name]
                for name in names:
                    if type_name_fmt in ULog._UNPACK_TYPES:
                        flat_fields.append(ULog._FieldData(name, type_name_fmt))
                    else: # nested type
                        flat_fields += self._flatten(name + '.', type_name_fmt, message_formats)
            return flat_fields
""")]},
'default-get': {C: [("""            if def_type not in self._default_parameters:
                self._default_parameters[def_type] = {}
            self._default_parameters[def_type][msg_param.key] = msg_param.value
""", """            defaults = self._default_parameters.setdefault(def_type, {})
            defaults[msg_param.key] = msg_param.value
""")]},
'default-shift': {C: [("""        default_types = msg_param.default_types
        while default_types: # iterate over each bit
            def_type = default_types & (~default_types+1)
            default_types ^= def_type
            def_type = def_type.bit_length() - 1 # bit index
            if def_type""", """        for def_type in range(8): # iterate over each bit
            if not (msg_param.default_types >> def_type) & 1:
                continue
            if def_type""")]},
'multi-return': {C: [("""        if msg_info.key in self._msg_info_multiple_dict:
            if msg_info.is_continued:
                self._msg_info_multiple_dict[msg_info.key][-1].append(msg_info.value)
            else:
                self._msg_info_multiple_dict[msg_info.key].append([msg_info.value])
        else:
            self._msg_info_multiple_dict[msg_info.key] = [[msg_info.value]]
            self._msg_info_multiple_dict_types[msg_info.key] = msg_info.type
""", """        if msg_info.key not in self._msg_info_multiple_dict:
            self._msg_info_multiple_dict[msg_info.key] = []
            self._msg_info_multiple_dict_types[msg_info.key] = msg_info.type

        value_lists = self._msg_info_multiple_dict[msg_info.key]
        if msg_info.is_continued and value_lists:
            value_lists[-1].append(msg_info.value)
        else:
            value_lists.append([msg_info.value])
""")]},
'load-closing': {C: [("""        try:
            # parse the whole file
            self._read""", """        with contextlib.ExitStack() as stack:
            stack.callback(self._close_file)
            # parse the whole file
            self._read"""), ("""        finally:
            self._file_handle.close()
            del self._file_handle
""", """
    def _close_file(self):
        self._file_handle.close()
        del self._file_handle
""")]},
'load-parse': {C: [("""        try:
            # parse the whole file
            self._read_file_header()
            self._last_timestamp = self._start_timestamp
            self._read_file_definitions()

            if self._debug:
                print("header end offset: {:}".format(self._file_handle.tell()))

            if parse_header_only:
                return

            if self.has_data_appended and len(self._appended_offsets) > 0:
                if self._debug:
                    print('This file has data appended')
                for offset in self._appended_offsets:
                    self._read_file_data(message_name_filter_list, read_until=offset)
                    self._file_handle.seek(offset)

            # read the whole file, or the rest if data appended
            self._read_file_data(message_name_filter_list)
            self._convert_subscriptions()
        finally:
            self._file_handle.close()
            del self._file_handle
""", """        try:
            self._parse_file(message_name_filter_list, parse_header_only)
        finally:
            self._file_handle.close()
            del self._file_handle

    def _parse_file(self, message_name_filter_list, parse_header_only):
        # parse the whole file
        self._read_file_header()
        self._last_timestamp = self._start_timestamp
        self._read_file_definitions()

        if self._debug:
            print("header end offset: {:}".format(self._file_handle.tell()))

        if parse_header_only:
            return

        if self.has_data_appended:
            for offset in self._appended_offsets:
                self._read_file_data(message_name_filter_list, read_until=offset)
                self._file_handle.seek(offset)

        # read the whole file, or the rest if data appended
        self._read_file_data(message_name_filter_list)
        self._convert_subscriptions()
""")]},
'header-frombytes': {C: [("        self._start_timestamp, = ULog._unpack_uint64(header_data[8:])\n", "        self._start_timestamp = int.from_bytes(header_data[8:16], 'little')\n"),
 ("        if header_data[:7] != self.HEADER_BYTES:\n", "        if not header_data.startswith(self.HEADER_BYTES):\n"), ("        self._file_version, = struct.unpack('B', header_data[7:8])\n", "        self._file_version = header_data[7]\n")]},
'eof-check': {C: [("""                data = self._file_handle.read(3)
                curr_file_pos += len(data)
                header.initialize(data)
""", """                data = self._file_handle.read(3)
                if len(data) < 3:
                    break # end of the file
                curr_file_pos += 3
                header.initialize(data)
""")]},
'read-message': {C: [("""                data = self._file_handle.read(3)
                curr_file_pos += len(data)
                header.initialize(data)
                data = self._file_handle.read(header.msg_size)
                curr_file_pos += len(data)
                if len(data) < header.msg_size:
                    break # less data than expected. File is most likely cut
""", """                data = self._read_message(header)
                curr_file_pos += 3 + len(data)
                if len(data) < header.msg_size:
                    break # less data than expected. File is most likely cut
"""), ("""    def _read_file_data(self""", """    def _read_message(self, header):
        header.initialize(self._file_handle.read(3))
        return self._file_handle.read(header.msg_size)

    def _read_file_data(self""")]},
'errors-const': {C: [("                except (IndexError, KeyError, struct.error, RecursionError):\n", "                except ULog._DATA_ERRORS:\n"), ("""    # when set to True disables""", """    # raised by messages that cannot be parsed
    _DATA_ERRORS = (IndexError, KeyError, struct.error, RecursionError)

    # when set to True disables""")]},
'wanted': {C: [("""                        if (message_name_filter_list is None or
                                msg_add_logged.message_name in message_name_filter_list):
                            self._subscriptions[msg_add_logged.msg_id] = msg_add_logged
                        else:
                            self._filtered_message_ids.add(msg_add_logged.msg_id)
""", """                        filtered = (message_name_filter_list is not None and
                                    msg_add_logged.message_name not in message_name_filter_list)
                        if filtered:
                            self._filtered_message_ids.add(msg_add_logged.msg_id)
                        else:
                            self._subscriptions[msg_add_logged.msg_id] = msg_add_logged
""")]},
'subscribe-helper': {C: [("""                        msg_add_logged = self._MessageAddLogged(data, header,
                                                                self._message_formats)
                        previous = self._subscriptions.pop(msg_add_logged.msg_id, None)
                        if previous is not None: # the message id is used again
                            self._add_data(previous)
                        if (message_name_filter_list is None or
                                msg_add_logged.message_name in message_name_filter_list):
                            self._subscriptions[msg_add_logged.msg_id] = msg_add_logged
                        else:
                            self._filtered_message_ids.add(msg_add_logged.msg_id)
""", """                        self._subscribe(
                            self._MessageAddLogged(data, header, self._message_formats),
                            message_name_filter_list)
"""), ("""    def _read_file_data(self""", """    def _subscribe(self, subscription, names):
        msg_id = subscription.msg_id
        if msg_id in self._subscriptions: # the message id is used again
            self._add_data(self._subscriptions.pop(msg_id))
        if names is not None and subscription.message_name not in names:
            self._filtered_message_ids.add(msg_id)
            return
        self._subscriptions[msg_id] = subscription

    def _read_file_data(self""")]},
'parse-kw': {C: [("""        ret = ''
        if _RUNNING_PYTHON3 and ULog._disable_str_exceptions:
            ret = _parse_string(cstr, 'ignore')
        else:
            ret = _parse_string(cstr)
        return ret
""", """        if _RUNNING_PYTHON3:
            errors = 'ignore' if ULog._disable_str_exceptions else 'strict'
            return _parse_string(cstr, errors=errors)
        return _parse_string(cstr)
""")]},
'parse-decode': {C: [("        return str(cstr, 'utf-8', errors)\n", "        return cstr.decode('utf-8', errors)\n")]},
'header-inline': {C: [("""                header.initialize(data)
                data = self._file_handle.read(header.msg_size)
                curr""", """                header.msg_size, header.msg_type = ULog._unpack_ushort_byte(data)
                data = self._file_handle.read(header.msg_size)
                curr""")]},
'data-dictcomp': {C: [("""            self.data = {}
            for name in np_array.dtype.names:
                self.data[name] = np_array[name]
""", """            self.data = {name: np_array[name] for name in np_array.dtype.names}
""")]},
'data-array-method': {C: [("""            np_array = np.frombuffer(message_add_logged_obj.buffer,
                                     dtype=message_add_logged_obj.dtype)
            # convert""", """            np_array = message_add_logged_obj.as_array()
            # convert"""), ("""    class _MessageData(object):
""", """        def as_array(self):
            \"\"\" all samples, as structured array \"\"\"
            return np.frombuffer(self.buffer, dtype=self.dtype)

    class _MessageData(object):
""")]},
'field-dataclass': {C: [("""        def __init__(self, field_name, type_str):
            self.field_name = field_name
            self.type_str = type_str

        def __eq__(self, other):
            if not isinstance(other, ULog._FieldData):
                return NotImplemented

            return self.field_name == other.field_name and self.type_str == other.type_str
""", """        field_name: str
        type_str: str
"""), ("    class _FieldData(object):\n", "    @dataclasses.dataclass\n    class _FieldData(object):\n"), ("import contextlib\n", "import contextlib\nimport dataclasses\n")]},
'handle-alias': {C: [("""        initial_file_position = self._file_handle.tell()
        current_file_position""", """        file_handle = self._file_handle
        initial_file_position = file_handle.tell()
        current_file_position"""), ("            current_file_position = self._file_handle.seek(-last_n_bytes, 1)\n", "            current_file_position = file_handle.seek(-last_n_bytes, 1)\n"),
 ("        chunk = self._file_handle.read(search_chunk_size)\n        while", "        chunk = file_handle.read(search_chunk_size)\n        while")]},
'sync-flag': {C: [("""        sync_seq_found = False
        initial""", """        sync_seq_found = False
        search_all = last_n_bytes == -1
        sync_size = len(ULog.SYNC_BYTES)
        initial"""), ("""        if last_n_bytes != -1:
            current_file_position = self""", """        if not search_all:
            current_file_position = self"""), ("""        while len(chunk) >= len(ULog.SYNC_BYTES):
""", """        while len(chunk) >= sync_size:
"""), ("""            if last_n_bytes != -1:
                # we read""", """            if not search_all:
                # we read"""), ("            if last_n_bytes == -1:\n                self._has_sync", "            if search_all:\n                self._has_sync"),
 ("            current_file_position = self._file_handle.seek(-(len(ULog.SYNC_BYTES)-1), 1)\n", "            current_file_position = self._file_handle.seek(1 - sync_size, 1)\n")]},
'sync-abs': {C: [("""            current_file_position += len(chunk)
            chunk_index = chunk.find(ULog.SYNC_BYTES)
""", """            chunk_start = current_file_position
            current_file_position += len(chunk)
            chunk_index = chunk.find(ULog.SYNC_BYTES)
"""), ("""                current_file_position = self._file_handle.seek(current_file_position - len(chunk)\\
                         + chunk_index + len(ULog.SYNC_BYTES), 0)
""", """                current_file_position = self._file_handle.seek(
                    chunk_start + chunk_index + len(ULog.SYNC_BYTES))
""")]},
'sync-once': {C: [("""        chunk = self._file_handle.read(search_chunk_size)
        while len(chunk) >= len(ULog.SYNC_BYTES):
            current""", """        while True:
            chunk = self._file_handle.read(search_chunk_size)
            if len(chunk) < len(ULog.SYNC_BYTES):
                break
            current"""), ("""            current_file_position = self._file_handle.seek(-(len(ULog.SYNC_BYTES)-1), 1)
            chunk = self._file_handle.read(search_chunk_size)
""", """            current_file_position = self._file_handle.seek(-(len(ULog.SYNC_BYTES)-1), 1)
""")]},
'sync-corrupt-first': {C: [("                sync_seq_found = True\n                break\n", "                # declare file corrupt if we skipped bytes to sync sequence\n                self._file_corrupt = True\n                return True\n"),
 ("""        if not sync_seq_found:
            current_file_position = self._file_handle.seek(initial_file_position, 0)

            if last_n_bytes == -1:
                self._has_sync = False
                if self._debug:
                    print("Failed to find sync in file from %i" % initial_file_position)
            else:
                if self._debug:
                    print("Failed to find sync in (%i, %i)" %\\
                        (initial_file_position - last_n_bytes, initial_file_position))
        else:
            # declare file corrupt if we skipped bytes to sync sequence
            self._file_corrupt = True

        return sync_seq_found
""", """        self._file_handle.seek(initial_file_position)
        if last_n_bytes == -1:
            self._has_sync = False
            if self._debug:
                print("Failed to find sync in file from %i" % initial_file_position)
        elif self._debug:
            print("Failed to find sync in (%i, %i)" %\\
                (initial_file_position - last_n_bytes, initial_file_position))
        return False
"""), ("        sync_seq_found = False\n", "")]},
'version-loop': {C: [("""            type_str = ''
            if version[3] < 128: type_str = ' (alpha)'
            elif version[3] < 192: type_str = ' (beta)'
            elif version[3] < 255: type_str = ' (RC)'
            return""", """            type_str = ''
            for limit, name in ((128, 'alpha'), (192, 'beta'), (255, 'RC')):
                if version[3] < limit:
                    type_str = f' ({name})'
                    break
            return""")]},
'types-tuples': {C: [("        'int8_t':   ['b', 1, np.int8],\n        'uint8_t':  ['B', 1, np.uint8],\n", "        'int8_t':   ('b', 1, np.int8),\n        'uint8_t':  ('B', 1, np.uint8),\n")]},
'defaults-if': {C: [("        return self._default_parameters.get(default_type, {})\n", "        if default_type in self._default_parameters:\n            return self._default_parameters[default_type]\n        return {}\n")]},
'appended-bool': {C: [("        return self._incompat_flags[0] & 0x1\n", "        return bool(self._incompat_flags[0] & 0x1)\n")]},
'appended-mod': {C: [("        return self._incompat_flags[0] & 0x1\n", "        return (self._incompat_flags[0] & 0x01) != 0\n")]},
'flags-handler': {C: [("""                    self._compat_flags = msg_flag_bits.compat_flags
                    self._incompat_flags = msg_flag_bits.incompat_flags
                    self._appended_offsets = msg_flag_bits.appended_offsets
                    if self._debug:
                        print('compat flags:  ', self._compat_flags)
                        print('incompat flags:', self._incompat_flags)
                        print('appended offsets:', self._appended_offsets)

                    # check if there are bits set that we don't know
                    unknown_incompat_flag_msg = \\
                    "Unknown incompatible flag set: cannot parse the log"
                    if self._incompat_flags[0] & ~1:
                        raise ValueError(unknown_incompat_flag_msg)
                    for i in range(1, 8):
                        if self._incompat_flags[i]:
                            raise NotImplementedError(unknown_incompat_flag_msg)
""", """                    self._set_flags(msg_flag_bits)
"""), ("""    def _find_sync(self""", """    def _set_flags(self, flag_bits):
        self._compat_flags = flag_bits.compat_flags
        self._incompat_flags = flag_bits.incompat_flags
        self._appended_offsets = flag_bits.appended_offsets

        # check if there are bits set that we don't know
        message = "Unknown incompatible flag set: cannot parse the log"
        first, *others = self._incompat_flags
        if first not in (0, 1):
            raise ValueError(message)
        if any(others):
            raise NotImplementedError(message)

    def _find_sync(self""")]},
'write-param-table': {C: [("""        if isinstance(value, int):
            value_type = "int32_t"
        elif isinstance(value, float):
            value_type = "float"
        else:
            raise TypeError("Found unknown parameter value type")

        key: str = value_type + ' ' + name

        return self._make_info_message_data(key, value, value_type)
""", """        for python_type, value_type in ((int, 'int32_t'), (float, 'float')):
            if isinstance(value, python_type):
                return self._make_info_message_data(f'{value_type} {name}', value, value_type)
        raise TypeError("Found unknown parameter value type")
""")]},
'write-info-concat': {C: [("""        data = bytearray()

        if continued is not None:
            data.extend(struct.pack('<B', continued))

        data.extend(struct.pack('<B', len(key_bytes)))
        data.extend(key_bytes)

        if value_type.startswith('char['):
            value_bytes = bytes(value, 'utf-8')
            data.extend(value_bytes)
        elif value_type.startswith('uint8_t['):
            data.extend(value)
        elif value_type in self._UNPACK_TYPES:
            code = self._UNPACK_TYPES[value_type][0]
            data.extend(struct.pack('<' + code, value))
        else: # array (or non-basic type): kept as raw bytes
            data.extend(value)

        return data
""", """        prefix = b'' if continued is None else struct.pack('<B', continued)
        if value_type.startswith('char['):
            value_bytes = value.encode('utf-8')
        elif value_type in self._UNPACK_TYPES:
            value_bytes = struct.pack('<' + self._UNPACK_TYPES[value_type][0], value)
        else: # array (or non-basic type): kept as raw bytes
            value_bytes = value
        return prefix + struct.pack('<B', len(key_bytes)) + key_bytes + value_bytes
""")]},
'write-data-zip': {C: [("""        for data_set in data_sets:
            data_set_length = len(data_set.data[data_set.field_data[0].field_name])
            for i_sample in range(data_set_length):
                timestamp = data_set.data['timestamp'][i_sample]
                msg_id = struct.pack('<H', data_set.msg_id)
                data = bytearray()
                data.extend(msg_id)
                for field in data_set.field_data:
                    field_name = field.field_name
                    field_type = field.type_str
                    field_encoding = self._UNPACK_TYPES[field_type][0]
                    field_data = data_set.data[field_name][i_sample]
""", """        for data_set in data_sets:
            msg_id = struct.pack('<H', data_set.msg_id)
            columns = [(self._UNPACK_TYPES[field.type_str][0], data_set.data[field.field_name])
                       for field in data_set.field_data]
            for i_sample, timestamp in enumerate(data_set.data['timestamp']):
                data = bytearray(msg_id)
                for field_encoding, column in columns:
                    field_data = column[i_sample]
""")]},
'write-extend': {C: [("""        items = self._make_data_items()
        items = items + self._make_logged_message_items()
        items = items + self._make_tagged_logged_message_items()
        items = items + self._make_dropout_items()
        items = items + self._make_changed_param_items()
""", """        items = [*self._make_data_items(),
                 *self._make_logged_message_items(),
                 *self._make_tagged_logged_message_items(),
                 *self._make_dropout_items(),
                 *self._make_changed_param_items()]
""")]},
'write-message-static': {C: [("""            header = struct.pack('<HB', len(data), self.MSG_TYPE_LOGGING)
            message_items.append((message.timestamp, header + data))
""", """            message_items.append((message.timestamp,
                                  self._make_message(self.MSG_TYPE_LOGGING, data)))
"""), ("""            header = struct.pack('<HB', len(data), self.MSG_TYPE_DROPOUT)
            dropout_items.append((dropout.timestamp, header + data))
""", """            dropout_items.append((dropout.timestamp,
                                  self._make_message(self.MSG_TYPE_DROPOUT, data)))
"""), ("""    def _make_dropout_items(self):""", """    @staticmethod
    def _make_message(msg_type, payload):
        return struct.pack('<HB', len(payload), msg_type) + bytes(payload)

    def _make_dropout_items(self):""")]},
'write-with-if': {C: [("""        if isinstance(log_file, str):
            handle = open(log_file, "wb")
        else:
            handle = contextlib.nullcontext(log_file)

        with handle as ulog_file:
            # Definition""", """        if isinstance(log_file, str):
            with open(log_file, "wb") as opened_file:
                self.write_ulog(opened_file)
                return

        for ulog_file in (log_file,):
            # Definition""")]},
'write-flags-list': {C: [("""        imcompat_flags = copy.deepcopy(self._incompat_flags)
        imcompat_flags[0] = imcompat_flags[0] & 0xFE
        data.extend""", """        imcompat_flags = [self._incompat_flags[0] & ~1] + self._incompat_flags[1:]
        data.extend""")]},
'eq-type': {C: [("""            # Compare data arrays
            arrays_equal = self.data.keys() == other.data.keys()
            if arrays_equal:
                for l_array, r_array in zip(self.data.values(), other.data.values()):
                    arrays_equal = arrays_equal and np.array_equal(l_array, r_array, equal_nan=True)

            return (self.multi_id""", """            # Compare data arrays
            if self.data.keys() != other.data.keys():
                return False
            arrays_equal = all(
                np.array_equal(l_array, r_array, equal_nan=True)
                for l_array, r_array in zip(self.data.values(), other.data.values()))

            return (self.multi_id""")]},
'eq-key': {C: [("""            return (self.log_level == other.log_level and
                    self.tag == other.tag and
                    self.timestamp == other.timestamp and
                    self.message == other.message)
""", """            return self._key() == other._key()

        def _key(self):
            return self.log_level, self.tag, self.timestamp, self.message
""")]},
'changes-arrays': {C: [("""            indices = t != 0 # filter out 0 values
            t = t[indices]
            x = x[indices]
            if len(t) == 0: return []
            ret = [(t[0], x[0])]
            indices = np.where(x[:-1] != x[1:])[0] + 1
            ret.extend(zip(t[indices], x[indices]))
            return ret
""", """            valid = t != 0 # filter out 0 values
            t, x = t[valid], x[valid]
            if len(t) == 0:
                return []
            changed = np.concatenate(([True], x[1:] != x[:-1]))
            return list(zip(t[changed], x[changed]))
""")]},
'changes-nonzero': {C: [("            indices = np.where(x[:-1] != x[1:])[0] + 1\n            ret.extend(zip(t[indices], x[indices]))\n", "            for index in np.flatnonzero(x[1:] != x[:-1]):\n                ret.append((t[index + 1], x[index + 1]))\n")]},
}
