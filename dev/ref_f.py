""" behaviour-preserving edits, sixth round: searches, parsing, writing, equality """
C = 'pyulog/core.py'
REFAC = {'sync-inop':{C:[("""            chunk_index = chunk.find(ULog.SYNC_BYTES)
            if chunk_index >= 0:
""","""            if ULog.SYNC_BYTES in chunk:
                chunk_index = chunk.index(ULog.SYNC_BYTES)
""")]},
'sync-part':{C:[("""            chunk_index = chunk.find(ULog.SYNC_BYTES)
            if chunk_index >= 0:
""","""            before, found, _ = chunk.partition(ULog.SYNC_BYTES)
            chunk_index = len(before)
            if found:
""")]},
'sync-ret':{C:[("""        if not sync_seq_found:
            current_file_position = self._file_handle.seek(initial_file_position, 0)
""","""        if sync_seq_found:
            # declare file corrupt if we skipped bytes to sync sequence
            self._file_corrupt = True
        else:
            self._file_handle.seek(initial_file_position, 0)
"""),("""                        (initial_file_position - last_n_bytes, initial_file_position))
        else:
            # declare file corrupt if we skipped bytes to sync sequence
            self._file_corrupt = True
""","""                        (initial_file_position - last_n_bytes, initial_file_position))
""")]},
'sync-early':{C:[("""                sync_seq_found = True
                break

            if last_n""","""                # declare file corrupt if we skipped bytes to sync sequence
                self._file_corrupt = True
                return True

            if last_n"""),("""        sync_seq_found = False
        initial""","""        initial"""),("""        if not sync_seq_found:
            current_file_position = self._file_handle.seek(initial_file_position, 0)

            if last_n_bytes == -1:
                self._has_sync = False
                if self._debug:
                    print("Failed to find sync in file from %i" % initial_file_position)
            else:
                if self._debug:
                    print("Failed to find sync in (%i, %i)" %\\
                        (initial_file_position - last_n_bytes, initial_file_position))
        else:
            # declare file corrupt if we skipped bytes to sync sequence
            self._file_corrupt = True

        return sync_seq_found
""","""        self._file_handle.seek(initial_file_position, 0)
        if last_n_bytes == -1:
            self._has_sync = False
        return False
""")]},
'sync-while2':{C:[("""        while len(chunk) >= len(ULog.SYNC_BYTES):
            current_file""","""        while not sync_seq_found and len(chunk) >= len(ULog.SYNC_BYTES):
            current_file"""),("""                sync_seq_found = True
                break
""","""                sync_seq_found = True
                continue
""")]},

# ---- parsing
'parse-string-cond': {C: [("""        ret = ''
        if _RUNNING_PYTHON3 and ULog._disable_str_exceptions:
            ret = _parse_string(cstr, 'ignore')
        else:
            ret = _parse_string(cstr)
        return ret
""", """        errors = 'ignore' if _RUNNING_PYTHON3 and ULog._disable_str_exceptions else 'strict'
        return _parse_string(cstr, errors)
""")]},
'header-slices': {C: [("""        if header_data[:7] != self.HEADER_BYTES:
            raise TypeError("Invalid file format (Failed to parse header)")
        self._file_version, = struct.unpack('B', header_data[7:8])
        if self._file_version > 1:
            print("Warning: unknown file version. Will attempt to read it anyway")

        # read timestamp
        self._start_timestamp, = ULog._unpack_uint64(header_data[8:])
""", """        magic, version, timestamp = struct.unpack('<7sBQ', header_data)
        if magic != bytes(self.HEADER_BYTES):
            raise TypeError("Invalid file format (Failed to parse header)")
        if version > 1:
            print("Warning: unknown file version. Will attempt to read it anyway")
        self._file_version = version
        self._start_timestamp = timestamp
""")]},
'header-helper': {C: [("""    def _read_file_definitions(self):
        header = self._MessageHeader()
        while True:
            data = self._file_handle.read(3)
            if len(data) < 3:
                break
            header.initialize(data)
            data = self._file_handle.read(header.msg_size)
            if len(data) < header.msg_size:
                break # less data than expected. File is most likely cut
""", """    def _read_definition_message(self, header):
        data = self._file_handle.read(3)
        if len(data) < 3:
            return None
        header.initialize(data)
        data = self._file_handle.read(header.msg_size)
        if len(data) < header.msg_size:
            return None # less data than expected. File is most likely cut
        return data

    def _read_file_definitions(self):
        header = self._MessageHeader()
        while True:
            data = self._read_definition_message(header)
            if data is None:
                break
""")]},
'walrus': {C: [("""        while True:
            data = self._file_handle.read(3)
            if len(data) < 3:
                break
            header.initialize(data)
            data = self._file_handle.read(header.msg_size)
            if len(data) < header.msg_size:
                break # less""", """        while len(data := self._file_handle.read(3)) == 3:
            header.initialize(data)
            data = self._file_handle.read(header.msg_size)
            if len(data) != header.msg_size:
                break # less""")]},
'flags-helper': {C: [("""                    # check if there are bits set that we don't know
                    unknown_incompat_flag_msg = \\
                    "Unknown incompatible flag set: cannot parse the log"
                    if self._incompat_flags[0] & ~1:
                        raise ValueError(unknown_incompat_flag_msg)
                    for i in range(1, 8):
                        if self._incompat_flags[i]:
                            raise NotImplementedError(unknown_incompat_flag_msg)
""", """                    self._check_incompat_flags()
"""), ("    def _find_sync(self, last_n_bytes=-1):", """    def _check_incompat_flags(self):
        # check if there are bits set that we don't know
        message = "Unknown incompatible flag set: cannot parse the log"
        first, *others = self._incompat_flags
        if first & 0xFE:
            raise ValueError(message)
        if any(others):
            raise NotImplementedError(message)

    def _find_sync(self, last_n_bytes=-1):""")]},
'flags-unpack-one': {C: [("""            self.compat_flags = list(struct.unpack('<'+'B'*8, data[0:8]))
            self.incompat_flags = list(struct.unpack('<'+'B'*8, data[8:16]))
            self.appended_offsets = list(struct.unpack('<'+'Q'*3, data[16:16+3*8]))
""", """            self.compat_flags = list(struct.unpack('<8B', data[:8]))
            self.incompat_flags = list(struct.unpack('<8B', data[8:16]))
            self.appended_offsets = list(struct.unpack('<3Q', data[16:40]))
""")]},
'offsets-reversed': {C: [("""            while len(self.appended_offsets) > 0 and self.appended_offsets[-1] == 0:
                self.appended_offsets.pop()
""", """            while self.appended_offsets and not self.appended_offsets[-1]:
                del self.appended_offsets[-1]
""")]},
'format-fields-helper': {C: [("""            for t in types_str:
                if len(t) > 0:
                    self.fields.append(self._extract_type(t))
""", """            self.fields = [self._extract_type(t) for t in types_str if t]
""")]},
'format-partition': {C: [("""            a_pos = type_str.find('[')
            if a_pos == -1:
                array_size = 0
                type_name = type_str
            else:
                b_pos""", """            if '[' not in type_str:
                array_size = 0
                type_name = type_str
            else:
                a_pos = type_str.index('[')
                b_pos""")]},
'format-early': {C: [("""            if a_pos == -1:
                array_size = 0
                type_name = type_str
            else:
                b_pos = type_str.find(']')
                try:
                    array_size = int(type_str[a_pos+1:b_pos])
                except ValueError as e:
                    raise IndexError('Invalid array size in message format') from e
                type_name = type_str[:a_pos]
            return type_name, array_size, name_str
""", """            if a_pos < 0:
                return type_str, 0, name_str

            b_pos = type_str.find(']')
            try:
                array_size = int(type_str[a_pos+1:b_pos])
            except ValueError as e:
                raise IndexError('Invalid array size in message format') from e
            return type_str[:a_pos], array_size, name_str
""")]},
'info-names': {C: [("""            key_len, = struct.unpack('<B', data[0:1])
            type_key = ULog.parse_string(data[1:1+key_len])
            type_key_split = type_key.split(' ')
            self.type = type_key_split[0]
            self.key = type_key_split[1]
            if self.type.startswith('char['): # it's a string
                self.value = ULog.parse_string(data[1+key_len:])
            elif self.type in ULog._UNPACK_TYPES:
                unpack_type = ULog._UNPACK_TYPES[self.type]
                self.value, = struct.unpack('<'+unpack_type[0], data[1+key_len:])
            else: # probably an array (or non-basic type)
                self.value = data[1+key_len:]
""", """            key_len, = struct.unpack('<B', data[0:1])
            value_offset = 1 + key_len
            type_key_split = ULog.parse_string(data[1:value_offset]).split(' ')
            self.type = type_key_split[0]
            self.key = type_key_split[1]
            self.value = self._parse_value(data[value_offset:])
"""), ("    class _MessageParameterDefault(object):", """        def _parse_value(self, data):
            if self.type.startswith('char['): # it's a string
                return ULog.parse_string(data)
            if self.type not in ULog._UNPACK_TYPES: # probably an array (or non-basic type)
                return data
            code = ULog._UNPACK_TYPES[self.type][0]
            return struct.unpack('<' + code, data)[0]

    class _MessageParameterDefault(object):""")]},
'add-logged-order': {C: [("""            self._parse_format(message_formats)

            self.timestamp_offset = 0
            for field in self.field_data:
                if field.field_name == 'timestamp':
                    break
                self.timestamp_offset += ULog._UNPACK_TYPES[field.type_str][1]

            self.buffer = bytearray() # accumulate all message data here
""", """            self.buffer = bytearray() # accumulate all message data here
            self.timestamp_offset = 0
            self._parse_format(message_formats)

            for field in self.field_data:
                if field.field_name == 'timestamp':
                    break
                self.timestamp_offset += ULog.get_field_size(field.type_str)
""")]},
'add-logged-offset-sum': {C: [("""            self.timestamp_offset = 0
            for field in self.field_data:
                if field.field_name == 'timestamp':
                    break
                self.timestamp_offset += ULog._UNPACK_TYPES[field.type_str][1]
""", """            offset = 0
            for field in self.field_data:
                if field.field_name == 'timestamp':
                    break
                offset = offset + ULog._UNPACK_TYPES[field.type_str][1]
            self.timestamp_offset = offset
""")]},
'add-logged-dtype': {C: [("""            dtype_list = []
            for field in self.field_data:
                numpy_type = ULog._UNPACK_TYPES[field.type_str][2]
                dtype_list.append((field.field_name, numpy_type))
            try:
""", """            dtype_list = [(field.field_name, ULog._UNPACK_TYPES[field.type_str][2])
                          for field in self.field_data]
            try:
""")]},
'add-logged-size': {C: [("""            for field in self.field_data:
                self.max_data_size += ULog._UNPACK_TYPES[field.type_str][1]

            # remove""", """            self.max_data_size = sum(ULog._UNPACK_TYPES[field.type_str][1]
                                     for field in self.field_data)

            # remove""")]},
'nested-names': {C: [("""            message_format = message_formats[type_name]
            for (type_name_fmt, array_size, field_name) in message_format.fields:
                if type_name_fmt in ULog._UNPACK_TYPES:
                    if array_size > 0:
                        for i in range(array_size):
                            self.field_data.append(ULog._FieldData(
                                prefix_str+field_name+'['+str(i)+']', type_name_fmt))
                    else:
                        self.field_data.append(ULog._FieldData(
                            prefix_str+field_name, type_name_fmt))
                    if prefix_str+field_name == 'timestamp':
                        self.timestamp_idx = len(self.field_data) - 1
                else: # nested type
                    if array_size > 0:
                        for i in range(array_size):
                            self._parse_nested_type(prefix_str+field_name+'['+str(i)+'].',
                                                    type_name_fmt, message_formats)
                    else:
                        self._parse_nested_type(prefix_str+field_name+'.',
                                                type_name_fmt, message_formats)
""", """            for (type_name_fmt, array_size, field_name) in message_formats[type_name].fields:
                full_name = prefix_str + field_name
                if array_size > 0:
                    names = [f'{full_name}[{i}]' for i in range(array_size)]
                else:
                    names = [full_name]

                if type_name_fmt not in ULog._UNPACK_TYPES: # nested type
                    for name in names:
                        self._parse_nested_type(name + '.', type_name_fmt, message_formats)
                    continue

                for name in names:
                    self.field_data.append(ULog._FieldData(name, type_name_fmt))
                if full_name == 'timestamp':
                    self.timestamp_idx = len(self.field_data) - 1
""")]},
'data-init-returns': {C: [("""            has_corruption = False
            msg_id, = ULog._unpack_ushort(data[:2])
            if msg_id in subscriptions:
                subscription = subscriptions[msg_id]
                min_data_size = subscription.dtype.itemsize
                data_size = len(data) - 2
                if data_size < min_data_size or data_size > subscription.max_data_size:
                    # Corrupt data: skip
                    self.timestamp = 0
                    has_corruption = True
                else:
                    if data_size > min_data_size:
                        # Strip extra data (_padding bytes)
                        data = data[:2+min_data_size]
                    # accumulate data to a buffer, will be parsed later
                    subscription.buffer += data[2:]
                    t_off = subscription.timestamp_offset
                    # TODO: the timestamp can have another size than uint64
                    self.timestamp, = ULog._unpack_uint64(data[t_off+2:t_off+10])
            else:
                if not msg_id in ulog_object._filtered_message_ids:
                    # this is an error, but make it non-fatal
                    if not msg_id in ulog_object._missing_message_ids:
                        ulog_object._missing_message_ids.add(msg_id)
                        if ulog_object._debug:
                            print(ulog_object._file_handle.tell())
                        print('Warning: no subscription found for message id {:}. Continuing,'
                              ' but file is most likely corrupt'.format(msg_id))
                    has_corruption = True
                self.timestamp = 0
            return has_corruption
""", """            msg_id, = ULog._unpack_ushort(data[:2])
            subscription = subscriptions.get(msg_id)
            if subscription is None:
                self.timestamp = 0
                if msg_id in ulog_object._filtered_message_ids:
                    return False
                # this is an error, but make it non-fatal
                if msg_id not in ulog_object._missing_message_ids:
                    ulog_object._missing_message_ids.add(msg_id)
                    if ulog_object._debug:
                        print(ulog_object._file_handle.tell())
                    print('Warning: no subscription found for message id {:}. Continuing,'
                          ' but file is most likely corrupt'.format(msg_id))
                return True

            payload = data[2:]
            size = subscription.dtype.itemsize
            if not size <= len(payload) <= subscription.max_data_size:
                # Corrupt data: skip
                self.timestamp = 0
                return True

            # Strip extra data (_padding bytes)
            payload = payload[:size]
            # accumulate data to a buffer, will be parsed later
            subscription.buffer += payload
            t_off = subscription.timestamp_offset
            # TODO: the timestamp can have another size than uint64
            self.timestamp, = ULog._unpack_uint64(payload[t_off:t_off+8])
            return False
""")]},
'default-bits-range': {C: [("""        default_types = msg_param.default_types
        while default_types: # iterate over each bit
            def_type = default_types & (~default_types+1)
            default_types ^= def_type
            def_type = def_type.bit_length() - 1 # bit index
            if def_type not in self._default_parameters:
                self._default_parameters[def_type] = {}
            self._default_parameters[def_type][msg_param.key] = msg_param.value
""", """        for bit in range(8):
            if not (msg_param.default_types >> bit) & 1:
                continue
            defaults = self._default_parameters.setdefault(bit, {})
            defaults[msg_param.key] = msg_param.value
""")]},
'multi-get': {C: [("""        if msg_info.key in self._msg_info_multiple_dict:
            if msg_info.is_continued:
                self._msg_info_multiple_dict[msg_info.key][-1].append(msg_info.value)
            else:
                self._msg_info_multiple_dict[msg_info.key].append([msg_info.value])
        else:
            self._msg_info_multiple_dict[msg_info.key] = [[msg_info.value]]
            self._msg_info_multiple_dict_types[msg_info.key] = msg_info.type
""", """        lists = self._msg_info_multiple_dict.get(msg_info.key)
        if lists is None:
            self._msg_info_multiple_dict[msg_info.key] = [[msg_info.value]]
            self._msg_info_multiple_dict_types[msg_info.key] = msg_info.type
        elif msg_info.is_continued:
            lists[-1].append(msg_info.value)
        else:
            lists.append([msg_info.value])
""")]},
'load-sections': {C: [("""            if self.has_data_appended and len(self._appended_offsets) > 0:
                if self._debug:
                    print('This file has data appended')
                for offset in self._appended_offsets:
                    self._read_file_data(message_name_filter_list, read_until=offset)
                    self._file_handle.seek(offset)

            # read the whole file, or the rest if data appended
            self._read_file_data(message_name_filter_list)
            self._convert_subscriptions()
""", """            self._read_data_sections(message_name_filter_list)
            self._convert_subscriptions()
"""), ("    def _read_file_header(self):", """    def _read_data_sections(self, message_name_filter_list):
        offsets = self._appended_offsets if self.has_data_appended else []
        if offsets and self._debug:
            print('This file has data appended')
        for offset in offsets:
            self._read_file_data(message_name_filter_list, read_until=offset)
            self._file_handle.seek(offset)

        # read the whole file, or the rest if data appended
        self._read_file_data(message_name_filter_list)

    def _read_file_header(self):""")]},
'load-not-header': {C: [("""            if parse_header_only:
                return

            if self.has_data_appended and len(self._appended_offsets) > 0:
                if self._debug:
                    print('This file has data appended')
                for offset in self._appended_offsets:
                    self._read_file_data(message_name_filter_list, read_until=offset)
                    self._file_handle.seek(offset)

            # read the whole file, or the rest if data appended
            self._read_file_data(message_name_filter_list)
            self._convert_subscriptions()
""", """            if not parse_header_only:
                if self.has_data_appended:
                    for offset in self._appended_offsets:
                        self._read_file_data(message_name_filter_list, read_until=offset)
                        self._file_handle.seek(offset)

                # read the whole file, or the rest if data appended
                self._read_file_data(message_name_filter_list)
                self._convert_subscriptions()
""")]},
'convert-loop': {C: [("""        while self._subscriptions:
            _, value = self._subscriptions.popitem()
            self._add_data(value)
        # Sorting""", """        for value in reversed(list(self._subscriptions.values())):
            self._add_data(value)
        self._subscriptions.clear()
        # Sorting""")]},
'convert-sorted': {C: [("        self.data_list.sort(key=lambda ds: (ds.name, ds.multi_id))\n", "        self._data_list = sorted(self._data_list, key=lambda ds: (ds.name, ds.multi_id))\n")]},
'add-data-inline': {C: [("""        if len(subscription.buffer) > 0: # only add if we have data
            data_item = ULog.Data(subscription)
            self._data_list.append(data_item)
""", """        if not subscription.buffer: # only add if we have data
            return
        self._data_list.append(ULog.Data(subscription))
""")]},
'resubscribe': {C: [("""                        previous = self._subscriptions.pop(msg_add_logged.msg_id, None)
                        if previous is not None: # the message id is used again
                            self._add_data(previous)
                        if (message_name_filter_list is None or
                                msg_add_logged.message_name in message_name_filter_list):
                            self._subscriptions[msg_add_logged.msg_id] = msg_add_logged
                        else:
                            self._filtered_message_ids.add(msg_add_logged.msg_id)
""", """                        msg_id = msg_add_logged.msg_id
                        if msg_id in self._subscriptions: # the message id is used again
                            self._add_data(self._subscriptions.pop(msg_id))
                        if message_name_filter_list is not None and \\
                                msg_add_logged.message_name not in message_name_filter_list:
                            self._filtered_message_ids.add(msg_id)
                        else:
                            self._subscriptions[msg_id] = msg_add_logged
""")]},
'tagged-get': {C: [("""                        if msg_log_tagged.tag in self._logged_messages_tagged:
                            self._logged_messages_tagged[msg_log_tagged.tag].append(msg_log_tagged)
                        else:
                            self._logged_messages_tagged[msg_log_tagged.tag] = [msg_log_tagged]
""", """                        tag = msg_log_tagged.tag
                        if tag not in self._logged_messages_tagged:
                            self._logged_messages_tagged[tag] = []
                        self._logged_messages_tagged[tag].append(msg_log_tagged)
""")]},
'last-time-elif': {C: [("""                        if has_corruption:
                            self._file_corrupt = True
                        elif msg_data.timestamp > self._last_timestamp:
                            self._last_timestamp = msg_data.timestamp
""", """                        if has_corruption:
                            self._file_corrupt = True
                            continue
                        if self._last_timestamp < msg_data.timestamp:
                            self._last_timestamp = msg_data.timestamp
""")]},
'read-size-check': {C: [("""                if len(data) < header.msg_size:
                    break # less data than expected. File is most likely cut

                if curr_file_pos > read_until:
                    if self._debug:
                        print('read until offset=%i done, current pos=%i' %
                              (read_until, curr_file_pos))
                    break
""", """                if len(data) < header.msg_size or curr_file_pos > read_until:
                    break # less data than expected (file is most likely cut) or end reached
""")]},
'read-pos-once': {C: [("""                data = self._file_handle.read(3)
                curr_file_pos += len(data)
                header.initialize(data)
                data = self._file_handle.read(header.msg_size)
                curr_file_pos += len(data)
                if len(data) < header.msg_size:""", """                data = self._file_handle.read(3)
                header.initialize(data)
                curr_file_pos += 3
                data = self._file_handle.read(header.msg_size)
                curr_file_pos += len(data)
                if len(data) < header.msg_size:""")]},
'corrupt-return': {C: [("""        data_corrupt = False
        if header.msg_type == 0 or header.msg_size == 0 or header.msg_size > 10000:
            if not self._file_corrupt and self._debug:
                print('File corruption detected')
            data_corrupt = True
            self._file_corrupt = True

        return data_corrupt
""", """        if header.msg_type != 0 and 0 < header.msg_size <= 10000:
            return False
        if not self._file_corrupt and self._debug:
            print('File corruption detected')
        self._file_corrupt = True
        return True
""")]},
'report-helper': {C: [("""            except (IndexError, KeyError, struct.error):
                if not self._file_corrupt:
                    print("File corruption detected while reading file definitions!")
                    self._file_corrupt = True
""", """            except (IndexError, KeyError, struct.error):
                self._report_corruption("definitions")
"""), ("""                except (IndexError, KeyError, struct.error, RecursionError):
                    if not self._file_corrupt:
                        print("File corruption detected while reading file data!")
                        self._file_corrupt = True
""", """                except (IndexError, KeyError, struct.error, RecursionError):
                    self._report_corruption("data")
"""), ("    def _find_sync(self, last_n_bytes=-1):", """    def _report_corruption(self, section):
        if not self._file_corrupt:
            print("File corruption detected while reading file {}!".format(section))
        self._file_corrupt = True

    def _find_sync(self, last_n_bytes=-1):""")]},
'version-tuple': {C: [("""        if key_name in self._msg_info_dict:
            val = self._msg_info_dict[key_name]
            return ((val >> 24) & 0xff, (val >> 16) & 0xff, (val >> 8) & 0xff, val & 0xff)
        return None
""", """        val = self._msg_info_dict.get(key_name)
        if val is None:
            return None
        return tuple((val >> shift) & 0xff for shift in (24, 16, 8, 0))
""")]},
'version-str-early': {C: [("""        if not version is None and version[3] >= 64:
            type_str = ''
            if version[3] < 128: type_str = ' (alpha)'
            elif version[3] < 192: type_str = ' (beta)'
            elif version[3] < 255: type_str = ' (RC)'
            return 'v{}.{}.{}{}'.format(version[0], version[1], version[2], type_str)
        return None
""", """        if version is None:
            return None
        major, minor, patch, release_type = version
        if release_type < 64:
            return None
        if release_type == 255:
            type_str = ''
        elif release_type >= 192:
            type_str = ' (RC)'
        elif release_type >= 128:
            type_str = ' (beta)'
        else:
            type_str = ' (alpha)'
        return f'v{major}.{minor}.{patch}{type_str}'
""")]},
'level-const': {C: [("""    class MessageLogging(object):
        \"\"\" ULog logged string message representation \"\"\"
""", """    _LOG_LEVELS = ('EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR', 'WARNING', 'NOTICE', 'INFO', 'DEBUG')

    @staticmethod
    def _log_level_name(log_level):
        index = log_level - ord('0')
        if 0 <= index < len(ULog._LOG_LEVELS):
            return ULog._LOG_LEVELS[index]
        return 'UNKNOWN'

    class MessageLogging(object):
        \"\"\" ULog logged string message representation \"\"\"
"""), ("""                    self.message == other.message)

        def log_level_str(self):
            return {ord('0'): 'EMERGENCY',
                    ord('1'): 'ALERT',
                    ord('2'): 'CRITICAL',
                    ord('3'): 'ERROR',
                    ord('4'): 'WARNING',
                    ord('5'): 'NOTICE',
                    ord('6'): 'INFO',
                    ord('7'): 'DEBUG'}.get(self.log_level, 'UNKNOWN')

    class MessageLoggingTagged""", """                    self.message == other.message)

        def log_level_str(self):
            return ULog._log_level_name(self.log_level)

    class MessageLoggingTagged""")]},
'dataset-next2': {C: [("""        return [elem for elem in self._data_list
                if elem.name == name and elem.multi_id == multi_instance][0]
""", """        for elem in self._data_list:
            if elem.name == name and elem.multi_id == multi_instance:
                return elem
        raise IndexError('dataset not found')
""")]},
'changes-loop': {C: [("""            t = self.data['timestamp']
            x = self.data[field_name]
            indices = t != 0 # filter out 0 values
            t = t[indices]
            x = x[indices]
            if len(t) == 0: return []
            ret = [(t[0], x[0])]
            indices = np.where(x[:-1] != x[1:])[0] + 1
            ret.extend(zip(t[indices], x[indices]))
            return ret
""", """            valid = self.data['timestamp'] != 0 # filter out 0 values
            t = self.data['timestamp'][valid]
            x = self.data[field_name][valid]
            if t.size == 0:
                return []
            changed = np.flatnonzero(x[1:] != x[:-1]) + 1
            return [(t[0], x[0])] + list(zip(t[changed], x[changed]))
""")]},
'eq-all': {C: [("""            arrays_equal = self.data.keys() == other.data.keys()
            if arrays_equal:
                for l_array, r_array in zip(self.data.values(), other.data.values()):
                    arrays_equal = arrays_equal and np.array_equal(l_array, r_array, equal_nan=True)

            return (self.multi_id == other.multi_id and
                    self.msg_id == other.msg_id and
                    self.name == other.name and
                    self.field_data == other.field_data and
                    self.timestamp_idx == other.timestamp_idx and
                    arrays_equal)
""", """            if (self.multi_id, self.msg_id, self.name) != (other.multi_id, other.msg_id, other.name):
                return False
            if self.field_data != other.field_data or self.timestamp_idx != other.timestamp_idx:
                return False
            if self.data.keys() != other.data.keys():
                return False
            return all(np.array_equal(l_array, r_array, equal_nan=True)
                       for l_array, r_array in zip(self.data.values(), other.data.values()))
""")]},
'eq-vars': {C: [("""        return all(
            self_value == getattr(other, field)
            for field, self_value in self.__dict__.items()
        )
""", """        for field, self_value in vars(self).items():
            if not self_value == getattr(other, field):
                return False
        return True
""")]},
# ---- writing
'write-message': {C: [("""            header = struct.pack('<HB', len(data), self.MSG_TYPE_FORMAT)

            file.write(header)
            file.write(data)
""", """            file.write(struct.pack('<HB', len(data), self.MSG_TYPE_FORMAT) + data)
""")]},
'write-header-pack': {C: [("""        header_data = bytearray()
        header_data.extend(self.HEADER_BYTES)
        header_data.extend(struct.pack('B', self._file_version))
        header_data.extend(struct.pack('<Q', self._start_timestamp))
        if len(header_data) != 16:
            raise TypeError("Written header is too short")

        file.write(header_data)
""", """        file.write(bytes(self.HEADER_BYTES))
        file.write(struct.pack('<BQ', self._file_version, self._start_timestamp))
""")]},
'write-flags-copy': {C: [("""        imcompat_flags = copy.deepcopy(self._incompat_flags)
        imcompat_flags[0] = imcompat_flags[0] & 0xFE
        data.extend(struct.pack('<' + 'B' * 8, *imcompat_flags))

        offsets = [0, 0, 0]
        data.extend(struct.pack('<' + 'Q' * 3, *offsets))
""", """        incompat_flags = [self._incompat_flags[0] & ~1] + self._incompat_flags[1:]
        data.extend(struct.pack('<8B', *incompat_flags))
        data.extend(bytes(3 * 8)) # no appended data
""")]},
'write-info-unpack': {C: [("""        for message in self._msg_info_dict.items():
            value_type: str = self._msg_info_dict_types[message[0]]
            key: str = value_type + ' ' + message[0]
            value: str = message[1]

            data""", """        for name, value in self._msg_info_dict.items():
            value_type = self._msg_info_dict_types[name]
            key = f'{value_type} {name}'

            data""")]},
'write-items-chain': {C: [("""        items = self._make_data_items()
        items = items + self._make_logged_message_items()
        items = items + self._make_tagged_logged_message_items()
        items = items + self._make_dropout_items()
        items = items + self._make_changed_param_items()

        # Sort items by timestamp
        items.sort(key=lambda x: x[0])

        for _, buffer in items:
            file.write(buffer)
""", """        items = []
        for make_items in (self._make_data_items, self._make_logged_message_items,
                           self._make_tagged_logged_message_items, self._make_dropout_items,
                           self._make_changed_param_items):
            items.extend(make_items())

        # write items sorted by timestamp
        file.writelines(buffer for _, buffer in sorted(items, key=lambda item: item[0]))
""")]},
'write-data-hoist': {C: [("""            data_set_length = len(data_set.data[data_set.field_data[0].field_name])
            for i_sample in range(data_set_length):
                timestamp = data_set.data['timestamp'][i_sample]
                msg_id = struct.pack('<H', data_set.msg_id)
                data = bytearray()
                data.extend(msg_id)
""", """            msg_id = struct.pack('<H', data_set.msg_id)
            for i_sample, timestamp in enumerate(data_set.data['timestamp']):
                data = bytearray(msg_id)
""")]},
'write-data-format': {C: [("""                    # For char type, convert np.int8 into single bytes() object
                    # so that struct.pack can handle it
                    if field_encoding == 'c':
                        field_data = struct.pack('<b', field_data)
                    # bool samples are np.int8, too, and can have other values than 0 and 1
                    elif field_encoding == '?':
                        field_encoding = 'b'

                    data.extend(struct.pack('<' + field_encoding, field_data))
""", """                    # char and bool samples are np.int8
                    if field_encoding in ('c', '?'):
                        field_encoding = 'b'

                    data += struct.pack('<' + field_encoding, field_data)
""")]},
'write-tagged-comp': {C: [("""        for message_list in self._logged_messages_tagged.values():
            for message in message_list:
                data = bytearray()
                data.extend(struct.pack('<BHQ', message.log_level, message.tag, message.timestamp))
                data.extend(bytes(message.message, 'utf-8'))
""", """        for messages in self._logged_messages_tagged.values():
            for message in messages:
                data = struct.pack('<BHQ', message.log_level, message.tag, message.timestamp)
                data += message.message.encode('utf-8')
""")]},
'write-defaults-sorted': {C: [("""        for bit, bit_dict in self._default_parameters.items():
            bitfield = 1 << bit

            for name, value in bit_dict.items():
                data = bytearray()
                data.extend(struct.pack('<B', bitfield))
                data.extend(self._make_parameter_data(name, value))
""", """        for bit in self._default_parameters:
            for name, value in self._default_parameters[bit].items():
                data = struct.pack('<B', 1 << bit) + self._make_parameter_data(name, value)
""")]},
'write-sections-list': {C: [("""            # Definition section
            self._write_file_header(ulog_file)
            self._write_flags(ulog_file)
            self._write_format_messages(ulog_file)
            self._write_info_messages(ulog_file)
            self._write_info_multiple_message(ulog_file)
            self._write_initial_parameters(ulog_file)
            self._write_default_parameters(ulog_file)

            # Data section
            self._write_logged_message_subscriptions(ulog_file)
            self._write_data_section(ulog_file)
""", """            self._write_file_header(ulog_file)
            for write in (
                    # Definition section
                    self._write_flags, self._write_format_messages, self._write_info_messages,
                    self._write_info_multiple_message, self._write_initial_parameters,
                    self._write_default_parameters,
                    # Data section
                    self._write_logged_message_subscriptions, self._write_data_section):
                write(ulog_file)
""")]},
'make-info-code': {C: [("""        if value_type.startswith('char['):
            value_bytes = bytes(value, 'utf-8')
            data.extend(value_bytes)
        elif value_type.startswith('uint8_t['):
            data.extend(value)
        elif value_type in self._UNPACK_TYPES:
            code = self._UNPACK_TYPES[value_type][0]
            data.extend(struct.pack('<' + code, value))
        else: # array (or non-basic type): kept as raw bytes
            data.extend(value)

        return data
""", """        if value_type in self._UNPACK_TYPES:
            code = self._UNPACK_TYPES[value_type][0]
            value_bytes = struct.pack('<' + code, value)
        elif value_type.startswith('char['):
            value_bytes = value.encode('utf-8')
        else: # array (or non-basic type): kept as raw bytes
            value_bytes = value

        return data + value_bytes
""")]},
}
