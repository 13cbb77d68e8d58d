C = 'pyulog/core.py'
REFAC = {
 'helper-handle-info': {C: [("""                    if header.msg_type == self.MSG_TYPE_INFO:
                        msg_info = self._MessageInfo(data, header)
                        self._msg_info_dict[msg_info.key] = msg_info.value
                        self._msg_info_dict_types[msg_info.key] = msg_info.type
                    elif header.msg_type == self.MSG_TYPE_INFO_MULTIPLE:""", """                    if header.msg_type == self.MSG_TYPE_INFO:
                        self._add_message_info(self._MessageInfo(data, header))
                    elif header.msg_type == self.MSG_TYPE_INFO_MULTIPLE:"""),
   ("""    def _add_message_info_multiple(self, msg_info):""", """    def _add_message_info(self, msg_info):
        self._msg_info_dict_types[msg_info.key] = msg_info.type
        self._msg_info_dict[msg_info.key] = msg_info.value

    def _add_message_info_multiple(self, msg_info):""")]},
 'defs-early-continue': {C: [("""                if header.msg_type == self.MSG_TYPE_INFO:
                    msg_info = self._MessageInfo(data, header)
                    self._msg_info_dict[msg_info.key] = msg_info.value
                    self._msg_info_dict_types[msg_info.key] = msg_info.type
                elif header.msg_type == self.MSG_TYPE_INFO_MULTIPLE:
                    msg_info = self._MessageInfo(data, header, is_info_multiple=True)
                    self._add_message_info_multiple(msg_info)
                elif header.msg_type == self.MSG_TYPE_FORMAT:""", """                if header.msg_type == self.MSG_TYPE_INFO:
                    msg_info = self._MessageInfo(data, header)
                    self._msg_info_dict[msg_info.key] = msg_info.value
                    self._msg_info_dict_types[msg_info.key] = msg_info.type
                    continue
                if header.msg_type == self.MSG_TYPE_INFO_MULTIPLE:
                    msg_info = self._MessageInfo(data, header, is_info_multiple=True)
                    self._add_message_info_multiple(msg_info)
                    continue
                if header.msg_type == self.MSG_TYPE_FORMAT:""")]},
 'read-until-inf': {C: [("            read_until = 1 << 50 # make it larger than any possible log file", "            read_until = float('inf')")]},
 'read-until-none': {C: [("""        if read_until is None:
            read_until = 1 << 50 # make it larger than any possible log file

""", ""), ("                if curr_file_pos > read_until:", "                if read_until is not None and curr_file_pos > read_until:")]},
 'pos-from-tell': {C: [("""                curr_file_pos += len(data)
                if len(data) < header.msg_size:""", """                curr_file_pos = self._file_handle.tell()
                if len(data) < header.msg_size:""")]},
 'multi-setdefault': {C: [("""        if msg_info.key in self._msg_info_multiple_dict:
            if msg_info.is_continued:
                self._msg_info_multiple_dict[msg_info.key][-1].append(msg_info.value)
            else:
                self._msg_info_multiple_dict[msg_info.key].append([msg_info.value])
        else:
            self._msg_info_multiple_dict[msg_info.key] = [[msg_info.value]]
            self._msg_info_multiple_dict_types[msg_info.key] = msg_info.type""", """        key = msg_info.key
        if key not in self._msg_info_multiple_dict:
            self._msg_info_multiple_dict_types[key] = msg_info.type
            self._msg_info_multiple_dict[key] = [[msg_info.value]]
            return
        lists = self._msg_info_multiple_dict[key]
        if not msg_info.is_continued:
            lists.append([])
        lists[-1].append(msg_info.value)""")]},
 'default-for-bits': {C: [("""        default_types = msg_param.default_types
        while default_types: # iterate over each bit
            def_type = default_types & (~default_types+1)
            default_types ^= def_type
            def_type = def_type.bit_length() - 1 # bit index
            if def_type not in self._default_parameters:
                self._default_parameters[def_type] = {}
            self._default_parameters[def_type][msg_param.key] = msg_param.value""", """        for def_type in range(8):
            if msg_param.default_types & (1 << def_type):
                defaults = self._default_parameters.setdefault(def_type, {})
                defaults[msg_param.key] = msg_param.value""")]},
 'tag-setdefault': {C: [("""                        if msg_log_tagged.tag in self._logged_messages_tagged:
                            self._logged_messages_tagged[msg_log_tagged.tag].append(msg_log_tagged)
                        else:
                            self._logged_messages_tagged[msg_log_tagged.tag] = [msg_log_tagged]""", """                        self._logged_messages_tagged.setdefault(
                            msg_log_tagged.tag, []).append(msg_log_tagged)""")]},
 'time-max': {C: [("""                        elif msg_data.timestamp > self._last_timestamp:
                            self._last_timestamp = msg_data.timestamp""", """                        else:
                            self._last_timestamp = max(self._last_timestamp, msg_data.timestamp)""")]},
 'flatten-generator': {C: [("""            self._parse_nested_type('', self.message_name, message_formats)

            for field in self.field_data:
                self.max_data_size += ULog._UNPACK_TYPES[field.type_str][1]
""", """            self._parse_nested_type('', self.message_name, message_formats)
            self.max_data_size = sum(ULog._UNPACK_TYPES[field.type_str][1]
                                     for field in self.field_data)
"""), ("""                    if array_size > 0:
                        for i in range(array_size):
                            self.field_data.append(ULog._FieldData(
                                prefix_str+field_name+'['+str(i)+']', type_name_fmt))
                    else:
                        self.field_data.append(ULog._FieldData(
                            prefix_str+field_name, type_name_fmt))
                    if prefix_str""", """                    full_name = prefix_str+field_name
                    names = [full_name] if array_size == 0 else \\
                        ['%s[%d]' % (full_name, i) for i in range(array_size)]
                    for name in names:
                        self.field_data.append(ULog._FieldData(name, type_name_fmt))
                    if prefix_str""")]},
 'filter-set': {C: [("""                        if (message_name_filter_list is None or
                                msg_add_logged.message_name in message_name_filter_list):
                            self._subscriptions[msg_add_logged.msg_id] = msg_add_logged
                        else:
                            self._filtered_message_ids.add(msg_add_logged.msg_id)""", """                        wanted = message_name_filter_list is None
                        if not wanted:
                            wanted = msg_add_logged.message_name in set(message_name_filter_list)
                        if not wanted:
                            self._filtered_message_ids.add(msg_add_logged.msg_id)
                        else:
                            self._subscriptions[msg_add_logged.msg_id] = msg_add_logged""")]},
 'data-get': {C: [("""            if msg_id in subscriptions:
                subscription = subscriptions[msg_id]
                min_data""", """            subscription = subscriptions.get(msg_id)
            if subscription is not None:
                min_data""")]},
 'data-chain-compare': {C: [("if data_size < min_data_size or data_size > subscription.max_data_size:", "if not min_data_size <= data_size <= subscription.max_data_size:")]},
 'flags-any': {C: [("""                    for i in range(1, 8):
                        if self._incompat_flags[i]:
                            raise NotImplementedError(unknown_incompat_flag_msg)""", """                    if any(self._incompat_flags[1:]):
                        raise NotImplementedError(unknown_incompat_flag_msg)""")]},
 'offsets-strip': {C: [("""            while len(self.appended_offsets) > 0 and self.appended_offsets[-1] == 0:
                self.appended_offsets.pop()""", """            while self.appended_offsets and not self.appended_offsets[-1]:
                del self.appended_offsets[-1]""")]},
 'with-open': {C: [("""        if isinstance(log_file, str):
            self._file_handle = open(log_file, "rb") #pylint: disable=consider-using-with
        else:
            self._file_handle = log_file

        try:""", """        self._file_handle = open(log_file, "rb") if isinstance(log_file, str) else log_file
        try:""")]},
 'corrupt-helper': {C: [("""                except (IndexError, KeyError, struct.error, RecursionError):
                    if not self._file_corrupt:
                        print("File corruption detected while reading file data!")
                        self._file_corrupt = True""", """                except (IndexError, KeyError, struct.error, RecursionError):
                    self._mark_corrupt("data")"""), ("""            except (IndexError, KeyError, struct.error):
                if not self._file_corrupt:
                    print("File corruption detected while reading file definitions!")
                    self._file_corrupt = True""", """            except (IndexError, KeyError, struct.error):
                self._mark_corrupt("definitions")"""), ("""    def _find_sync(self, last_n_bytes=-1):""", """    def _mark_corrupt(self, where):
        if self._file_corrupt:
            return
        self._file_corrupt = True
        print("File corruption detected while reading file {}!".format(where))

    def _find_sync(self, last_n_bytes=-1):""")]},
 'info-unpack-from': {C: [("            type_key = ULog.parse_string(data[1:1+key_len])\n            type_key_split = type_key.split(' ')\n            self.type = type_key_split[0]\n            self.key = type_key_split[1]", "            value_start = 1 + key_len\n            type_key = ULog.parse_string(data[1:value_start]).split(' ')\n            self.type, self.key = type_key[0], type_key[1]")]},
 'sync-while': {C: [("""        chunk = self._file_handle.read(search_chunk_size)
        while len(chunk) >= len(ULog.SYNC_BYTES):
            current_file_position += len(chunk)""", """        sync_length = len(ULog.SYNC_BYTES)
        chunk = self._file_handle.read(search_chunk_size)
        while True:
            if len(chunk) < sync_length:
                break
            current_file_position += len(chunk)""")]},
 'sync-in': {C: [("""            chunk_index = chunk.find(ULog.SYNC_BYTES)
            if chunk_index >= 0:
                if""", """            chunk_index = chunk.find(ULog.SYNC_BYTES)
            if chunk_index != -1:
                if""")]},
 'header-split': {C: [("""        header_data = self._file_handle.read(16)
        if len(header_data) != 16:
            raise TypeError("Invalid file format (Header too short)")
        if header_data[:7] != self.HEADER_BYTES:
            raise""", """        header_data = self._file_handle.read(16)
        if len(header_data) < 16:
            raise TypeError("Invalid file format (Header too short)")
        if not header_data.startswith(self.HEADER_BYTES):
            raise"""), ("self._file_version, = struct.unpack('B', header_data[7:8])", "self._file_version = header_data[7]")]},
 'dispatch-dict': {C: [("""                elif header.msg_type == self.MSG_TYPE_FORMAT:
                    msg_format = self.MessageFormat(data, header)
                    self._message_formats[msg_format.name] = msg_format
                elif header.msg_type == self.MSG_TYPE_PARAMETER:
                    msg_info = self._MessageInfo(data, header)
                    self._initial_parameters[msg_info.key] = msg_info.value
""", """                elif header.msg_type in self._definition_handlers():
                    self._definition_handlers()[header.msg_type](data, header)
"""), ("    def _read_file_definitions(self):", """    def _definition_handlers(self):
        return {self.MSG_TYPE_FORMAT: self._handle_format,
                self.MSG_TYPE_PARAMETER: self._handle_parameter}

    def _handle_format(self, data, header):
        msg_format = self.MessageFormat(data, header)
        self._message_formats[msg_format.name] = msg_format

    def _handle_parameter(self, data, header):
        msg_info = self._MessageInfo(data, header)
        self._initial_parameters[msg_info.key] = msg_info.value

    def _read_file_definitions(self):""")]},
}
