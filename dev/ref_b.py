C = 'pyulog/core.py'
W = "            header = struct.pack('<HB', len(data), self.MSG_TYPE_%s)\n\n            file.write(header)\n            file.write(data)\n"
REFAC = {
 'write-helper': {C: [(W % 'INFO', "            self._write_message(file, self.MSG_TYPE_INFO, data)\n"),
                      (W % 'PARAMETER', "            self._write_message(file, self.MSG_TYPE_PARAMETER, data)\n"),
                      (W % 'FORMAT', "            self._write_message(file, self.MSG_TYPE_FORMAT, data)\n"),
                      ("    def _write_flags(self, file):", """    @staticmethod
    def _write_message(file, msg_type, payload):
        file.write(struct.pack('<HB', len(payload), msg_type) + bytes(payload))

    def _write_flags(self, file):""")]},
 'header-one-pack': {C: [("""        header_data = bytearray()
        header_data.extend(self.HEADER_BYTES)
        header_data.extend(struct.pack('B', self._file_version))
        header_data.extend(struct.pack('<Q', self._start_timestamp))
        if len(header_data) != 16:
            raise TypeError("Written header is too short")

        file.write(header_data)
""", """        file.write(self.HEADER_BYTES + struct.pack('<BQ', self._file_version, self._start_timestamp))
""")]},
 'flags-list': {C: [("""        data = bytearray()
        data.extend(struct.pack('<' + 'B' * 8, *self._compat_flags))

        # When writing the log back to a .ulg file, don't mark data as appended
        imcompat_flags = copy.deepcopy(self._incompat_flags)
        imcompat_flags[0] = imcompat_flags[0] & 0xFE
        data.extend(struct.pack('<' + 'B' * 8, *imcompat_flags))

        offsets = [0, 0, 0]
        data.extend(struct.pack('<' + 'Q' * 3, *offsets))
""", """        incompat_flags = [self._incompat_flags[0] & ~1] + list(self._incompat_flags[1:])
        data = struct.pack('<8B8B3Q', *self._compat_flags, *incompat_flags, 0, 0, 0)
"""), ("import copy\n", "")]},
 'items-comprehension': {C: [("""        dropout_items = []

        for dropout in self._dropouts:
            data = bytearray()
            data.extend(struct.pack('<H', dropout.duration))

            header = struct.pack('<HB', len(data), self.MSG_TYPE_DROPOUT)
            dropout_items.append((dropout.timestamp, header + data))

        return dropout_items
""", """        return [(d.timestamp, struct.pack('<HBH', 2, self.MSG_TYPE_DROPOUT, d.duration)) for d in self._dropouts]
"""), ("""        for message in self._logged_messages:
            data = bytearray()
            data.extend(struct.pack('<BQ', message.log_level, message.timestamp))
            data.extend(bytes(message.message, 'utf-8'))

            header = struct.pack('<HB', len(data), self.MSG_TYPE_LOGGING)
            message_items.append((message.timestamp, header + data))
""", """        for message in self._logged_messages:
            data = struct.pack('<BQ', message.log_level, message.timestamp) + message.message.encode('utf-8')
            message_items.append((message.timestamp, struct.pack('<HB', len(data), self.MSG_TYPE_LOGGING) + data))
""")]},
 'items-generator': {C: [("""        message_items = []

        for message_list in self._logged_messages_tagged.values():
            for message in message_list:
                data = bytearray()
                data.extend(struct.pack('<BHQ', message.log_level, message.tag, message.timestamp))
                data.extend(bytes(message.message, 'utf-8'))

                header = struct.pack('<HB', len(data), self.MSG_TYPE_LOGGING_TAGGED)
                message_items.append((message.timestamp, header + data))

        return message_items
""", """        for message_list in self._logged_messages_tagged.values():
            for message in message_list:
                data = struct.pack('<BHQ', message.log_level, message.tag, message.timestamp)
                data += bytes(message.message, 'utf-8')
                header = struct.pack('<HB', len(data), self.MSG_TYPE_LOGGING_TAGGED)
                yield message.timestamp, header + data
"""), ("items = items + self._make_tagged_logged_message_items()", "items.extend(self._make_tagged_logged_message_items())")]},
 'sort-sorted': {C: [("""        # Sort items by timestamp
        items.sort(key=lambda x: x[0])

        for _, buffer in items:
            file.write(buffer)
""", """        for item in sorted(items, key=lambda item: item[0]):
            file.write(item[1])
""")]},
 'sort-itemgetter': {C: [("items.sort(key=lambda x: x[0])", "items.sort(key=operator.itemgetter(0))"), ("import copy\n", "import copy\nimport operator\n")]},
 'continued-enumerate': {C: [("""                continued = False
                for value in value_set:
                    data = self._make_info_message_data(key, value, value_type, continued)
                    header = struct.pack('<HB', len(data), self.MSG_TYPE_INFO_MULTIPLE)

                    file.write(header)
                    file.write(data)

                    continued = True
""", """                for i, value in enumerate(value_set):
                    data = self._make_info_message_data(key, value, value_type, i > 0)
                    file.write(struct.pack('<HB', len(data), self.MSG_TYPE_INFO_MULTIPLE))
                    file.write(data)
""")]},
 'param-table': {C: [("""        if isinstance(value, int):
            value_type = "int32_t"
        elif isinstance(value, float):
            value_type = "float"
        else:
            raise TypeError("Found unknown parameter value type")

        key: str = value_type + ' ' + name

        return self._make_info_message_data(key, value, value_type)
""", """        value_type = {True: "int32_t", False: "float"}[isinstance(value, int)]
        if not isinstance(value, (int, float)):
            raise TypeError("Found unknown parameter value type")
        return self._make_info_message_data('{} {}'.format(value_type, name), value, value_type)
""")]},
 'formats-join': {C: [("""            data = bytearray()

            data.extend(bytes(message_format.name + ':', 'utf-8'))
            for field in message_format.fields:
                # Determine the field type (e.g. int16_t or float[8])
                field_type: str = field[0]
                array_size: int = field[1]
                field_name: str = field[2]

                if array_size > 0:
                    encoded_field = '%s[%d] %s;' % (field_type, array_size, field_name)
                else:
                    encoded_field = '%s %s;' % (field_type, field_name)
                data.extend(bytes(encoded_field, 'utf-8'))
""", """            text = message_format.name + ':'
            for field_type, array_size, field_name in message_format.fields:
                text += f'{field_type}[{array_size}] {field_name};' if array_size else f'{field_type} {field_name};'
            data = text.encode()
""")]},
 'eq-tuples': {C: [("""            return (self.log_level == other.log_level and
                    self.timestamp == other.timestamp and
                    self.message == other.message)
""", """            return (self.log_level, self.timestamp, self.message) == (
                other.log_level, other.timestamp, other.message)
"""), ("            return self.duration == other.duration and self.timestamp == other.timestamp\n", """            if self.duration != other.duration:
                return False
            return self.timestamp == other.timestamp
""")]},
 'eq-log-loop': {C: [("""        return all(
            self_value == getattr(other, field)
            for field, self_value in self.__dict__.items()
        )
""", """        for field, self_value in self.__dict__.items():
            if self_value != getattr(other, field):
                return False
        return True
""")]},
 'eq-data-loop': {C: [("""            # Compare data arrays
            arrays_equal = self.data.keys() == other.data.keys()
            if arrays_equal:
                for l_array, r_array in zip(self.data.values(), other.data.values()):
                    arrays_equal = arrays_equal and np.array_equal(l_array, r_array, equal_nan=True)
""", """            arrays_equal = self.data.keys() == other.data.keys() and all(
                np.array_equal(array, other.data[name], equal_nan=True) for name, array in self.data.items())
""")]},
 'dataset-loop': {C: [("""        return [elem for elem in self._data_list
                if elem.name == name and elem.multi_id == multi_instance][0]
""", """        for elem in self._data_list:
            if elem.name == name and elem.multi_id == multi_instance:
                return elem
        raise IndexError('dataset not found')
""")]},
 'version-fstring': {C: [("""            type_str = ''
            if version[3] < 128: type_str = ' (alpha)'
            elif version[3] < 192: type_str = ' (beta)'
            elif version[3] < 255: type_str = ' (RC)'
            return 'v{}.{}.{}{}'.format(version[0], version[1], version[2], type_str)
""", """            major, minor, patch, kind = version
            suffix = '' if kind == 255 else ' (alpha)' if kind < 128 else ' (beta)' if kind < 192 else ' (RC)'
            return f'v{major}.{minor}.{patch}{suffix}'
"""), ("            val = self._msg_info_dict[key_name]\n            return ((val >> 24) & 0xff, (val >> 16) & 0xff, (val >> 8) & 0xff, val & 0xff)\n",
       "            return tuple(struct.pack('>I', self._msg_info_dict[key_name]))\n")]},
 'changes-diff': {C: [("""            if len(t) == 0: return []
            ret = [(t[0], x[0])]
            indices = np.where(x[:-1] != x[1:])[0] + 1
            ret.extend(zip(t[indices], x[indices]))
            return ret
""", """            if not len(t):
                return []
            changed = np.flatnonzero(x[1:] != x[:-1]) + 1
            return [(t[0], x[0])] + list(zip(t[changed], x[changed]))
""")]},
 'definitions-buffer': {C: [("""        with handle as ulog_file:
            # Definition section
            self._write_file_header(ulog_file)
            self._write_flags(ulog_file)
            self._write_format_messages(ulog_file)
            self._write_info_messages(ulog_file)
            self._write_info_multiple_message(ulog_file)
""", """        with handle as ulog_file:
            # Definition section
            for write in (self._write_file_header, self._write_flags, self._write_format_messages, self._write_info_messages,
                          self._write_info_multiple_message):
                write(ulog_file)
""")]},
 'mkdata-slices': {C: [("""            data_set_length = len(data_set.data[data_set.field_data[0].field_name])
            for i_sample in range(data_set_length):
                timestamp = data_set.data['timestamp'][i_sample]
                msg_id = struct.pack('<H', data_set.msg_id)
                data = bytearray()
                data.extend(msg_id)
""", """            for i_sample, timestamp in enumerate(data_set.data['timestamp']):
                data = bytearray(struct.pack('<H', data_set.msg_id))
""")]},
}
