""" behaviour-preserving edits, seventh round: database and tools """
D = 'pyulog/db.py'
M = 'pyulog/migrate_db.py'
CSV = 'pyulog/ulog2csv.py'
EXT = 'pyulog/extract_message.py'
PAR = 'pyulog/params.py'
INFO = 'pyulog/info.py'
MSG = 'pyulog/messages.py'
EV = 'pyulog/px4_events.py'
GPS = 'pyulog/extract_gps_dump.py'
KML = 'pyulog/ulog2kml.py'
BAG = 'pyulog/ulog2ros2bag.py'
PX4 = 'pyulog/px4.py'
REFAC = {
'db-exists': {D: [("""            count, = cur.fetchone()
            cur.close()

            return count == 1
""", """            (count,) = cur.fetchone()
            cur.close()
        return bool(count)
""")]},
'db-pk-none': {D: [("""        primary_key = None
        with db_handle() as con:
            cur = con.cursor()
            cur.execute('''
                SELECT Id
                FROM ULog
                WHERE SHA256Sum = ?
                ''', (sha256sum,))
            row = cur.fetchone()
            if row:
                primary_key = row[0]
            cur.close()
        return primary_key
""", """        with db_handle() as con:
            row = con.execute('''
                SELECT Id
                FROM ULog
                WHERE SHA256Sum = ?
                ''', (sha256sum,)).fetchone()
        return row[0] if row is not None else None
""")]},
'db-hash-iter2': {D: [("""            while True:
                block = open_file.read(4096)
                file_hash.update(block)
                if block == b'':
                    break
""", """            block = open_file.read(65536)
            while block:
                file_hash.update(block)
                block = open_file.read(65536)
""")]},
'db-hash-context': {D: [("""        if isinstance(log_file, str):
            file_context = open(log_file, 'rb') # pylint: disable=consider-using-with
        elif log_file.closed:
            file_context = open(log_file.name, 'rb')
        else:
            file_context = contextlib.nullcontext(log_file)
""", """        path = None
        if isinstance(log_file, str):
            path = log_file
        elif log_file.closed:
            path = log_file.name
        file_context = contextlib.nullcontext(log_file) if path is None else open(path, 'rb')
""")]},
'db-args-first': {D: [("""        with db_handle() as con:
            cur = con.cursor()
            cur.execute('PRAGMA user_version')
            (db_version,) = cur.fetchone()
            if db_version < DatabaseULog.SCHEMA_VERSION:
                raise ValueError('Database version %d < schema version %d, migration needed.' % (
                    db_version,
                    DatabaseULog.SCHEMA_VERSION
            ))

        if log_file is not None and primary_key is not None:
            raise ValueError('You cannot provide both primary_key and log_file.')
        if log_file is None and primary_key is None:
            raise ValueError('You must provide either a primary_key or log_file.')

""", """        if log_file is not None and primary_key is not None:
            raise ValueError('You cannot provide both primary_key and log_file.')
        if log_file is None and primary_key is None:
            raise ValueError('You must provide either a primary_key or log_file.')

        with db_handle() as con:
            (db_version,) = con.execute('PRAGMA user_version').fetchone()
        if db_version < self.SCHEMA_VERSION:
            raise ValueError(f'Database version {db_version} < schema version {self.SCHEMA_VERSION}, migration needed.')
""")]},
'db-lazy-flag': {D: [("        self._lazy_loaded = lazy and log_file is None # a file is always read completely\n", "        self._lazy_loaded = lazy if log_file is None else False # a file is always read completely\n")]},
'db-flags-map': {D: [("""            self._compat_flags = [ord(c) for c in ulog_result[3]]
            self._incompat_flags = [ord(c) for c in ulog_result[4]]
""", """            self._compat_flags = list(map(ord, ulog_result[3]))
            self._incompat_flags = list(map(ord, ulog_result[4]))
""")]},
'db-row-unpack': {D: [("""            ulog_result = cur.fetchone()
            self._file_version = ulog_result[0]
            self._start_timestamp = ulog_result[1]
            self._last_timestamp = ulog_result[2]
            self._compat_flags = [ord(c) for c in ulog_result[3]]
            self._incompat_flags = [ord(c) for c in ulog_result[4]]
            self._sync_seq_cnt = ulog_result[5]
            self._has_sync = ulog_result[6]
            self._sha256sum = ulog_result[7]
""", """            (self._file_version, self._start_timestamp, self._last_timestamp, compat_flags,
             incompat_flags, self._sync_seq_cnt, self._has_sync, self._sha256sum) = cur.fetchone()
            self._compat_flags = [ord(c) for c in compat_flags]
            self._incompat_flags = [ord(c) for c in incompat_flags]
""")]},
'db-load-comp': {D: [("""            for timestamp, duration in cur.fetchall():
                self._dropouts.append(
                    DatabaseULog.DatabaseMessageDropout(
                        timestamp=timestamp,
                        duration=duration,
                    )
                )
""", """            self._dropouts.extend(DatabaseULog.DatabaseMessageDropout(*row) for row in cur)
""")]},
'db-load-messages': {D: [("""            for log_level, timestamp, message in cur.fetchall():
                self._logged_messages.append(
                    DatabaseULog.DatabaseMessageLogging(
                        log_level=log_level,
                        timestamp=timestamp,
                        message=message,
                    )
                )
""", """            self._logged_messages = [
                DatabaseULog.DatabaseMessageLogging(log_level, timestamp, message)
                for log_level, timestamp, message in cur.fetchall()
            ]
""")]},
'db-load-params-dict': {D: [("""            for key, value in cur.fetchall():
                self._initial_parameters[key] = DatabaseULog._stored_value(value)
""", """            self._initial_parameters.update(
                {key: self._stored_value(value) for key, value in cur.fetchall()})
""")]},
'db-load-defaults': {D: [("""                if default_type not in self._default_parameters:
                    self._default_parameters[default_type] = {}
                self._default_parameters[default_type][key] = DatabaseULog._stored_value(value)
""", """                defaults = self._default_parameters.setdefault(default_type, {})
                defaults[key] = DatabaseULog._stored_value(value)
""")]},
'db-load-multi-helper': {D: [("""                for (list_id,) in cur.fetchall():
                    cur.execute('''
                        SELECT Value
                        FROM ULogMessageInfoMultipleListElement
                        WHERE ListId = ?
                        ORDER BY SeriesIndex
                        ''', (list_id,))
                    self._msg_info_multiple_dict[key].append(
                        [DatabaseULog._stored_value(value) for (value,) in cur.fetchall()])
""", """                lists = self._msg_info_multiple_dict[key]
                for (list_id,) in cur.fetchall():
                    lists.append(self._load_info_list(cur, list_id))
"""), ("    def get_dataset(self, name, multi_instance=0, lazy=False, db_cursor=None, caching=True):", """    def _load_info_list(self, cur, list_id):
        ''' Read one list of a continued information message. '''
        cur.execute('''
            SELECT Value
            FROM ULogMessageInfoMultipleListElement
            WHERE ListId = ?
            ORDER BY SeriesIndex
            ''', (list_id,))
        return [DatabaseULog._stored_value(row[0]) for row in cur.fetchall()]

    def get_dataset(self, name, multi_instance=0, lazy=False, db_cursor=None, caching=True):""")]},
'db-load-formats-unpack': {D: [("""            for row in cur.fetchall():
                msg_name = row[0]
                field_data = row[1:]
                if msg_name""", """            for msg_name, *field in cur.fetchall():
                field_data = tuple(field)
                if msg_name""")]},
'db-get-fields': {D: [("""                field_results = cur.fetchall()
                for field_name, data_type, value_bytes in field_results:
                    fields.append(DatabaseULog._FieldData(field_name=field_name,type_str=data_type))
                    dtype = DatabaseULog._UNPACK_TYPES[data_type][2]
                    data[field_name] = np.frombuffer(value_bytes, dtype=dtype)
""", """                for field_name, data_type, value_bytes in cur.fetchall():
                    _, _, dtype = self._UNPACK_TYPES[data_type]
                    data[field_name] = np.frombuffer(value_bytes, dtype=dtype)
                    fields.append(self._FieldData(field_name, data_type))
""")]},
'db-get-existing': {D: [("""        existing_dataset = None
        for dataset in self._data_list:
            if dataset.name == name and dataset.multi_id == multi_instance:
                existing_dataset = dataset
                break

        if (caching
                and existing_dataset is not None
                and (lazy or existing_dataset.data)):
            return existing_dataset
""", """        existing_dataset = self._find_dataset(name, multi_instance)
        if caching and existing_dataset is not None:
            if lazy or existing_dataset.data:
                return existing_dataset
"""), ("    def save(self, append_json=False):", """    def _find_dataset(self, name, multi_instance):
        for dataset in self._data_list:
            if (dataset.name, dataset.multi_id) == (name, multi_instance):
                return dataset
        return None

    def save(self, append_json=False):""")]},
'db-save-guards': {D: [("""        if self._pk is not None:
            raise KeyError('Cannot save logs that are already in the database')

        if self._lazy_loaded:
            raise ValueError('Cannot save after lazy load because it has no datasets.')

        pk_from_hash = DatabaseULog.primary_key_from_sha256sum(self._db, self._sha256sum)
""", """        self._check_saveable()
        pk_from_hash = self.primary_key_from_sha256sum(self._db, self._sha256sum)
"""), ("    def delete(self):", """    def _check_saveable(self):
        if self._pk is not None:
            raise KeyError('Cannot save logs that are already in the database')
        if self._lazy_loaded:
            raise ValueError('Cannot save after lazy load because it has no datasets.')

    def delete(self):""")]},
'db-save-json-helper': {D: [("""                        timestamp_list = [str(s) for s in dataset.data['timestamp'].tolist()]
                        values_json = str(
                            dict(zip(timestamp_list, values.tolist()))
                        ).replace('nan', 'null').replace('-inf', 'null').replace(
                            'inf', 'null').replace("'", '"')
                        json_placeholder""", """                        timestamps = map(str, dataset.data['timestamp'].tolist())
                        values_json = str(dict(zip(timestamps, values.tolist())))
                        for old, new in (('nan', 'null'), ('-inf', 'null'), ('inf', 'null'), ("'", '"')):
                            values_json = values_json.replace(old, new)
                        json_placeholder""")]},
'db-save-flags': {D: [("                    ''.join([chr(n) for n in self._compat_flags]),\n                    ''.join([chr(n) for n in self._incompat_flags]),\n", "                    ''.join(map(chr, self._compat_flags)),\n                    ''.join(chr(flag) for flag in self._incompat_flags),\n")]},
'db-save-offset-rows': {D: [("""                ''', [(
                    list_index,
                    offset,
                    primary_key,
                ) for list_index, offset in enumerate(self._appended_offsets)])
""", """                ''', [(i, self._appended_offsets[i], primary_key)
                      for i in range(len(self._appended_offsets))])
""")]},
'db-save-tagged-flat': {D: [("""            for tag, messages in self._logged_messages_tagged.items():
                cur.executemany('''
                    INSERT INTO ULogMessageLoggingTagged
                    (LogLevel, Timestamp, Tag, Message, ULogId)
                    VALUES
                    (?, ?, ?, ?, ?)
                    ''', [(
                        message.log_level,
                        message.timestamp,
                        tag,
                        message.message,
                        primary_key,
                    ) for message in messages])
""", """            cur.executemany('''
                INSERT INTO ULogMessageLoggingTagged
                (LogLevel, Timestamp, Tag, Message, ULogId)
                VALUES
                (?, ?, ?, ?, ?)
                ''', [(
                    message.log_level,
                    message.timestamp,
                    tag,
                    message.message,
                    primary_key,
                ) for tag, messages in self._logged_messages_tagged.items() for message in messages])
""")]},
'db-save-changed': {D: [("                ) for timestamp, key, value in self.changed_parameters])\n", "                ) for (timestamp, key, value) in self._changed_parameters])\n")]},
'db-save-info-lists': {D: [("""                        ''', [(
                            series_index,
                            value,
                            list_id,
                        ) for series_index, value in enumerate(message_list)])
""", """                        ''', list(zip(range(len(message_list)), message_list,
                                      [list_id] * len(message_list))))
""")]},
'db-delete': {D: [("""        with self._db() as con:
            cur = con.cursor()
            cur.execute('''
                DELETE FROM ULog
                WHERE Id = ?
            ''', (self._pk,)
            )
            cur.close()
        self._pk = None
""", """        primary_key = self._pk
        with self._db() as con:
            con.execute('DELETE FROM ULog WHERE Id = ?', (primary_key,))
        self._pk = None
""")]},
'db-stored': {D: [("        return float('nan') if value is None else value\n", "        if value is None:\n            return math.nan\n        return value\n"), ("import contextlib\n", "import contextlib\nimport math\n")]},
# ---- migration
'mig-range': {M: [("""        for migration_id in range(db_schema_version+1,
                                  DatabaseULog.SCHEMA_VERSION+1):
            migration_filename, migration_lines""", """        migration_id = db_schema_version
        while migration_id < class_schema_version:
            migration_id += 1
            migration_filename, migration_lines""")]},
'mig-version-helper': {M: [("""    with db_handle() as con:
        cur = con.cursor()
        cur.execute('PRAGMA user_version')
        (db_schema_version,) = cur.fetchone()
        cur.close()

    if""", """    with db_handle() as con:
        db_schema_version = con.execute('PRAGMA user_version').fetchone()[0]

    if""")]},
'mig-lines': {M: [("""        migration_lines = migration_file.read()
    if not migration_lines.strip().startswith('BEGIN;'):
        raise ValueError(f'Migration file {migration_filename} must start with "BEGIN;"')
    if not migration_lines.strip().endswith('COMMIT;'):
        raise ValueError(f'Migration file {migration_filename} must end with "COMMIT;"')

    # set the version inside of the transaction, together with the changes
    migration_lines = migration_lines.strip()[:-len('COMMIT;')]
    migration_lines += f'PRAGMA user_version = {migration_id};\\nCOMMIT;'
    return migration_filename, migration_lines
""", """        script = migration_file.read().strip()
    if not script.startswith('BEGIN;'):
        raise ValueError(f'Migration file {migration_filename} must start with "BEGIN;"')
    if not script.endswith('COMMIT;'):
        raise ValueError(f'Migration file {migration_filename} must end with "COMMIT;"')

    set_version = 'PRAGMA user_version = {};\\n'.format(migration_id)
    script = script[:-len('COMMIT;')] + set_version + 'COMMIT;'
    return migration_filename, script
""")]},
# ---- tools
'csv-continue': {CSV: [("""            result = array_pattern.fullmatch(f.field_name)
            if result and f.type_str == 'char':  # string (array of char's)
""", """            result = array_pattern.fullmatch(f.field_name) if f.type_str == 'char' else None
            if result is not None:  # string (array of char's)
""")]},
'csv-splitext': {CSV: [("""    if output:
        base_name = os.path.basename(output_file_prefix)
        output_file_prefix = os.path.join(output, base_name)
""", """    if output:
        output_file_prefix = os.path.join(output, os.path.basename(output_file_prefix))
""")]},
'csv-times': {CSV: [("""            time_s_i = np.append(np.where(d.data['timestamp'] >= time_s * 1e6)[0],
                                 num_data_points)[0] if time_s else 0
            #get the index for row upto the timestamp of the required value
            time_e_i = np.append(np.where(d.data['timestamp'] >= time_e * 1e6)[0],
                                 num_data_points)[0] if time_e else num_data_points
""", """            timestamps = d.data['timestamp']
            time_s_i, time_e_i = 0, num_data_points
            if time_s:
                after = timestamps >= time_s * 1e6
                time_s_i = after.argmax() if after.any() else num_data_points
            #get the index for row upto the timestamp of the required value
            if time_e:
                after = timestamps >= time_e * 1e6
                time_e_i = after.argmax() if after.any() else num_data_points
""")]},
'csv-next': {CSV: [("""            time_s_i = np.append(np.where(d.data['timestamp'] >= time_s * 1e6)[0],
                                 num_data_points)[0] if time_s else 0
""", """            time_s_i = next((i for i, t in enumerate(d.data['timestamp']) if t >= time_s * 1e6),
                            num_data_points) if time_s else 0
""")]},
'csv-string-loop': {CSV: [("""    s = bytearray()
    for index in range(array_size):
        character = data.data[f'{field_name}[{index}]'][data_index]
        if character == 0:
            break
        s.append(int(character) & 0xff)
    return ULog.parse_string(s)
""", """    characters = [data.data[f'{field_name}[{index}]'][data_index] for index in range(array_size)]
    s = bytes(int(character) & 0xff for character in characters)
    return ULog.parse_string(s.split(b'\\0', 1)[0])
""")]},
'csv-row-zip': {CSV: [("""                for k in range(len(data_keys)):
                    if data_keys[k] in string_array_sizes: # string
                        s = read_string_data(d, data_keys[k], string_array_sizes[data_keys[k]], i)
                        csvfile.write(s)
                    else:
                        csvfile.write(str(d.data[data_keys[k]][i]))
                    if k != last_elem:
                        csvfile.write(delimiter)
                csvfile.write('\\n')
""", """                for k, key in enumerate(data_keys):
                    if k > 0:
                        csvfile.write(delimiter)
                    size = string_array_sizes.get(key)
                    if size is not None: # string
                        csvfile.write(read_string_data(d, key, size, i))
                    else:
                        csvfile.write(str(d.data[key][i]))
                csvfile.write('\\n')
"""), ("            last_elem = len(data_keys)-1\n", "")]},
'ext-slice': {EXT: [("""    for i in range(time_s_i, time_e_i):
        row = {}
        for key in data_keys:
            row[key] = data.data[key][i]
        values.append(row)
""", """    columns = {key: data.data[key][time_s_i:time_e_i] for key in data_keys}
    for i in range(max(0, time_e_i - time_s_i)):
        values.append({key: column[i] for key, column in columns.items()})
""")]},
'ext-mask': {EXT: [("""    time_s_i = np.append(np.where(data.data['timestamp'] >= time_s * 1e6)[0],
                         num_data_points)[0] if time_s else 0
    #get the index for row upto the timestamp of the required value
    time_e_i = np.append(np.where(data.data['timestamp'] >= time_e * 1e6)[0],
                         num_data_points)[0] if time_e else num_data_points
""", """    def first_index(seconds, default):
        if not seconds:
            return default
        indices = np.where(data.data['timestamp'] >= seconds * 1e6)[0]
        return indices[0] if len(indices) > 0 else num_data_points

    time_s_i = first_index(time_s, 0)
    time_e_i = first_index(time_e, num_data_points)
""")]},
'par-values': {PAR: [("""            values = [params[param_key]]

            if not args.initial:
                for t, name, value in ulog.changed_parameters:
                    if name == param_key:
                        values += [value]
""", """            values = [params[param_key]]
            if not args.initial:
                values.extend(value for _, name, value in ulog.changed_parameters
                              if name == param_key)
""")]},
'par-write-helper': {PAR: [("""            output_file.write(param_key)
            output_file.write(delimiter)
            output_file.write(str(param_value))
            output_file.write(delimiter)

            if isinstance(param_value, float):
                # Float
                param_type = 9
            else:
                # Int
                param_type = 6

            output_file.write(str(param_type))
            output_file.write('\\n')
""", """            param_type = 9 if isinstance(param_value, float) else 6
            output_file.write(delimiter.join([param_key, str(param_value), str(param_type)]) + '\\n')
""")]},
'info-duration': {INFO: [("""    m2, s2 = divmod(int((ulog.last_timestamp - ulog.start_timestamp)/1e6), 60)
    h2, m2 = divmod(m2, 60)
""", """    duration = int((ulog.last_timestamp - ulog.start_timestamp)/1e6)
    h2, m2, s2 = duration // 3600, duration // 60 % 60, duration % 60
""")]},
'info-size': {INFO: [("        message_size = sum(ULog.get_field_size(f.type_str) for f in d.field_data)\n", "        message_size = 0\n        for field in d.field_data:\n            message_size += ULog.get_field_size(field.type_str)\n")]},
'info-message-get': {INFO: [("""        if len(ulog.msg_info_multiple_dict) > 0 and message in ulog.msg_info_multiple_dict:
            message_info_multiple = ulog.msg_info_multiple_dict[message]
            for i, m in enumerate(message_info_multiple):
                if len(m) > 0 and isinstance(m[0], (bytes, bytearray)):
                    print("# {} {} (len: {:}):".format(message, i, sum(len(item) for item in m)))
                    print(separator.join(' '.join('{:02x}'.format(x) for x in item) for item in m))
                else:
                    print("# {} {}:".format(message, i))
                    print(separator.join(m))
        else:
            print("message {} not found".format(message))
""", """        message_info_multiple = ulog.msg_info_multiple_dict.get(message)
        if message_info_multiple is None:
            print("message {} not found".format(message))
            return
        for i, m in enumerate(message_info_multiple):
            binary = len(m) > 0 and isinstance(m[0], (bytes, bytearray))
            if binary:
                print("# {} {} (len: {:}):".format(message, i, sum(map(len, m))))
                m = [' '.join('{:02x}'.format(x) for x in item) for item in m]
            else:
                print("# {} {}:".format(message, i))
            print(separator.join(m))
""")]},
'msg-comp': {MSG: [("""        for t, log_level, message in logged_messages:
            # backwards compatibility: a string message with appended tab is output
            # in addition to an event with the same message so we can ignore those
            if message.endswith('\\t'):
                continue
            events.append((t, log_level, message))

        logged_messages = sorted(events, key=lambda m: m[0])
""", """        events += [m for m in logged_messages if not m[2].endswith('\\t')]
        logged_messages = sorted(events, key=lambda m: m[0])
""")]},
'msg-sort-inplace': {MSG: [("        logged_messages = sorted(events, key=lambda m: m[0])\n", "        events.sort(key=lambda m: m[0])\n        logged_messages = events\n")]},
'msg-time': {MSG: [("""        m1, s1 = divmod(int(t/1e6), 60)
        h1, m1 = divmod(m1, 60)
        print("{:d}:{:02d}:{:02d} {:}: {:}".format(h1, m1, s1, log_level, message))
""", """        seconds = int(t/1e6)
        print(f"{seconds // 3600:d}:{seconds // 60 % 60:02d}:{seconds % 60:02d} {log_level}: {message}")
""")]},
'ev-level-const': {EV: [("""        def event_log_level_str(log_level: int):
            return {0: 'EMERGENCY',
                    1: 'ALERT',
                    2: 'CRITICAL',
                    3: 'ERROR',
                    4: 'WARNING',
                    5: 'NOTICE',
                    6: 'INFO',
                    7: 'DEBUG',
                    8: 'PROTOCOL',
                    9: 'DISABLED'}.get(log_level, 'UNKNOWN')

""", ""), ("                log_level_str = event_log_level_str(log_level)\n", "                log_level_str = self._LOG_LEVELS[log_level]\n"),
  ("    def __init__(self):\n        self._events_profile", "    _LOG_LEVELS = ['EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR', 'WARNING', 'NOTICE', 'INFO', 'DEBUG']\n\n    def __init__(self):\n        self._events_profile")]},
'ev-get-dataset': {EV: [("""            events = ulog.get_dataset('event')
            all_ids = events.data['id']

            if len(all_ids) == 0:
                return []
""", """            data = ulog.get_dataset('event').data
            all_ids = data['id']

            if len(all_ids) == 0:
                return messages
"""), ("                log_level = (events.data['log_levels'][event_idx] >> 4) & 0xf\n", "                log_level = (data['log_levels'][event_idx] >> 4) & 0xf\n"),
  ("                    if arg_str not in events.data:\n", "                    if arg_str not in data:\n"), ("                    arg = events.data[arg_str][event_idx]\n", "                    arg = data[arg_str][event_idx]\n"),
  ("                t = events.data['timestamp'][event_idx]\n", "                t = data['timestamp'][event_idx]\n")]},
'ev-make-parser': {EV: [("""                parser = Parser()
                parser.load_definitions(event_definitions_json)
                parser.set_profile(self._events_profile)
                return parser
""", """                return self._make_parser(event_definitions_json)
"""), ("""            self._default_parser = Parser()
            self._default_parser.load_definitions(json_definitions)
            self._default_parser.set_profile(self._events_profile)
""", """            self._default_parser = self._make_parser(json_definitions)
"""), ("    def _get_event_parser(self, ulog: ULog)", """    def _make_parser(self, definitions) -> Parser:
        parser = Parser()
        parser.load_definitions(definitions)
        parser.set_profile(self._events_profile)
        return parser

    def _get_event_parser(self, ulog: ULog)""")]},
'gps-skip': {GPS: [("""                instance = instances[i]
                msg_len = msg_lens[i]
                if instance == required_instance:
                    if msg_len & (1<<7):
                        msg_len = msg_len & ~(np.uint8(1) << 7)
                        file_handle = to_dev_file
                    else:
                        file_handle = from_dev_file
                    for k in range(msg_len):
                        file_handle.write(gps_dump_data.data['data['+str(k)+']'][i])
""", """                if instances[i] != required_instance:
                    continue
                file_handle = to_dev_file if msg_lens[i] & 0x80 else from_dev_file
                for k in range(msg_lens[i] & 0x7f):
                    file_handle.write(gps_dump_data.data[f'data[{k}]'][i])
""")]},
'gps-bytes': {GPS: [("""                    for k in range(msg_len):
                        file_handle.write(gps_dump_data.data['data['+str(k)+']'][i])
""", """                    content = bytes(int(gps_dump_data.data['data['+str(k)+']'][i]) & 0xff
                                    for k in range(msg_len))
                    file_handle.write(content)
""")]},
'kml-dataset-helper': {KML: [("""    cur_dataset = [elem for elem in data
                   if elem.name == position_topic_name and elem.multi_id == topic_instance]
    if len(cur_dataset) == 0:
        raise KeyError(position_topic_name+' not found in data')

    cur_dataset = cur_dataset[0]

""", """    cur_dataset = None
    for elem in data:
        if elem.name == position_topic_name and elem.multi_id == topic_instance:
            cur_dataset = elem
            break
    if cur_dataset is None:
        raise KeyError(position_topic_name+' not found in data')

""")]},
'kml-column-helper': {KML: [("""    pos_lon = (cur_dataset.data['lon'] if 'lon' in cur_dataset.data else
               cur_dataset.data['longitude_deg'])
    pos_lat = (cur_dataset.data['lat'] if 'lat' in cur_dataset.data else
               cur_dataset.data['latitude_deg'])
    pos_alt = (cur_dataset.data['alt'] if 'alt' in cur_dataset.data else
               cur_dataset.data['altitude_msl_m'])
    pos_t""", """    pos_lon, pos_lat, pos_alt = [
        cur_dataset.data[old if old in cur_dataset.data else new]
        for old, new in (('lon', 'longitude_deg'), ('lat', 'latitude_deg'), ('alt', 'altitude_msl_m'))]
    pos_t""")]},
'kml-scaled': {KML: [("""        pos_lon = pos_lon / 1e7 # to degrees
        pos_lat = pos_lat / 1e7
        pos_alt = pos_alt / 1e3 # to meters
""", """        degrees, meters = 1e7, 1e3
        pos_lon, pos_lat, pos_alt = pos_lon / degrees, pos_lat / degrees, pos_alt / meters
""")]},
'kml-style-merge': {KML: [("""    used_style = default_style
    if style is not None:
        for key in style:
            used_style[key] = style[key]
""", """    used_style = {**default_style, **(style or {})}
""")]},
'kml-mode-for': {KML: [("""        if (cur_t - last_t)/1e6 > minimum_interval_s: # assume timestamp is in [us]
            pos_data""", """        if not (cur_t - last_t)/1e6 <= minimum_interval_s: # assume timestamp is in [us]
            pos_data""")]},
'bag-instances': {BAG: [("""        if multiids[ulg_topic.name] == {0}:
            ros2_topic = f"/px4/{ulg_topic.name}"
        else:
            ros2_topic = f"/px4/{ulg_topic.name}_{ulg_topic.multi_id}"
""", """        ros2_topic = "/px4/" + ulg_topic.name
        if multiids[ulg_topic.name] != {0}:
            ros2_topic += "_" + str(ulg_topic.multi_id)
""")]},
'bag-title': {BAG: [("""    components = snake_str.split("_")
    return "".join(x.title() for x in components)
""", """    result = ""
    for component in snake_str.split("_"):
        result += component.title()
    return result
""")]},
'bag-time': {BAG: [("""            ts = ulg_topic.data["timestamp"][i] * 1000  # us -> ns
            rosbag_write(
                ros2_topic,
                serialize_message(msg),
                int(ts),
            )
""", """            timestamp_ns = int(ulg_topic.data["timestamp"][i]) * 1000
            rosbag_write(ros2_topic, serialize_message(msg), timestamp_ns)
""")]},
'bag-calc-return': {BAG: [("""    result = None
    for pattern, type_name in REGEX_EXCEPTIONS.items():
        if re.match(pattern, topic_name):
            result = type_name
            break

    return result
""", """    for pattern, type_name in REGEX_EXCEPTIONS.items():
        if re.match(pattern, topic_name) is not None:
            return type_name
    return None
""")]},
'bag-value': {BAG: [("""    value_type: np.signedinteger | np.unsignedinteger | np.floating = value.dtype

    # int8 could either be int8_t, bool, or char
    # check the destination type
    ros2_type: str = MsgType.get_fields_and_field_types()[field_name]  # type: ignore

    # startswith() accounts for array types
    if value_type == np.int8 and ros2_type.startswith("bool"):
        return bool(value)

    return value.item()
""", """    ros2_type: str = MsgType.get_fields_and_field_types()[field_name]  # type: ignore
    python_value = value.item()
    if ros2_type.startswith("bool") and value.dtype == np.int8:
        python_value = python_value != 0
    return python_value
""")]},
'px4-squares': {PX4: [("""            q = [message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)]
            roll = np.arctan2(2.0 * (q[0] * q[1] + q[2] * q[3]),
                              1.0 - 2.0 * (q[1] * q[1] + q[2] * q[2]))
            # rounding can bring the value slightly out of range when pointing straight up or down
            pitch = np.arcsin(np.clip(2.0 * (q[0] * q[2] - q[3] * q[1]), -1.0, 1.0))
""", """            q0, q1, q2, q3 = (message_data.data[f'q{field_name_suffix}[{i}]'] for i in range(4))
            q = [q0, q1, q2, q3]
            sin_pitch = 2.0 * (q0 * q2 - q3 * q1)
            roll = np.arctan2(2.0 * (q0 * q1 + q2 * q3),
                              1.0 - 2.0 * (q1 * q1 + q2 * q2))
            pitch = np.arcsin(np.minimum(np.maximum(sin_pitch, -1.0), 1.0))
""")]},
'px4-update': {PX4: [("""            message_data.data['roll'+field_name_suffix] = roll
            message_data.data['pitch'+field_name_suffix] = pitch
            message_data.data['yaw'+field_name_suffix] = yaw
""", """            message_data.data.update({
                'roll' + field_name_suffix: roll,
                'pitch' + field_name_suffix: pitch,
                'yaw' + field_name_suffix: yaw,
            })
""")]},
'px4-rc-filter': {PX4: [("""        ret_val = []
        for key in self._ulog.initial_parameters:
            param_val = self._ulog.initial_parameters[key]
            if key.startswith('RC_MAP_') and param_val == channel + 1:
                ret_val.append(key[7:].capitalize())

        if len(ret_val) > 0:
            return ret_val
        return None
""", """        mapped = {key: value for key, value in self._ulog.initial_parameters.items()
                  if key.startswith('RC_MAP_')}
        ret_val = [key[len('RC_MAP_'):].capitalize() for key in mapped if mapped[key] == channel + 1]
        return ret_val if ret_val else None
""")]},
}
