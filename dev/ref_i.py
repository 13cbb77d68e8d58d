""" behaviour-preserving edits, ninth round: everything """
C = 'pyulog/core.py'
D = 'pyulog/db.py'
M = 'pyulog/migrate_db.py'
CSV = 'pyulog/ulog2csv.py'
PAR = 'pyulog/params.py'
KML = 'pyulog/ulog2kml.py'
REFAC = {
'i-load-read-all': {C: [("""            if self.has_data_appended and len(self._appended_offsets) > 0:
                if self._debug:
                    print('This file has data appended')
                for offset in self._appended_offsets:
                    self._read_file_data(message_name_filter_list, read_until=offset)
                    self._file_handle.seek(offset)

            # read the whole file, or the rest if data appended
            self._read_file_data(message_name_filter_list)
            self._convert_subscriptions()
""", """            self._read_all_data(message_name_filter_list)
            self._convert_subscriptions()
"""), ("""    def _read_file_header(self):
""", """    def _read_all_data(self, topics):
        \"\"\" read the data section and all appended parts \"\"\"
        parts = []
        if self.has_data_appended:
            parts = self._appended_offsets
        for start in parts:
            self._read_file_data(topics, start)
            self._file_handle.seek(start)
        self._read_file_data(topics)

    def _read_file_header(self):
""")]},
'i-subscriptions-values': {C: [("""        while self._subscriptions:
            _, value = self._subscriptions.popitem()
            self._add_data(value)
""", """        for subscription in reversed(list(self._subscriptions.values())):
            self._add_data(subscription)
        self._subscriptions.clear()
""")]},
'i-filter-not': {C: [("""                        if (message_name_filter_list is None or
                                msg_add_logged.message_name in message_name_filter_list):
                            self._subscriptions[msg_add_logged.msg_id] = msg_add_logged
                        else:
                            self._filtered_message_ids.add(msg_add_logged.msg_id)
""", """                        filtered = (message_name_filter_list is not None and
                                    msg_add_logged.message_name not in message_name_filter_list)
                        if filtered:
                            self._filtered_message_ids.add(msg_add_logged.msg_id)
                        else:
                            self._subscriptions[msg_add_logged.msg_id] = msg_add_logged
""")]},
'i-filter-loop': {C: [("""                        if (message_name_filter_list is None or
                                msg_add_logged.message_name in message_name_filter_list):
                            self._subscriptions""", """                        name = msg_add_logged.message_name
                        if message_name_filter_list is None or \\
                                any(wanted == name for wanted in message_name_filter_list):
                            self._subscriptions""")]},
'i-previous': {C: [("""                        previous = self._subscriptions.pop(msg_add_logged.msg_id, None)
                        if previous is not None: # the message id is used again
                            self._add_data(previous)
""", """                        if msg_add_logged.msg_id in self._subscriptions:
                            # the message id is used again
                            self._add_data(self._subscriptions.pop(msg_add_logged.msg_id))
""")]},
'i-info-store': {C: [("""                if header.msg_type == self.MSG_TYPE_INFO:
                    msg_info = self._MessageInfo(data, header)
                    self._msg_info_dict[msg_info.key] = msg_info.value
                    self._msg_info_dict_types[msg_info.key] = msg_info.type
                elif header""", """                if header.msg_type == self.MSG_TYPE_INFO:
                    self._store_info(self._MessageInfo(data, header))
                elif header"""), ("""                    if header.msg_type == self.MSG_TYPE_INFO:
                        msg_info = self._MessageInfo(data, header)
                        self._msg_info_dict[msg_info.key] = msg_info.value
                        self._msg_info_dict_types[msg_info.key] = msg_info.type
                    elif header""", """                    if header.msg_type == self.MSG_TYPE_INFO:
                        self._store_info(self._MessageInfo(data, header))
                    elif header"""), ("""    def _find_sync(self, last_n_bytes=-1):
""", """    def _store_info(self, info):
        key = info.key
        self._msg_info_dict_types.update({key: info.type})
        self._msg_info_dict.update({key: info.value})

    def _find_sync(self, last_n_bytes=-1):
""")]},
'i-multi-new': {C: [("""        if msg_info.key in self._msg_info_multiple_dict:
            if msg_info.is_continued:
                self._msg_info_multiple_dict[msg_info.key][-1].append(msg_info.value)
            else:
                self._msg_info_multiple_dict[msg_info.key].append([msg_info.value])
        else:
            self._msg_info_multiple_dict[msg_info.key] = [[msg_info.value]]
            self._msg_info_multiple_dict_types[msg_info.key] = msg_info.type
""", """        key = msg_info.key
        if key not in self._msg_info_multiple_dict:
            self._msg_info_multiple_dict_types[key] = msg_info.type
            self._msg_info_multiple_dict[key] = [[msg_info.value]]
            return
        lists = self._msg_info_multiple_dict[key]
        if not msg_info.is_continued:
            lists.append([])
        lists[-1].append(msg_info.value)
""")]},
'i-zero-changes': {C: [("""            t = self.data['timestamp']
            x = self.data[field_name]
            indices = t != 0 # filter out 0 values
            t = t[indices]
            x = x[indices]
            if len(t) == 0: return []
            ret = [(t[0], x[0])]
""", """            times, values = self.data['timestamp'], self.data[field_name]
            valid = times != 0 # filter out 0 values
            t, x = times[valid], values[valid]
            if not len(t):
                return []
            ret = [(t[0], x[0])]
""")]},
'i-changes-mask': {C: [("""            ret = [(t[0], x[0])]
            indices = np.where(x[:-1] != x[1:])[0] + 1
            ret.extend(zip(t[indices], x[indices]))
            return ret
""", """            ret = [(t[0], x[0])]
            changed = x[1:] != x[:-1]
            ret.extend(zip(t[1:][changed], x[1:][changed]))
            return ret
""")]},
'i-csv-duplicates-helper': {CSV: [("""            time_s_i = np.append(np.where(d.data['timestamp'] >= time_s * 1e6)[0],
                                 num_data_points)[0] if time_s else 0
            #get the index for row upto the timestamp of the required value
            time_e_i = np.append(np.where(d.data['timestamp'] >= time_e * 1e6)[0],
                                 num_data_points)[0] if time_e else num_data_points
""", """            time_s_i, time_e_i = 0, num_data_points
            if time_s:
                time_s_i = first_index(d.data['timestamp'], time_s)
            if time_e:
                time_e_i = first_index(d.data['timestamp'], time_e)
"""), ("""def convert_ulog2csv(""", """def first_index(times, seconds):
    \"\"\" index of the first sample not before a time, or their number \"\"\"
    later = np.where(times >= seconds * 1e6)[0]
    if len(later) > 0:
        return later[0]
    return len(times)

def convert_ulog2csv(""")]},
'i-csv-rows': {CSV: [("""            last_elem = len(data_keys)-1
            for i in range(time_s_i, time_e_i):
                for k in range(len(data_keys)):
                    if data_keys[k] in string_array_sizes: # string
                        s = read_string_data(d, data_keys[k], string_array_sizes[data_keys[k]], i)
                        csvfile.write(s)
                    else:
                        csvfile.write(str(d.data[data_keys[k]][i]))
                    if k != last_elem:
                        csvfile.write(delimiter)
                csvfile.write('\\n')
""", """            for i in range(time_s_i, time_e_i):
                row = []
                for key in data_keys:
                    size = string_array_sizes.get(key)
                    if size is None:
                        row.append(str(d.data[key][i]))
                    else:
                        row.append(read_string_data(d, key, size, i))
                csvfile.write(delimiter.join(row))
                csvfile.write('\\n')
""")]},
'i-csv-order': {CSV: [("""        data_keys.remove('timestamp')
        data_keys.insert(0, 'timestamp')  # we want timestamp at first position
        return data_keys, string_array_sizes
""", """        ordered = ['timestamp']
        ordered.extend(key for key in data_keys if key != 'timestamp')
        return ordered, string_array_sizes
""")]},
'i-par-values': {PAR: [("""            values = [params[param_key]]

            if not args.initial:
                for t, name, value in ulog.changed_parameters:
                    if name == param_key:
                        values += [value]
""", """            values = [params[param_key]]
            values += [] if args.initial else [
                value for _, name, value in ulog.changed_parameters if name == param_key]
""")]},
'i-par-join': {PAR: [("""            output_file.write(str(sys_id))
            output_file.write(delimiter)
            output_file.write(str(comp_id))
            output_file.write(delimiter)
            output_file.write(param_key)
            output_file.write(delimiter)
            output_file.write(str(param_value))
            output_file.write(delimiter)

            if isinstance(param_value, float):
                # Float
                param_type = 9
            else:
                # Int
                param_type = 6

            output_file.write(str(param_type))
            output_file.write('\\n')
""", """            param_type = 9 if isinstance(param_value, float) else 6
            columns = (sys_id, comp_id, param_key, param_value, param_type)
            output_file.write(delimiter.join(map(str, columns)) + '\\n')
""")]},
'i-par-items': {PAR: [("""            else:
                output_file.write(delimiter)
                output_file.write(str(params[param_key]))
                if not args.initial:
                    for t, name, value in ulog.changed_parameters:
                        if name == param_key:
                            output_file.write(delimiter)
                            output_file.write(str(value))
                output_file.write('\\n')
""", """            else:
                shown = [params[param_key]]
                if not args.initial:
                    shown.extend(change[2] for change in ulog.changed_parameters
                                 if change[1] == param_key)
                for value in shown:
                    output_file.write(delimiter)
                    output_file.write(str(value))
                output_file.write('\\n')
""")]},
'i-kml-fields': {KML: [("""    pos_lon = (cur_dataset.data['lon'] if 'lon' in cur_dataset.data else
               cur_dataset.data['longitude_deg'])
    pos_lat = (cur_dataset.data['lat'] if 'lat' in cur_dataset.data else
               cur_dataset.data['latitude_deg'])
    pos_alt = (cur_dataset.data['alt'] if 'alt' in cur_dataset.data else
               cur_dataset.data['altitude_msl_m'])
    pos_t = cur_dataset.data['timestamp']
""", """    names = []
    for old, new in (('lon', 'longitude_deg'), ('lat', 'latitude_deg'), ('alt', 'altitude_msl_m')):
        names.append(old if old in cur_dataset.data else new)
    pos_lon, pos_lat, pos_alt = (cur_dataset.data[n] for n in names)
    pos_t = cur_dataset.data['timestamp']
""")]},
'i-kml-camera': {KML: [("""        for i in range(len(pos_lon)):
            pnt = kml.newpoint(name='Camera Trigger '+str(sequence[i]))
            pnt.coords = [(pos_lon[i], pos_lat[i], pos_alt[i] + altitude_offset)]
""", """        for number, lon, lat, alt in zip(sequence, pos_lon, pos_lat, pos_alt):
            pnt = kml.newpoint(name=f'Camera Trigger {number}')
            pnt.coords = [(lon, lat, alt + altitude_offset)]
""")]},
'i-kml-style-update': {KML: [("""    default_style = {
        'extrude': False,
        'line_width': 3
        }

    used_style = default_style
    if style is not None:
        for key in style:
            used_style[key] = style[key]
""", """    used_style = {'extrude': False, 'line_width': 3}
    used_style.update(style or {})
""")]},
'i-db-sha-helper': {D: [("""            position = open_file.tell()
            open_file.seek(0)
            while True:
                block = open_file.read(4096)
                file_hash.update(block)
                if block == b'':
                    break
            open_file.seek(position)
        return file_hash.hexdigest()
""", """            position = open_file.tell()
            open_file.seek(0)
            block = open_file.read(65536)
            while block:
                file_hash.update(block)
                block = open_file.read(65536)
            open_file.seek(position)
        return file_hash.hexdigest()
""")]},
'i-db-open-helper': {D: [("""        if isinstance(log_file, str):
            file_context = open(log_file, 'rb') # pylint: disable=consider-using-with
        elif log_file.closed:
            file_context = open(log_file.name, 'rb')
        else:
            file_context = contextlib.nullcontext(log_file)
""", """        path = None
        if isinstance(log_file, str):
            path = log_file
        elif log_file.closed:
            path = log_file.name
        if path is None:
            file_context = contextlib.nullcontext(log_file)
        else:
            file_context = open(path, 'rb') # pylint: disable=consider-using-with
""")]},
'i-db-version-check': {D: [("""            (db_version,) = cur.fetchone()
            if db_version < DatabaseULog.SCHEMA_VERSION:
                raise ValueError(""", """            db_version = cur.fetchone()[0]
            expected = DatabaseULog.SCHEMA_VERSION
            if not db_version >= expected:
                raise ValueError(""")]},
'i-db-get-find': {D: [("""        existing_dataset = None
        for dataset in self._data_list:
            if dataset.name == name and dataset.multi_id == multi_instance:
                existing_dataset = dataset
                break

        if (caching
                and existing_dataset is not None
                and (lazy or existing_dataset.data)):
            return existing_dataset
""", """        existing_dataset = self._loaded_dataset(name, multi_instance)
        if caching and existing_dataset is not None:
            if lazy or existing_dataset.data:
                return existing_dataset
"""), ("""    def save(self, append_json=False):
""", """    def _loaded_dataset(self, name, multi_instance):
        for dataset in self._data_list:
            if (dataset.name, dataset.multi_id) == (name, multi_instance):
                return dataset
        return None

    def save(self, append_json=False):
""")]},
'i-db-get-update': {D: [("""            existing_dataset.msg_id = msg_id
            existing_dataset.timestamp_idx = timestamp_idx
            existing_dataset.field_data = fields
            existing_dataset.data = data
            dataset = existing_dataset
        else:
            dataset = DatabaseULog.DatabaseData(
                name=name,
                multi_id=multi_instance,
                msg_id=msg_id,
                timestamp_idx=timestamp_idx,
                field_data=fields,
                data=data,
            )
        return dataset
""", """            existing_dataset.msg_id, existing_dataset.timestamp_idx = msg_id, timestamp_idx
            existing_dataset.data, existing_dataset.field_data = data, fields
            return existing_dataset
        return DatabaseULog.DatabaseData(name, multi_instance, msg_id, timestamp_idx,
                                         fields, data)
""")]},
'i-db-load-reset': {D: [("""            # Start out empty, so that loading again does not add everything twice
            self._appended_offsets = []
            self._dropouts = []
            self._logged_messages = []
            self._logged_messages_tagged = {}
            self._message_formats = {}
            self._msg_info_dict = {}
            self._msg_info_dict_types = {}
            self._msg_info_multiple_dict = {}
            self._msg_info_multiple_dict_types = {}
            self._initial_parameters = {}
            self._default_parameters = {}
            self._changed_parameters = []
""", """            self._forget_contents()
"""), ("""    # pylint: disable=too-many-locals,too-many-branches
    def load(self, lazy=True):
""", """    def _forget_contents(self):
        ''' Start out empty, so that loading again does not add everything twice. '''
        for name in ('appended_offsets', 'dropouts', 'logged_messages', 'changed_parameters'):
            setattr(self, '_' + name, [])
        for name in ('logged_messages_tagged', 'message_formats', 'msg_info_dict',
                     'msg_info_dict_types', 'msg_info_multiple_dict',
                     'msg_info_multiple_dict_types', 'initial_parameters',
                     'default_parameters'):
            setattr(self, '_' + name, {})

    # pylint: disable=too-many-locals,too-many-branches
    def load(self, lazy=True):
""")]},
'i-db-changed-ext': {D: [("""            for timestamp, key, value in cur.fetchall():
                self._changed_parameters.append(
                    (timestamp, key, DatabaseULog._stored_value(value)))
""", """            self._changed_parameters = [
                (timestamp, key, DatabaseULog._stored_value(value))
                for timestamp, key, value in cur]
""")]},
'i-db-delete-con': {D: [("""        with self._db() as con:
            cur = con.cursor()
            cur.execute('''
                DELETE FROM ULog
                WHERE Id = ?
            ''', (self._pk,)
            )
            cur.close()
        self._pk = None
""", """        deleted = self._pk
        with self._db() as con:
            con.execute('DELETE FROM ULog WHERE Id = ?', (deleted,))
        self._pk = None
""")]},
'i-db-save-helper': {D: [("""            cur.executemany('''
                INSERT INTO ULogMessageDropout
                (Timestamp, Duration, ULogId)
                VALUES
                (?, ?, ?)
                ''', [(
                    dropout.timestamp,
                    dropout.duration,
                    primary_key,
                ) for dropout in self._dropouts])
""", """            self._save_dropouts(cur, primary_key)
"""), ("""    def delete(self):
""", """    def _save_dropouts(self, cur, primary_key):
        for dropout in self._dropouts:
            cur.execute('''
                INSERT INTO ULogMessageDropout
                (Timestamp, Duration, ULogId)
                VALUES
                (?, ?, ?)
                ''', (dropout.timestamp, dropout.duration, primary_key))

    def delete(self):
""")]},
'i-mig-noop-first': {M: [("""            if noop:
                print(migration_lines)
            else:
                cur.executescript(migration_lines)
""", """            if not noop:
                con.executescript(migration_lines)
                continue
            print(migration_lines)
""")]},
'i-mig-run': {M: [("""            migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)
            print(f'Executing {migration_filename}.')
            if noop:
                print(migration_lines)
            else:
                cur.executescript(migration_lines)
""", """            _run_migration(cur, migration_id, sql_dir, noop)
"""), ("""def migrate_db(""", """def _run_migration(cur, migration_id, sql_dir, noop):
    ''' Execute, or only print, one migration. '''
    filename, script = _read_migration_file(migration_id, sql_dir)
    print(f'Executing {filename}.')
    run = print if noop else cur.executescript
    run(script)

def migrate_db(""")]},
'i-mig-strip': {M: [("""    if not migration_lines.strip().startswith('BEGIN;'):
        raise ValueError(f'Migration file {migration_filename} must start with "BEGIN;"')
    if not migration_lines.strip().endswith('COMMIT;'):
        raise ValueError(f'Migration file {migration_filename} must end with "COMMIT;"')

    # set the version inside of the transaction, together with the changes
    migration_lines = migration_lines.strip()[:-len('COMMIT;')]
    migration_lines += f'PRAGMA user_version = {migration_id};\\nCOMMIT;'
    return migration_filename, migration_lines
""", """    script = migration_lines.strip()
    if script[:6] != 'BEGIN;':
        raise ValueError(f'Migration file {migration_filename} must start with "BEGIN;"')
    if script[-7:] != 'COMMIT;':
        raise ValueError(f'Migration file {migration_filename} must end with "COMMIT;"')

    # set the version inside of the transaction, together with the changes
    script = script[:-7] + f'PRAGMA user_version = {migration_id};\\n' + 'COMMIT;'
    return migration_filename, script
""")]},
}
