D = 'pyulog/db.py'
REFAC = {
 'hash-iter': {D: [("""            while True:
                block = open_file.read(4096)
                file_hash.update(block)
                if block == b'':
                    break
""", """            for block in iter(lambda: open_file.read(65536), b''):
                file_hash.update(block)
""")]},
 'hash-walrus': {D: [("""            while True:
                block = open_file.read(4096)
                file_hash.update(block)
                if block == b'':
                    break
""", """            while (block := open_file.read(1 << 16)):
                file_hash.update(block)
""")]},
 'hash-all': {D: [("""            while True:
                block = open_file.read(4096)
                file_hash.update(block)
                if block == b'':
                    break
""", """            file_hash.update(open_file.read())
""")]},
 'hash-helper': {D: [("""        if isinstance(log_file, str):
            file_context = open(log_file, 'rb') # pylint: disable=consider-using-with
        elif log_file.closed:
            file_context = open(log_file.name, 'rb')
        else:
            file_context = contextlib.nullcontext(log_file)

        file_hash""", """        file_context = DatabaseULog._as_context(log_file)

        file_hash"""), ("    def __init__(self, db_handle, primary_key", """    @staticmethod
    def _as_context(log_file):
        if not isinstance(log_file, str) and not log_file.closed:
            return contextlib.nullcontext(log_file)
        name = log_file if isinstance(log_file, str) else log_file.name
        return open(name, 'rb') # pylint: disable=consider-using-with

    def __init__(self, db_handle, primary_key""")]},
 'pk-lookup': {D: [("""        primary_key = None
        with db_handle() as con:
            cur = con.cursor()
            cur.execute('''
                SELECT Id
                FROM ULog
                WHERE SHA256Sum = ?
                ''', (sha256sum,))
            row = cur.fetchone()
            if row:
                primary_key = row[0]
            cur.close()
        return primary_key
""", """        with db_handle() as con:
            row = con.execute('SELECT Id FROM ULog WHERE SHA256Sum = ?', [sha256sum]).fetchone()
        if row is None:
            return None
        return row[0]
""")]},
 'exists-row': {D: [("""            cur.execute('''
                SELECT COUNT(*)
                FROM ULog
                WHERE Id = ?
                ''', (primary_key,))
            count, = cur.fetchone()
            cur.close()

            return count == 1
""", """            cur.execute('SELECT 1 FROM ULog WHERE Id = ?', (primary_key,))
            found = cur.fetchone() is not None
            cur.close()
        return found
""")]},
 'schema-check-method': {D: [("""        with db_handle() as con:
            cur = con.cursor()
            cur.execute('PRAGMA user_version')
            (db_version,) = cur.fetchone()
            if db_version < DatabaseULog.SCHEMA_VERSION:
                raise ValueError('Database version %d < schema version %d, migration needed.' % (
                    db_version,
                    DatabaseULog.SCHEMA_VERSION
            ))

""", """        self._check_schema(db_handle)

"""), ("    def __eq__(self, other):\n        \"\"\"\n        If the other", """    @classmethod
    def _check_schema(cls, db_handle):
        with db_handle() as con:
            db_version = con.execute('PRAGMA user_version').fetchone()[0]
        if db_version >= cls.SCHEMA_VERSION:
            return
        raise ValueError(f'Database version {db_version} < schema version {cls.SCHEMA_VERSION}, migration needed.')

    def __eq__(self, other):
        \"\"\"
        If the other""")]},
 'args-xor': {D: [("""        if log_file is not None and primary_key is not None:
            raise ValueError('You cannot provide both primary_key and log_file.')
        if log_file is None and primary_key is None:
            raise ValueError('You must provide either a primary_key or log_file.')
""", """        if (log_file is None) == (primary_key is None):
            raise ValueError('You must provide exactly one of primary_key and log_file.')
""")]},
 'dropouts-comprehension': {D: [("""            for timestamp, duration in cur.fetchall():
                self._dropouts.append(
                    DatabaseULog.DatabaseMessageDropout(
                        timestamp=timestamp,
                        duration=duration,
                    )
                )
""", """            self._dropouts = [DatabaseULog.DatabaseMessageDropout(*row) for row in cur.fetchall()]
""")]},
 'offsets-comprehension': {D: [("""            offsets_result = cur.fetchall()
            for offset, in offsets_result:
                self._appended_offsets.append(offset)
""", """            self._appended_offsets.extend(offset for (offset,) in cur)
""")]},
 'dict-comprehension': {D: [("""            for key, value in cur.fetchall():
                self._initial_parameters[key] = DatabaseULog._stored_value(value)
""", """            self._initial_parameters = {key: self._stored_value(value) for key, value in cur.fetchall()}
""")]},
 'defaults-setdefault': {D: [("""                if default_type not in self._default_parameters:
                    self._default_parameters[default_type] = {}
                self._default_parameters[default_type][key] = DatabaseULog._stored_value(value)
""", """                values = self._default_parameters.setdefault(default_type, {})
                values[key] = DatabaseULog._stored_value(value)
""")]},
 'tagged-setdefault': {D: [("""                if tag not in self._logged_messages_tagged:
                    self._logged_messages_tagged[tag] = []
                self._logged_messages_tagged[tag].append(
                    DatabaseULog.DatabaseMessageLoggingTagged(
                        log_level=log_level,
                        tag=tag,
                        timestamp=timestamp,
                        message=message,
                    )
                )
""", """                entry = DatabaseULog.DatabaseMessageLoggingTagged(log_level, tag, timestamp, message)
                self._logged_messages_tagged.setdefault(tag, []).append(entry)
""")]},
 'load-parts': {D: [("""            # initial_parameters
            cur.execute('''
                SELECT Key, Value
                FROM ULogInitialParameter
                WHERE ULogId = ?
                ''', (self._pk,))
            for key, value in cur.fetchall():
                self._initial_parameters[key] = DatabaseULog._stored_value(value)

""", """            self._load_initial_parameters(cur)

"""), ("    def get_dataset(self, name, multi_instance=0, lazy", """    def _load_initial_parameters(self, cur):
        cur.execute('SELECT Key, Value FROM ULogInitialParameter WHERE ULogId = ?', (self._pk,))
        for key, value in cur.fetchall():
            self._initial_parameters[key] = self._stored_value(value)

    def get_dataset(self, name, multi_instance=0, lazy""")]},
 'save-insert-helper': {D: [("""            cur.executemany('''
                INSERT INTO ULogInitialParameter
                (Key, Value, ULogId)
                VALUES
                (?, ?, ?)
                ''', [(
                    key,
                    value,
                    primary_key,
                ) for key, value in self.initial_parameters.items()])
""", """            for key, value in self._initial_parameters.items():
                cur.execute('INSERT INTO ULogInitialParameter (ULogId, Key, Value) VALUES (?, ?, ?)',
                            (primary_key, key, value))
""")]},
 'save-generator': {D: [("""                ''', [(
                    dropout.timestamp,
                    dropout.duration,
                    primary_key,
                ) for dropout in self._dropouts])
""", """                ''', ((d.timestamp, d.duration, primary_key) for d in self._dropouts))
""")]},
 'save-rows-first': {D: [("""            cur.executemany('''
                INSERT INTO ULogChangedParameter
                (Timestamp, Key, Value, ULogId)
                VALUES
                (?, ?, ?, ?)
                ''', [(
                    timestamp,
                    key,
                    value,
                    primary_key,
                ) for timestamp, key, value in self.changed_parameters])
""", """            rows = [entry + (primary_key,) for entry in self.changed_parameters]
            cur.executemany('''
                INSERT INTO ULogChangedParameter
                (Timestamp, Key, Value, ULogId)
                VALUES
                (?, ?, ?, ?)
                ''', rows)
""")]},
 'json-split': {D: [("""                        timestamp_list = [str(s) for s in dataset.data['timestamp'].tolist()]
                        values_json = str(
                            dict(zip(timestamp_list, values.tolist()))
                        ).replace('nan', 'null').replace('-inf', 'null').replace(
                            'inf', 'null').replace("'", '"')
""", """                        timestamps = map(str, dataset.data['timestamp'].tolist())
                        values_json = str(dict(zip(timestamps, values.tolist())))
                        for text, json_text in (('-inf', 'null'), ('inf', 'null'), ('nan', 'null'), ("'", '"')):
                            values_json = values_json.replace(text, json_text)
""")]},
 'json-two-inserts': {D: [("""                        values_json = None
                        json_placeholder = '?'

                    cur.execute(f'''
                        INSERT INTO ULogField
                        (TopicName, DataType, ValueArray, ValueJson, DatasetId)
                        VALUES
                        (?, ?, ?, {json_placeholder}, ?)
                        ''', (
                            field.field_name,
                            field.type_str,
                            values_bytes,
                            values_json,
                            dataset_id,
                        )
                    )
""", """                        values_json = None
                        json_placeholder = '?'

                    row = (field.field_name, field.type_str, values_bytes, values_json, dataset_id)
                    cur.execute('INSERT INTO ULogField (TopicName, DataType, ValueArray, ValueJson, DatasetId) VALUES (?, ?, ?, %s, ?)'
                                % json_placeholder, row)
""")]},
 'dataset-next': {D: [("""        existing_dataset = None
        for dataset in self._data_list:
            if dataset.name == name and dataset.multi_id == multi_instance:
                existing_dataset = dataset
                break
""", """        existing_dataset = next((d for d in self._data_list
                                 if (d.name, d.multi_id) == (name, multi_instance)), None)
""")]},
 'dataset-early': {D: [("""        if (caching
                and existing_dataset is not None
                and (lazy or existing_dataset.data)):
            return existing_dataset
""", """        use_existing = caching and existing_dataset is not None
        if use_existing:
            if lazy:
                return existing_dataset
            if existing_dataset.data:
                return existing_dataset
"""), ("        if caching and existing_dataset is not None:\n            existing", "        if use_existing:\n            existing")]},
 'dataset-helper': {D: [("""                field_results = cur.fetchall()
                for field_name, data_type, value_bytes in field_results:
                    fields.append(DatabaseULog._FieldData(field_name=field_name,type_str=data_type))
                    dtype = DatabaseULog._UNPACK_TYPES[data_type][2]
                    data[field_name] = np.frombuffer(value_bytes, dtype=dtype)
""", """                for row in cur.fetchall():
                    fields.append(self._FieldData(row[0], row[1]))
                    data[row[0]] = np.frombuffer(row[2], self._UNPACK_TYPES[row[1]][2])
""")]},
 'delete-execute': {D: [("""        with self._db() as con:
            cur = con.cursor()
            cur.execute('''
                DELETE FROM ULog
                WHERE Id = ?
            ''', (self._pk,)
            )
            cur.close()
        self._pk = None
""", """        key, con = self._pk, self._db()
        with con:
            con.execute('DELETE FROM ULog WHERE Id = :key', {'key': key})
        self._pk = None
""")]},
 'formats-sub': {D: [("""            for name, message_format in self._message_formats.items():
                cur.execute('''""", """            for message_format in self._message_formats.values():
                name = message_format.name
                cur.execute('''"""), ("[(*field, format_id) for field in message_format.fields]",
                                      "[(ftype, size, fname, format_id) for ftype, size, fname in message_format.fields]")]},
 'lazy-order': {D: [("        self._lazy_loaded = lazy and log_file is None # a file is always read completely\n", "        self._lazy_loaded = bool(lazy) if log_file is None else False\n")]},
 'index-more': {'pyulog/sql/pyulog.5.sql': [("COMMIT;", "CREATE INDEX IF NOT EXISTS btree_ULog_SHA ON ULog(SHA256Sum);\nCOMMIT;")]},
 'sql-case': {D: [("""                SELECT Timestamp, Duration
                FROM ULogMessageDropout
                WHERE ULogId = ?
""", """                select d.Timestamp, d.Duration
                from ULogMessageDropout as d
                where d.ULogId = ?
                order by d.rowid
""")]},
}
