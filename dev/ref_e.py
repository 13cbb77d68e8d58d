""" behaviour-preserving edits of the tools and helpers """
CSV, INFO, PAR, MSG, KML = ['pyulog/%s.py' % n for n in ('ulog2csv', 'info', 'params', 'messages', 'ulog2kml')]
EXT, GPS, BAG, PX4, EV, MIG = ['pyulog/%s.py' % n for n in ('extract_message', 'extract_gps_dump', 'ulog2ros2bag', 'px4', 'px4_events', 'migrate_db')]

CSV_LOOP = """            last_elem = len(data_keys)-1
            for i in range(time_s_i, time_e_i):
                for k in range(len(data_keys)):
                    if data_keys[k] in string_array_sizes: # string
                        s = read_string_data(d, data_keys[k], string_array_sizes[data_keys[k]], i)
                        csvfile.write(s)
                    else:
                        csvfile.write(str(d.data[data_keys[k]][i]))
                    if k != last_elem:
                        csvfile.write(delimiter)
                csvfile.write('\\n')
"""
CSV_WIN = """            time_s_i = np.append(np.where(d.data['timestamp'] >= time_s * 1e6)[0],
                                 num_data_points)[0] if time_s else 0
            #get the index for row upto the timestamp of the required value
            time_e_i = np.append(np.where(d.data['timestamp'] >= time_e * 1e6)[0],
                                 num_data_points)[0] if time_e else num_data_points
"""
PAR_CSV = """        for param_key in param_keys:
            output_file.write(param_key)
            if args.timestamps:
                output_file.write(delimiter)
                output_file.write(str(params[param_key]))
                for t, name, value in ulog.changed_parameters:
                    if name == param_key:
                        output_file.write(delimiter)
                        output_file.write(str(value))

                output_file.write('\\n')
                output_file.write("timestamp")
                output_file.write(delimiter)
                output_file.write('0')
                for t, name, value in ulog.changed_parameters:
                    if name == param_key:
                        output_file.write(delimiter)
                        output_file.write(str(t))

                output_file.write('\\n')
            else:
                output_file.write(delimiter)
                output_file.write(str(params[param_key]))
                if not args.initial:
                    for t, name, value in ulog.changed_parameters:
                        if name == param_key:
                            output_file.write(delimiter)
                            output_file.write(str(value))
                output_file.write('\\n')
"""

REFAC = {
 # --- csv
 'csv-join': {CSV: [(CSV_LOOP, """            def cell(key, row):
                if key in string_array_sizes: # string
                    return read_string_data(d, key, string_array_sizes[key], row)
                return str(d.data[key][row])

            for i in range(time_s_i, time_e_i):
                csvfile.write(delimiter.join(cell(key, i) for key in data_keys) + '\\n')
""")]},
 'csv-writelines': {CSV: [(CSV_LOOP, """            lines = []
            for i in range(time_s_i, time_e_i):
                columns = []
                for key in data_keys:
                    size = string_array_sizes.get(key)
                    if size is None:
                        columns.append(str(d.data[key][i]))
                    else:
                        columns.append(read_string_data(d, key, size, i))
                lines.append(delimiter.join(columns) + '\\n')
            csvfile.writelines(lines)
""")]},
 'csv-enumerate': {CSV: [(CSV_LOOP, """            for i in range(time_s_i, time_e_i):
                for k, key in enumerate(data_keys):
                    if k > 0:
                        csvfile.write(delimiter)
                    if key in string_array_sizes: # string
                        csvfile.write(read_string_data(d, key, string_array_sizes[key], i))
                    else:
                        csvfile.write(f'{d.data[key][i]}')
                csvfile.write('\\n')
""")]},
 'csv-helper-row': {CSV: [(CSV_LOOP, """            for i in range(time_s_i, time_e_i):
                _write_row(csvfile, d, data_keys, string_array_sizes, delimiter, i)
"""), ("def convert_ulog2csv(", """def _write_row(csvfile, data, keys, sizes, delimiter, i):
    last = keys[-1]
    for key in keys:
        if key in sizes:
            csvfile.write(read_string_data(data, key, sizes[key], i))
        else:
            csvfile.write(str(data.data[key][i]))
        if key is not last:
            csvfile.write(delimiter)
    csvfile.write('\\n')


def convert_ulog2csv(""")]},
 'csv-window-helper': {CSV: [(CSV_WIN, """            time_s_i = _first_index(d.data['timestamp'], time_s) if time_s else 0
            time_e_i = _first_index(d.data['timestamp'], time_e) if time_e else num_data_points
"""), ("def convert_ulog2csv(", """def _first_index(timestamps, limit_s):
    indices = np.where(timestamps >= limit_s * 1e6)[0]
    return indices[0] if len(indices) > 0 else len(timestamps)


def convert_ulog2csv(""")]},
 'csv-window-flatnonzero': {CSV: [(CSV_WIN, """            timestamps = d.data['timestamp']
            time_s_i = 0
            if time_s:
                later = np.flatnonzero(timestamps >= time_s * 1e6)
                time_s_i = later[0] if later.size else num_data_points
            time_e_i = num_data_points
            if time_e:
                later = np.flatnonzero(timestamps >= time_e * 1e6)
                time_e_i = later[0] if later.size else num_data_points
""")]},
 'csv-window-1000000': {CSV: [(CSV_WIN, CSV_WIN.replace('1e6', '1000000'))]},
 'csv-window-any': {CSV: [(CSV_WIN, """            time_s_i, time_e_i = 0, num_data_points
            if time_s:
                mask = d.data['timestamp'] >= time_s * 1e6
                time_s_i = int(np.argmax(mask)) if mask.any() else num_data_points
            if time_e:
                mask = d.data['timestamp'] >= time_e * 1e6
                time_e_i = int(np.argmax(mask)) if mask.any() else num_data_points
""")]},
 'csv-string-join': {CSV: [("""    s = bytearray()
    for index in range(array_size):
        character = data.data[f'{field_name}[{index}]'][data_index]
        if character == 0:
            break
        s.append(int(character) & 0xff)
    return ULog.parse_string(s)
""", """    s = bytearray()
    index = 0
    while index < array_size:
        character = int(data.data['{}[{}]'.format(field_name, index)][data_index])
        if not character:
            break
        s += bytes([character & 0xff])
        index += 1
    return ULog.parse_string(s)
""")]},
 'csv-string-mod': {CSV: [("        s.append(int(character) & 0xff)\n", "        s.append(int(character) % 256)\n")]},
 'csv-fields-top': {CSV: [("""    array_pattern = re.compile(r"(.*)\\[(.*?)\\]")

    def get_fields(data: ULog.Data) -> tuple[list[str], dict[str, int]]:
        # use same field order as in the log, except for the timestamp
        data_keys = []
        string_array_sizes = {}
        for f in data.field_data:
            if f.field_name.startswith('_padding'):
                continue
            result = array_pattern.fullmatch(f.field_name)
            if result and f.type_str == 'char':  # string (array of char's)
                field, array_index = result.groups()
                array_index = int(array_index)
                string_array_sizes[field] = max(array_index + 1, string_array_sizes.get(field, 0))
                if array_index == 0:
                    data_keys.append(field)
            else:
                data_keys.append(f.field_name)
        data_keys.remove('timestamp')
        data_keys.insert(0, 'timestamp')  # we want timestamp at first position
        return data_keys, string_array_sizes

""", ""), ("            data_keys, string_array_sizes = get_fields(d)\n", "            data_keys, string_array_sizes = _get_fields(d)\n"),
  ("def convert_ulog2csv(", """ARRAY_PATTERN = re.compile(r"(.*)\\[(.*?)\\]")


def _get_fields(data: ULog.Data):
    keys = ['timestamp']
    sizes = {}
    for f in data.field_data:
        if f.field_name.startswith('_padding') or f.field_name == 'timestamp':
            continue
        match = ARRAY_PATTERN.fullmatch(f.field_name)
        if f.type_str != 'char' or match is None:
            keys.append(f.field_name)
            continue
        name, number = match.group(1), int(match.group(2))
        if number == 0:
            keys.append(name)
        if number + 1 > sizes.get(name, 0):
            sizes[name] = number + 1
    return keys, sizes


def convert_ulog2csv(""")]},
 'csv-name': {CSV: [("""    if output_file_prefix.lower().endswith('.ulg'):
        output_file_prefix = output_file_prefix[:-4]
""", """    root, extension = os.path.splitext(output_file_prefix)
    if extension.lower() == '.ulg' and root:
        output_file_prefix = root
""")]},
 'csv-name2': {CSV: [("""        name_without_slash = d.name.replace('/', '_')
        output_file_name = f'{output_file_prefix}_{name_without_slash}_{d.multi_id}.csv'
""", """        output_file_name = '_'.join([output_file_prefix, '_'.join(d.name.split('/')), str(d.multi_id)]) + '.csv'
""")]},
 'csv-print-header': {CSV: [("            csvfile.write(delimiter.join(data_keys) + '\\n')\n", "            print(*data_keys, sep=delimiter, file=csvfile)\n")]},
 'csv-filter': {CSV: [("    msg_filter = messages.split(',') if messages else None\n", """    msg_filter = None
    if messages:
        msg_filter = messages.split(',')
""")]},
 'csv-makedirs': {CSV: [("        os.mkdir(args.output)\n", "        os.makedirs(args.output)\n")]},
 # --- extract_message
 'ext-comprehension': {EXT: [("""    for i in range(time_s_i, time_e_i):
        row = {}
        for key in data_keys:
            row[key] = data.data[key][i]
        values.append(row)

    return values
""", """    return [{key: data.data[key][i] for key in data_keys} for i in range(time_s_i, time_e_i)]
"""), ("    values = []\n\n", "")]},
 'ext-keys': {EXT: [("""    data_keys = [f.field_name for f in data.field_data]
    data_keys.remove('timestamp')
    data_keys.insert(0, 'timestamp')  # we want timestamp at first position
""", """    data_keys = ['timestamp'] + [f.field_name for f in data.field_data
                                 if f.field_name != 'timestamp']
""")]},
 'ext-zip': {EXT: [("""    for i in range(time_s_i, time_e_i):
        row = {}
        for key in data_keys:
            row[key] = data.data[key][i]
        values.append(row)
""", """    columns = [data.data[key] for key in data_keys]
    for i in range(time_s_i, time_e_i):
        values.append(dict(zip(data_keys, (column[i] for column in columns))))
""")]},
 'ext-filter-list': {EXT: [("    ulog = ULog(ulog_file_name, message, disable_str_exceptions)\n", "    ulog = ULog(ulog_file_name, [message], disable_str_exceptions)\n")]},
 # --- params
 'par-helper': {PAR: [(PAR_CSV, """        for param_key in param_keys:
            changes = [(t, value) for t, name, value in ulog.changed_parameters
                       if name == param_key]
            columns = [param_key, str(params[param_key])]
            if args.timestamps or not args.initial:
                columns += [str(value) for _, value in changes]
            output_file.write(delimiter.join(columns) + '\\n')
            if args.timestamps:
                times = ['timestamp', '0'] + [str(t) for t, _ in changes]
                output_file.write(delimiter.join(times) + '\\n')
""")]},
 'par-print': {PAR: [(PAR_CSV, """        for param_key in param_keys:
            values = [params[param_key]]
            times = ['0']
            for t, name, value in ulog.changed_parameters:
                if name != param_key:
                    continue
                values.append(value)
                times.append(t)
            if args.timestamps:
                print(param_key, *values, sep=delimiter, file=output_file)
                print('timestamp', *times, sep=delimiter, file=output_file)
            elif args.initial:
                print(param_key, params[param_key], sep=delimiter, file=output_file)
            else:
                print(param_key, *values, sep=delimiter, file=output_file)
""")]},
 'par-changes-dict': {PAR: [(PAR_CSV, """        changes = {}
        for t, name, value in ulog.changed_parameters:
            changes.setdefault(name, []).append((t, value))
        for param_key in param_keys:
            output_file.write(param_key)
            output_file.write(delimiter)
            output_file.write(str(params[param_key]))
            if args.timestamps or not args.initial:
                for _, value in changes.get(param_key, []):
                    output_file.write(delimiter + str(value))
            output_file.write('\\n')
            if args.timestamps:
                output_file.write("timestamp" + delimiter + '0')
                for t, _ in changes.get(param_key, []):
                    output_file.write(delimiter + str(t))
                output_file.write('\\n')
""")]},
 'par-qgc': {PAR: [("""            output_file.write(str(sys_id))
            output_file.write(delimiter)
            output_file.write(str(comp_id))
            output_file.write(delimiter)
            output_file.write(param_key)
            output_file.write(delimiter)
            output_file.write(str(param_value))
            output_file.write(delimiter)

            if isinstance(param_value, float):
                # Float
                param_type = 9
            else:
                # Int
                param_type = 6

            output_file.write(str(param_type))
            output_file.write('\\n')""", """            param_type = 9 if isinstance(param_value, float) else 6
            output_file.write(f'{sys_id}{delimiter}{comp_id}{delimiter}{param_key}{delimiter}'
                              f'{param_value}{delimiter}{param_type}\\n')""")]},
 'par-octave': {PAR: [("""            values = [params[param_key]]

            if not args.initial:
                for t, name, value in ulog.changed_parameters:
                    if name == param_key:
                        values += [value]

            if len(values) > 1:""", """            values = [params[param_key]]
            if not args.initial:
                values.extend(value for t, name, value in ulog.changed_parameters
                              if name == param_key)

            if len(values) >= 2:"""), ("""                for value in values:
                    output_file.write(str(value) + ' ')
""", """                output_file.write(''.join(f'{value} ' for value in values))
""")]},
 'par-defaults': {PAR: [("""    if default == 'system': return ulog.get_default_parameters(0)
    if default == 'current_setup': return ulog.get_default_parameters(1)
    raise ValueError('invalid value \\'{}\\' for --default'.format(default))
""", """    types = {'system': 0, 'current_setup': 1}
    if default not in types:
        raise ValueError(f"invalid value '{default}' for --default")
    return ulog.get_default_parameters(types[default])
""")]},
 'par-filter': {PAR: [("""    message_filter = []
    if not args.initial: message_filter = None
""", """    message_filter = [] if args.initial else None
""")]},
 'par-functions': {PAR: [("""    if args.format == "csv":
""" + PAR_CSV, """    if args.format == "csv":
        _write_csv(output_file, ulog, params, delimiter, args)
"""), ("def main():", """def _changes(ulog, key):
    for t, name, value in ulog.changed_parameters:
        if name == key:
            yield t, value


def _write_csv(output_file, ulog, params, delimiter, args):
    for key in sorted(params):
        line = key + delimiter + str(params[key])
        if args.timestamps or not args.initial:
            for _, value in _changes(ulog, key):
                line += delimiter + str(value)
        output_file.write(line + '\\n')
        if args.timestamps:
            line = "timestamp" + delimiter + '0'
            for t, _ in _changes(ulog, key):
                line += delimiter + str(t)
            output_file.write(line + '\\n')


def main():""")]},
 # --- info
 'info-clock': {INFO: [("""    m1, s1 = divmod(int(ulog.start_timestamp/1e6), 60)
    h1, m1 = divmod(m1, 60)
    m2, s2 = divmod(int((ulog.last_timestamp - ulog.start_timestamp)/1e6), 60)
    h2, m2 = divmod(m2, 60)
    print("Logging start time: {:d}:{:02d}:{:02d}, duration: {:d}:{:02d}:{:02d}".format(
        h1, m1, s1, h2, m2, s2))
""", """    print("Logging start time: {}, duration: {}".format(
        _clock(ulog.start_timestamp), _clock(ulog.last_timestamp - ulog.start_timestamp)))
"""), ("def show_info(", """def _clock(time_us):
    minutes, seconds = divmod(int(time_us/1e6), 60)
    hours, minutes = divmod(minutes, 60)
    return f'{hours:d}:{minutes:02d}:{seconds:02d}'


def show_info(""")]},
 'info-clock2': {INFO: [("""    m1, s1 = divmod(int(ulog.start_timestamp/1e6), 60)
    h1, m1 = divmod(m1, 60)
""", """    start_s = int(ulog.start_timestamp/1e6)
    h1, m1, s1 = start_s // 3600, start_s // 60 % 60, start_s % 60
""")]},
 'info-dropouts': {INFO: [("""    dropout_durations = [dropout.duration for dropout in ulog.dropouts]
    if len(dropout_durations) == 0:
        print("No Dropouts")
    else:
        print("Dropouts: count: {:}, total duration: {:.1f} s, max: {:} ms, mean: {:} ms"
              .format(len(dropout_durations), sum(dropout_durations)/1000.,
                      max(dropout_durations),
                      int(sum(dropout_durations)/len(dropout_durations))))
""", """    if ulog.dropouts:
        durations = [dropout.duration for dropout in ulog.dropouts]
        count, total = len(durations), sum(durations)
        print(f"Dropouts: count: {count}, total duration: {total / 1000.:.1f} s, "
              f"max: {max(durations)} ms, mean: {int(total / count)} ms")
    else:
        print("No Dropouts")
""")]},
 'info-topics': {INFO: [("""    data_list_sorted = sorted(ulog.data_list, key=lambda d: d.name + str(d.multi_id))
    for d in data_list_sorted:
        message_size = sum(ULog.get_field_size(f.type_str) for f in d.field_data)
        num_data_points = len(d.data['timestamp'])
        name_id = "{:} ({:}, {:})".format(d.name, d.multi_id, message_size)
        print(" {:<40} {:7d} {:10d}".format(name_id, num_data_points,
                                            message_size * num_data_points))
""", """    for d in sorted(ulog.data_list, key=lambda d: f'{d.name}{d.multi_id}'):
        message_size = 0
        for f in d.field_data:
            message_size += ULog.get_field_size(f.type_str)
        num_data_points = d.data['timestamp'].size
        total = num_data_points * message_size
        name_id = f'{d.name} ({d.multi_id}, {message_size})'
        print(f" {name_id:<40} {num_data_points:7d} {total:10d}")
""")]},
 'info-items': {INFO: [("""    for k in sorted(ulog.msg_info_dict):
        if not k.startswith('perf_') or verbose:
            print(" {0}: {1}".format(k, ulog.msg_info_dict[k]))
""", """    for k, value in sorted(ulog.msg_info_dict.items()):
        if not verbose and k[:5] == 'perf_':
            continue
        print(f" {k}: {value}")
""")]},
 'info-multi': {INFO: [("""            print("Info Multiple Messages: {}".format(
                ", ".join(["[{}: {}]".format(k, len(ulog.msg_info_multiple_dict[k])) for k in
                           sorted(ulog.msg_info_multiple_dict)])))
""", """            counts = []
            for k in sorted(ulog.msg_info_multiple_dict.keys()):
                counts.append(f"[{k}: {len(ulog.msg_info_multiple_dict[k])}]")
            print("Info Multiple Messages: " + ", ".join(counts))
""")]},
 'info-message': {INFO: [("""                if len(m) > 0 and isinstance(m[0], (bytes, bytearray)):
                    print("# {} {} (len: {:}):".format(message, i, sum(len(item) for item in m)))
                    print(separator.join(' '.join('{:02x}'.format(x) for x in item) for item in m))
""", """                if m and isinstance(m[0], (bytes, bytearray)):
                    length = sum(map(len, m))
                    print(f"# {message} {i} (len: {length}):")
                    hex_parts = [' '.join(f'{byte:02x}' for byte in part) for part in m]
                    print(separator.join(hex_parts))
"""), ("""        separator = ""
        if args.newline: separator = "\\n"
        if len(ulog.msg_info_multiple_dict) > 0 and message in ulog.msg_info_multiple_dict:
""", """        separator = "\\n" if args.newline else ""
        if message in ulog.msg_info_multiple_dict:
""")]},
 'info-message-hex': {INFO: [("print(separator.join(' '.join('{:02x}'.format(x) for x in item) for item in m))", "print(separator.join(item.hex(' ') for item in m))")]},
 # --- messages
 'msg-filter': {MSG: [("""        for t, log_level, message in logged_messages:
            # backwards compatibility: a string message with appended tab is output
            # in addition to an event with the same message so we can ignore those
            if message.endswith('\\t'):
                continue
            events.append((t, log_level, message))

        logged_messages = sorted(events, key=lambda m: m[0])
""", """        events += [m for m in logged_messages if not m[2].endswith('\\t')]
        events.sort(key=lambda m: m[0])
        logged_messages = events
""")]},
 'msg-itemgetter': {MSG: [("        logged_messages = sorted(events, key=lambda m: m[0])\n", "        logged_messages = sorted(events, key=operator.itemgetter(0))\n"), ("import argparse\n", "import argparse\nimport operator\n")]},
 'msg-clock': {MSG: [("""        m1, s1 = divmod(int(t/1e6), 60)
        h1, m1 = divmod(m1, 60)
        print("{:d}:{:02d}:{:02d} {:}: {:}".format(h1, m1, s1, log_level, message))
""", """        seconds = int(t / 1e6)
        minutes = seconds // 60
        print(f"{minutes // 60:d}:{minutes % 60:02d}:{seconds % 60:02d} {log_level}: {message}")
""")]},
 'msg-helper': {MSG: [("def main():", """def _format_time(timestamp):
    total_minutes, seconds = divmod(int(timestamp/1e6), 60)
    hours, minutes = divmod(total_minutes, 60)
    return "{:d}:{:02d}:{:02d}".format(hours, minutes, seconds)


def _merge(events, logged):
    merged = list(events)
    for message in logged:
        if message[2].endswith('\\t'):
            continue
        merged.append(message)
    return sorted(merged, key=lambda m: m[0])


def main():"""), ("""        for t, log_level, message in logged_messages:
            # backwards compatibility: a string message with appended tab is output
            # in addition to an event with the same message so we can ignore those
            if message.endswith('\\t'):
                continue
            events.append((t, log_level, message))

        logged_messages = sorted(events, key=lambda m: m[0])
""", """        logged_messages = _merge(events, logged_messages)
"""), ("""        m1, s1 = divmod(int(t/1e6), 60)
        h1, m1 = divmod(m1, 60)
        print("{:d}:{:02d}:{:02d} {:}: {:}".format(h1, m1, s1, log_level, message))
""", """        print(_format_time(t), log_level + ':', message)
""")]},
 'msg-get': {MSG: [("    if ulog.msg_info_dict.get('sys_name', '') == 'PX4':\n", "    if 'sys_name' in ulog.msg_info_dict and ulog.msg_info_dict['sys_name'] == 'PX4':\n")]},
 # --- events
 'ev-levels': {EV: [("""        def event_log_level_str(log_level: int):
            return {0: 'EMERGENCY',
                    1: 'ALERT',
                    2: 'CRITICAL',
                    3: 'ERROR',
                    4: 'WARNING',
                    5: 'NOTICE',
                    6: 'INFO',
                    7: 'DEBUG',
                    8: 'PROTOCOL',
                    9: 'DISABLED'}.get(log_level, 'UNKNOWN')
""", """        def event_log_level_str(log_level: int):
            names = ['EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR', 'WARNING', 'NOTICE', 'INFO',
                     'DEBUG', 'PROTOCOL', 'DISABLED']
            return names[log_level] if log_level < len(names) else 'UNKNOWN'
""")]},
 'ev-args': {EV: [("""                args = []
                i = 0
                while True:
                    arg_str = 'arguments[{}]'.format(i)
                    if arg_str not in events.data:
                        break
                    arg = events.data[arg_str][event_idx]
                    args.append(arg)
                    i += 1
""", """                args = []
                arg_str = 'arguments[0]'
                while arg_str in events.data:
                    args.append(events.data[arg_str][event_idx])
                    arg_str = f'arguments[{len(args)}]'
""")]},
 'ev-args-count': {EV: [("""                args = []
                i = 0
                while True:
                    arg_str = 'arguments[{}]'.format(i)
                    if arg_str not in events.data:
                        break
                    arg = events.data[arg_str][event_idx]
                    args.append(arg)
                    i += 1
""", """                args = []
                for i in itertools.count():
                    column = events.data.get(f'arguments[{i}]')
                    if column is None:
                        break
                    args.append(column[event_idx])
"""), ("import json\n", "import itertools\nimport json\n")]},
 'ev-helper': {EV: [("""                event = None
                if event_parser is not None:
                    event = event_parser.parse(event_id, bytes(args))
                if event is None:
                    messages.append((t, log_level_str,
                                     '[Unknown event with ID {:}]'.format(event_id)))
                else:
                    # only show default group
                    if event.group() == "default":
                        messages.append((t, log_level_str, event.message()))
""", """                event = event_parser.parse(event_id, bytes(args)) if event_parser is not None else None
                if event is None:
                    messages.append((t, log_level_str, f'[Unknown event with ID {event_id}]'))
                    continue
                if event.group() != "default":
                    continue
                messages.append((t, log_level_str, event.message()))
""")]},
 'ev-level-div': {EV: [("                log_level = (events.data['log_levels'][event_idx] >> 4) & 0xf\n", "                log_level = events.data['log_levels'][event_idx] // 16\n")]},
 'ev-parser': {EV: [("""        if 'metadata_events' in ulog.msg_info_multiple_dict and \\
                'metadata_events_sha256' in ulog.msg_info_dict:
            file_hash = ulog.msg_info_dict['metadata_events_sha256']
            if len(file_hash) <= 64 and file_hash.isalnum():
                events_metadata = ulog.msg_info_multiple_dict['metadata_events'][0]
                event_definitions_json = json.loads(lzma.decompress(b''.join(events_metadata)))
                parser = Parser()
                parser.load_definitions(event_definitions_json)
                parser.set_profile(self._events_profile)
                return parser
""", """        events_metadata = ulog.msg_info_multiple_dict.get('metadata_events')
        file_hash = ulog.msg_info_dict.get('metadata_events_sha256')
        if events_metadata is not None and file_hash is not None \\
                and len(file_hash) <= 64 and file_hash.isalnum():
            compressed = b''.join(events_metadata[0])
            return self._make_parser(json.loads(lzma.decompress(compressed)))
"""), ("""            self._default_parser = Parser()
            self._default_parser.load_definitions(json_definitions)
            self._default_parser.set_profile(self._events_profile)
""", """            self._default_parser = self._make_parser(json_definitions)
"""), ("    def _get_event_parser(self", """    def _make_parser(self, definitions) -> Parser:
        parser = Parser()
        parser.load_definitions(definitions)
        parser.set_profile(self._events_profile)
        return parser

    def _get_event_parser(self""")]},
 'ev-zip': {EV: [("            for event_idx, event_id in enumerate(all_ids):\n", "            for event_idx in range(len(all_ids)):\n                event_id = all_ids[event_idx]\n")]},
 # --- gps
 'gps-slice': {GPS: [("""                    for k in range(msg_len):
                        file_handle.write(gps_dump_data.data['data['+str(k)+']'][i])""", """                    for k in range(msg_len):
                        column = gps_dump_data.data[f'data[{k}]']
                        file_handle.write(column[i])""")]},
 'gps-with': {GPS: [("""    with open(to_dev_filename, 'wb') as to_dev_file:
        with open(from_dev_filename, 'wb') as from_dev_file:
            msg_lens = gps_dump_data.data['len']
            instances = gps_dump_data.data.get('instance', [0]*len(msg_lens))
            for i in range(len(gps_dump_data.data['timestamp'])):
                instance = instances[i]
                msg_len = msg_lens[i]
                if instance == required_instance:
                    if msg_len & (1<<7):
                        msg_len = msg_len & ~(np.uint8(1) << 7)
                        file_handle = to_dev_file
                    else:
                        file_handle = from_dev_file
                    for k in range(msg_len):
                        file_handle.write(gps_dump_data.data['data['+str(k)+']'][i])""", """    with open(to_dev_filename, 'wb') as to_dev_file, \\
            open(from_dev_filename, 'wb') as from_dev_file:
        msg_lens = gps_dump_data.data['len']
        instances = gps_dump_data.data.get('instance', [0]*len(msg_lens))
        for i in range(len(gps_dump_data.data['timestamp'])):
            if instances[i] != required_instance:
                continue
            to_device = bool(msg_lens[i] & 0x80)
            msg_len = msg_lens[i] & 0x7f
            file_handle = to_dev_file if to_device else from_dev_file
            for k in range(msg_len):
                file_handle.write(gps_dump_data.data[f'data[{k}]'][i])""")]},
 'gps-int': {GPS: [("                msg_len = msg_lens[i]\n", "                msg_len = int(msg_lens[i])\n"), ("                        msg_len = msg_len & ~(np.uint8(1) << 7)\n", "                        msg_len -= 128\n"),
   ("import numpy as np\n", "")]},
 'gps-names': {GPS: [("""    to_dev_filename = output_file_prefix + '_' + str(required_instance) + '_to_device.dat'
    from_dev_filename = output_file_prefix + '_' + str(required_instance) + '_from_device.dat'
""", """    to_dev_filename, from_dev_filename = [
        f'{output_file_prefix}_{required_instance}_{direction}_device.dat'
        for direction in ('to', 'from')]
""")]},
 'gps-check': {GPS: [("""    field_names = [f.field_name for f in gps_dump_data.field_data]
    if not 'len' in field_names or not 'data[0]' in field_names:
""", """    field_names = {f.field_name for f in gps_dump_data.field_data}
    if not {'len', 'data[0]'} <= field_names:
""")]},
 # --- kml
 'kml-get': {KML: [("""        pos_lon = (cur_dataset.data['lon'] if 'lon' in cur_dataset.data else
                   cur_dataset.data['longitude_deg'])
        pos_lat = (cur_dataset.data['lat'] if 'lat' in cur_dataset.data else
                   cur_dataset.data['latitude_deg'])
        pos_alt = (cur_dataset.data['alt'] if 'alt' in cur_dataset.data else
                   cur_dataset.data['altitude_msl_m'])
        sequence""", """        pos_lon, pos_lat, pos_alt = _get_position(cur_dataset.data)
        sequence"""), ("""    pos_lon = (cur_dataset.data['lon'] if 'lon' in cur_dataset.data else
               cur_dataset.data['longitude_deg'])
    pos_lat = (cur_dataset.data['lat'] if 'lat' in cur_dataset.data else
               cur_dataset.data['latitude_deg'])
    pos_alt = (cur_dataset.data['alt'] if 'alt' in cur_dataset.data else
               cur_dataset.data['altitude_msl_m'])
    pos_t""", """    pos_lon, pos_lat, pos_alt = _get_position(cur_dataset.data)
    pos_t"""), ("def _kml_add_camera_triggers(", """def _get_position(columns):
    names = (('lon', 'longitude_deg'), ('lat', 'latitude_deg'), ('alt', 'altitude_msl_m'))
    return [columns[old] if old in columns else columns[new] for old, new in names]


def _kml_add_camera_triggers(""")]},
 'kml-zip': {KML: [("""        for i in range(len(pos_lon)):
            pnt = kml.newpoint(name='Camera Trigger '+str(sequence[i]))
            pnt.coords = [(pos_lon[i], pos_lat[i], pos_alt[i] + altitude_offset)]
""", """        for lon, lat, alt, seq in zip(pos_lon, pos_lat, pos_alt, sequence):
            pnt = kml.newpoint(name=f'Camera Trigger {seq}')
            pnt.coords = [(lon, lat, alt + altitude_offset)]
""")]},
 'kml-next': {KML: [("""    cur_dataset = [elem for elem in data
                   if elem.name == camera_trigger_topic_name and elem.multi_id == topic_instance]
    if len(cur_dataset) > 0:
        cur_dataset = cur_dataset[0]
""", """    cur_dataset = next((elem for elem in data if elem.name == camera_trigger_topic_name
                        and elem.multi_id == topic_instance), None)
    if cur_dataset is not None:
""")]},
 'kml-style': {KML: [("""    default_style = {
        'extrude': False,
        'line_width': 3
        }

    used_style = default_style
    if style is not None:
        for key in style:
            used_style[key] = style[key]
""", """    used_style = {'extrude': False, 'line_width': 3}
    used_style.update(style or {})
""")]},
 'kml-mode': {KML: [("""            while current_flight_mode_idx < len(flight_mode_changes)-1 and \\
                flight_mode_changes[current_flight_mode_idx+1][0] <= cur_t:
                current_flight_mode_idx += 1
                current_flight_mode = flight_mode_changes[current_flight_mode_idx][1]
                current_kml_linestring = create_linestring()
""", """            while current_flight_mode_idx + 1 < len(flight_mode_changes):
                change_t, mode = flight_mode_changes[current_flight_mode_idx + 1]
                if change_t > cur_t:
                    break
                current_flight_mode_idx += 1
                current_flight_mode = mode
                current_kml_linestring = create_linestring()
""")]},
 'kml-continue': {KML: [("""        if (cur_t - last_t)/1e6 > minimum_interval_s: # assume timestamp is in [us]
            pos_data = [pos_lon[i], pos_lat[i], pos_alt[i] + altitude_offset]
            current_kml_linestring.coords.addcoordinates([pos_data])
            last_t = cur_t

            # flight mode change?
            while current_flight_mode_idx < len(flight_mode_changes)-1 and \\
                flight_mode_changes[current_flight_mode_idx+1][0] <= cur_t:
                current_flight_mode_idx += 1
                current_flight_mode = flight_mode_changes[current_flight_mode_idx][1]
                current_kml_linestring = create_linestring()

                current_kml_linestring.coords.addcoordinates([pos_data])
""", """        interval_s = (cur_t - last_t)/1e6 # assume timestamp is in [us]
        if interval_s <= minimum_interval_s:
            continue
        last_t = cur_t
        pos_data = (pos_lon[i], pos_lat[i], pos_alt[i] + altitude_offset)
        current_kml_linestring.coords.addcoordinates([pos_data])

        # flight mode change?
        while current_flight_mode_idx < len(flight_mode_changes)-1 and \\
            flight_mode_changes[current_flight_mode_idx+1][0] <= cur_t:
            current_flight_mode_idx += 1
            current_flight_mode = flight_mode_changes[current_flight_mode_idx][1]
            current_kml_linestring = create_linestring()

            current_kml_linestring.coords.addcoordinates([pos_data])
""")]},
 'kml-fix': {KML: [("""        pos_lon = pos_lon[indices]
        pos_lat = pos_lat[indices]
        pos_alt = pos_alt[indices]
        pos_t = pos_t[indices]
""", """        pos_lon, pos_lat, pos_alt, pos_t = (
            column[indices] for column in (pos_lon, pos_lat, pos_alt, pos_t))
""")]},
 'kml-scale': {KML: [("""    lon_type = [f.type_str for f in cur_dataset.field_data if f.field_name == 'lon']
    if len(lon_type) > 0 and lon_type[0] == 'int32_t':
""", """    if any(f.field_name == 'lon' and f.type_str == 'int32_t' for f in cur_dataset.field_data):
""")]},
 'kml-colors': {KML: [("    x = max([x, 0])\n", "    x = max(x, 0)\n")]},
 'kml-colors2': {KML: [("    x = max([x, 0])\n", "    if x < 0:\n        x = 0\n")]},
 'kml-topics': {KML: [("""    load_topic_names = position_topic_name + ['vehicle_status']
    if camera_trigger_topic_name is not None:
        load_topic_names.append(camera_trigger_topic_name)
""", """    load_topic_names = ['vehicle_status', *position_topic_name]
    if camera_trigger_topic_name:
        load_topic_names += [camera_trigger_topic_name]
""")]},
 # --- bag
 'bag-patterns': {BAG: [("""    result = None
    for pattern, type_name in REGEX_EXCEPTIONS.items():
        if re.match(pattern, topic_name):
            result = type_name
            break

    return result
""", """    for pattern in REGEX_EXCEPTIONS:
        if re.search(pattern, topic_name) is not None:
            return REGEX_EXCEPTIONS[pattern]
    return None
""")]},
 'bag-next': {BAG: [("""    result = None
    for pattern, type_name in REGEX_EXCEPTIONS.items():
        if re.match(pattern, topic_name):
            result = type_name
            break

    return result
""", """    return next((type_name for pattern, type_name in REGEX_EXCEPTIONS.items()
                 if re.match(pattern, topic_name)), None)
""")]},
 'bag-camel': {BAG: [("""    components = snake_str.split("_")
    return "".join(x.title() for x in components)
""", """    result = ""
    for component in snake_str.split("_"):
        result += component.title()
    return result
""")]},
 'bag-composed': {BAG: [("""        if any(
            re.match(r"(.*?)\\.(.*?)", field.field_name)
            for field in ulg_topic.field_data
        ):
""", """        if any("." in field.field_name for field in ulg_topic.field_data):
""")]},
 'bag-fields': {BAG: [("""        px4_fields = [
            re.sub(r"\\[\\d+\\]$", "", data.field_name) for data in ulg_topic.field_data
        ]  # strip array indices
        px4_fields = list(set(px4_fields))  # remove duplicates
        if not all(px4_field in ros2_fields for px4_field in px4_fields):
""", """        px4_fields = sorted({
            re.sub(r"\\[\\d+\\]$", "", data.field_name) for data in ulg_topic.field_data
        })  # strip array indices
        if any(px4_field not in ros2_fields for px4_field in px4_fields):
""")]},
 'bag-names': {BAG: [("""        if multiids[ulg_topic.name] == {0}:
            ros2_topic = f"/px4/{ulg_topic.name}"
        else:
            ros2_topic = f"/px4/{ulg_topic.name}_{ulg_topic.multi_id}"
""", """        ros2_topic = "/px4/" + ulg_topic.name
        if multiids[ulg_topic.name] != {0}:
            ros2_topic += f"_{ulg_topic.multi_id}"
""")]},
 'bag-dict': {BAG: [("""    multiids: dict[str, set[int]] = defaultdict(set)
    for topic in ulog.data_list:
        multiids[topic.name].add(topic.multi_id)
""", """    multiids: dict[str, set[int]] = {}
    for topic in ulog.data_list:
        multiids.setdefault(topic.name, set()).add(topic.multi_id)
"""), ("from collections import defaultdict\n", "")]},
 'bag-write': {BAG: [("""        for i in range(len(ulg_topic.data["timestamp"])):
            msg = ros2_msg_from_ulg_topic(ulg_topic, i, MsgType)

            ts = ulg_topic.data["timestamp"][i] * 1000  # us -> ns
            rosbag_write(
                ros2_topic,
                serialize_message(msg),
                int(ts),
            )
""", """        for i, timestamp_us in enumerate(ulg_topic.data["timestamp"]):
            serialized = serialize_message(ros2_msg_from_ulg_topic(ulg_topic, i, MsgType))
            rosbag_write(ros2_topic, serialized, int(timestamp_us) * 1000)
""")]},
 'bag-writer': {BAG: [("""    if rosbag_write_uses_seqnum():

        def rosbag_write(topic, msg, timestamp):
            writer.write(topic, msg, timestamp, 0)

    else:

        def rosbag_write(topic, msg, timestamp):
            writer.write(topic, msg, timestamp)
""", """    extra_arguments = (0,) if rosbag_write_uses_seqnum() else ()

    def rosbag_write(topic, msg, timestamp):
        writer.write(topic, msg, timestamp, *extra_arguments)
""")]},
 'bag-meta': {BAG: [("""    if rosbag_topicmetadata_uses_id():

        def topic_metadata(name, topic_type):
            return rosbag2_py.TopicMetadata(
                0,
                name=name,  # type: ignore
                type=topic_type,
                serialization_format="cdr",
            )

    else:

        def topic_metadata(name, topic_type):
            return rosbag2_py.TopicMetadata(
                name=name,  # type: ignore
                type=topic_type,
                serialization_format="cdr",
            )
""", """    uses_id = rosbag_topicmetadata_uses_id()

    def topic_metadata(name, topic_type):
        options = {"name": name, "type": topic_type, "serialization_format": "cdr"}
        if uses_id:
            return rosbag2_py.TopicMetadata(0, **options)
        return rosbag2_py.TopicMetadata(**options)
""")]},
 'bag-version': {BAG: [("""    return tuple(map(int, version("rosbag2_py").split(".")[:2])) >= (0, 25)
""", """    return _rosbag_version() >= (0, 25)
"""), ("""    return tuple(map(int, version("rosbag2_py").split(".")[:2])) >= (0, 32)
""", """    return _rosbag_version() >= (0, 32)
"""), ("def rosbag_topicmetadata_uses_id():", """def _rosbag_version():
    major, minor = version("rosbag2_py").split(".")[:2]
    return int(major), int(minor)


def rosbag_topicmetadata_uses_id():""")]},
 'bag-msg': {BAG: [("""        array_match = re.match(r"(.*?)\\[(\\d+)\\]", field.field_name)
        value = ulg_topic.data[field.field_name][i]
        if array_match:
            field_name, array_index = array_match.groups()
            array_index = int(array_index)
            value = ros2ify_value(field_name, value, MsgType)
            getattr(msg, field_name)[array_index] = value
""", """        value = ulg_topic.data[field.field_name][i]
        if "[" in field.field_name:
            field_name, _, array_index = field.field_name.rstrip("]").partition("[")
            array = getattr(msg, field_name)
            array[int(array_index)] = ros2ify_value(field_name, value, MsgType)
""")]},
 # --- px4
 'px4-dict': {PX4: [("""            q = [message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)]
            roll""", """            data = message_data.data
            q = []
            for i in range(4):
                q.append(data[f'q{field_name_suffix}[{i}]'])
            roll"""), ("""            message_data.data['roll'+field_name_suffix] = roll
            message_data.data['pitch'+field_name_suffix] = pitch
            message_data.data['yaw'+field_name_suffix] = yaw
""", """            for name, values in (('roll', roll), ('pitch', pitch), ('yaw', yaw)):
                data[name + field_name_suffix] = values
""")]},
 'px4-names': {PX4: [("""            q = [message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)]
            roll = np.arctan2(2.0 * (q[0] * q[1] + q[2] * q[3]),
                              1.0 - 2.0 * (q[1] * q[1] + q[2] * q[2]))
""", """            q = [message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)]
            w, x, y, z = q
            roll = np.arctan2(2.0 * (w * x + y * z), 1.0 - 2.0 * (x ** 2 + y ** 2))
""")]},
 'px4-rc': {PX4: [("""        ret_val = []
        for key in self._ulog.initial_parameters:
            param_val = self._ulog.initial_parameters[key]
            if key.startswith('RC_MAP_') and param_val == channel + 1:
                ret_val.append(key[7:].capitalize())

        if len(ret_val) > 0:
            return ret_val
        return None
""", """        prefix = 'RC_MAP_'
        names = [key[len(prefix):].capitalize()
                 for key, value in self._ulog.initial_parameters.items()
                 if key.startswith(prefix) and value - 1 == channel]
        return names or None
""")]},
 'px4-mav': {PX4: [("        mav_type = self._ulog.initial_parameters.get('MAV_TYPE', None)\n        return {0: 'Generic',", "        mav_type = self._ulog.initial_parameters.get('MAV_TYPE')\n        return {0: 'Generic',")]},
 'px4-est': {PX4: [("""        mc_est_group = self._ulog.initial_parameters.get('SYS_MC_EST_GROUP', 2)
        return {0: 'INAV',
                1: 'LPE',
                2: 'EKF2',
                3: 'Q'}.get(mc_est_group, 'unknown ({})'.format(mc_est_group))
""", """        mc_est_group = self._ulog.initial_parameters.get('SYS_MC_EST_GROUP', 2)
        estimators = {0: 'INAV', 1: 'LPE', 2: 'EKF2', 3: 'Q'}
        if mc_est_group in estimators:
            return estimators[mc_est_group]
        return f'unknown ({mc_est_group})'
""")]},
 'px4-suffix': {PX4: [("""            if message.endswith(':_d'):
                suffix = '_d'
                message = message[:-3]
            else:
                suffix = ''
            self._add_roll_pitch_yaw_to_message(message, suffix)
""", """            name, suffix = message, ''
            if name.endswith(':_d'):
                name, suffix = name[:-3], name[-2:]
            self._add_roll_pitch_yaw_to_message(name, suffix)
""")]},
}
