M = 'pyulog/migrate_db.py'
Q = 'pyulog/sql/pyulog.%d.sql'
REFAC = {
 'split-run': {M: [("""        for migration_id in range(db_schema_version+1,
                                  DatabaseULog.SCHEMA_VERSION+1):
            migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)
            print(f'Executing {migration_filename}.')
            if noop:
                print(migration_lines)
            else:
                cur.executescript(migration_lines)

        cur.close()
""", """        _run_migrations(cur, db_schema_version, class_schema_version, sql_dir, noop)
        cur.close()
"""), ("def migrate_db(db_path", """def _run_migrations(cur, first, last, sql_dir, noop):
    version = first
    while version < last:
        version += 1
        name, script = _read_migration_file(version, sql_dir)
        print(f'Executing {name}.')
        if noop:
            print(script)
            continue
        cur.executescript(script)

def migrate_db(db_path""")]},
 'scripts-first': {M: [("""            migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)
            print(f'Executing {migration_filename}.')
            if noop:
                print(migration_lines)
            else:
                cur.executescript(migration_lines)
""", """            (migration_filename,
             migration_lines) = _read_migration_file(migration_id, sql_dir)
            action = print if noop else cur.executescript
            print('Executing %s.' % migration_filename)
            action(migration_lines)
""")]},
 'closing': {M: [("""    with db_handle() as con:
        cur = con.cursor()
        cur.execute('PRAGMA user_version')
        (db_schema_version,) = cur.fetchone()
        cur.close()

    if db_schema_version is None:""", """    con = db_handle()
    try:
        row = con.execute('PRAGMA user_version').fetchone()
    finally:
        con.close()
    db_schema_version = row[0]

    if db_schema_version is None:""")]},
 'gate-order': {M: [("""    if db_schema_version is None:
        raise ValueError(f'Could not fetch database schema version for {db_path}.')
    if db_schema_version == 0 and not force:
        raise FileExistsError('Database has user_version = 0, rejecting migration.'
                              'Use the "force" flag to migrate anyway.')
    if not isinstance(db_schema_version, int) or db_schema_version < 0:
        raise ValueError(f'Invalid database schema version {db_schema_version}.')
    return db_schema_version
""", """    if db_schema_version is None:
        raise ValueError(f'Could not fetch database schema version for {db_path}.')
    if isinstance(db_schema_version, int) and db_schema_version >= 0:
        if db_schema_version or force:
            return db_schema_version
        raise FileExistsError('Database has user_version = 0, rejecting migration.'
                              'Use the "force" flag to migrate anyway.')
    raise ValueError(f'Invalid database schema version {db_schema_version}.')
""")]},
 'not-null': {Q % 4: [("UPDATE ULog SET StartTimestamp = CAST(StartTimestamp_old AS INT);", "UPDATE ULog SET StartTimestamp = CAST(StartTimestamp_old AS INT) WHERE StartTimestamp_old IS NOT NULL;")]},
 'columns-named': {Q % 2: [("INSERT OR IGNORE INTO ULogMessageDropout_tmp SELECT * FROM ULogMessageDropout;", "INSERT INTO ULogMessageDropout_tmp (ULogId, Duration, Timestamp) SELECT ULogId, Duration, Timestamp FROM ULogMessageDropout;")]},
 'script-order': {Q % 2: [("DROP TABLE IF EXISTS ULogAppendedOffsets;\n", ""), ("ALTER TABLE ULogAppendedOffsets_tmp RENAME", "DROP TABLE ULogAppendedOffsets;\nALTER TABLE ULogAppendedOffsets_tmp RENAME")]},
 'read-check': {M: [("""    with open(migration_filename, 'r', encoding='utf8') as migration_file:
        migration_lines = migration_file.read()
    if not migration_lines.strip().startswith('BEGIN;'):""", """    with open(migration_filename, encoding='utf8') as migration_file:
        migration_lines = migration_file.read().strip()
    if migration_lines[:6] != 'BEGIN;':""")]},
 'rollback': {M: [("                cur.executescript(migration_lines)\n", """                try:
                    cur.executescript(migration_lines)
                except Exception:
                    con.rollback()
                    print(f'{migration_filename} failed.')
                    raise
""")]},
 'early-return': {M: [("""    db_handle = DatabaseULog.get_db_handle(db_path)
    with db_handle() as con:
        cur = con.cursor()
        # Scripts""", """    if db_schema_version >= class_schema_version:
        print('Migration done.')
        return db_path

    db_handle = DatabaseULog.get_db_handle(db_path)
    with db_handle() as con:
        cur = con.cursor()
        # Scripts""")]},
 'filename': {M: [("""    migration_filename_format = os.path.join(sql_dir, 'pyulog.{migration_id}.sql')
    migration_filename = migration_filename_format.format(migration_id=migration_id)
    if not os.path.exists""", """    migration_filename = os.path.join(sql_dir, f'pyulog.{migration_id}.sql')
    if not os.path.isfile""")]},
 'pathlib': {M: [("""        module_dir = os.path.dirname(os.path.realpath(os.path.abspath(__file__)))
        sql_dir = os.path.join(module_dir, 'sql')
""", """        sql_dir = str(Path(__file__).resolve().parent / 'sql')
"""), ("import argparse\n", "import argparse\nfrom pathlib import Path\n")]},
 'pathlib-read': {M: [("""    with open(migration_filename, 'r', encoding='utf8') as migration_file:
        migration_lines = migration_file.read()
""", """    migration_lines = Path(migration_filename).read_text(encoding='utf8')
"""), ("import argparse\n", "import argparse\nfrom pathlib import Path\n")]},
 'joined-lines': {M: [("        migration_lines = migration_file.read()\n", "        migration_lines = ''.join(migration_file.readlines())\n")]},
 'generator': {M: [("""        for migration_id in range(db_schema_version+1,
                                  DatabaseULog.SCHEMA_VERSION+1):
            migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)
            print(f""", """        versions = range(db_schema_version + 1, class_schema_version + 1)
        for migration_filename, migration_lines in (
                _read_migration_file(number, sql_dir) for number in versions):
            print(f""")]},
}
