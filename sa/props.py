""" The properties: what they state, and the rules that decide them """


def P(title, statement, over, quant, why, files, mech, rules, technique, note, assumes=(), state=()):
    return dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, rules=rules,
                technique=technique, note=note, assumes=list(assumes), state=list(state))


def _r(mod, *names):
    def load():
        import importlib
        m = importlib.import_module('sa.' + mod)
        return [getattr(m, n) for n in names]
    return load


def both(*ls):
    def load():
        out = []
        for l in ls:
            out += [f for f in l() if f not in out]
        return out
    return load


frame = lambda *n: _r('rules_frame', *n)
data = lambda *n: _r('rules_data', *n)
parse = lambda *n: _r('rules_parse', *n)

CORE = ['pyulog/core.py']
AI = ('abstract interpretation of the parser with provenance terms and guarded joins (specialised to one message type per '
      'run), then ')
READER = [dict(name='message loops', where='pyulog/core.py: ULog._read_file_definitions, ULog._read_file_data'),
          dict(name='message decoders', where='pyulog/core.py: nested _Message* classes')]

AW = 'abstract interpretation of the writer on an arbitrary log (provenance terms, loops generalised), then '
WRITER = [dict(name='writer', where='pyulog/core.py: ULog.write_ulog and its helpers')]
writer = lambda *n: _r('rules_write', *n)
tools = lambda *n: _r('rules_tools', *n)
AT = 'abstract interpretation of the tool with constant propagation (logs of known shape, arbitrary values; libraries as stand-ins), then '
query = lambda *n: _r('rules_query', *n)

AD = 'abstract interpretation of the database code, every statement parsed and matched with a model of the schema, then '
DB = ['pyulog/db.py', 'pyulog/sql']
STORE = [dict(name='database form', where='pyulog/db.py: DatabaseULog'), dict(name='schema', where='pyulog/sql/pyulog.*.sql')]
db = lambda *n: _r('rules_db', *n)
AM = 'constant propagation through the migration for every start version, its SQL run through a model of the schema with row and column lineage, then '
MG = ['pyulog/migrate_db.py', 'pyulog/db.py', 'pyulog/sql']
MIGRATE = [dict(name='migration', where='pyulog/migrate_db.py: migrate_db'), dict(name='scripts', where='pyulog/sql/pyulog.*.sql')]
mig = lambda *n: _r('rules_mig', *n)

PROPS = {
    'A01': P('The file header is validated and decoded',
             'A file is accepted as a log only if its first 16 bytes start with the ULog magic; anything shorter or different '
             'is rejected with an error before any content is interpreted. The file version and the start timestamp are '
             'exactly byte 7 and the little-endian 64-bit integer at byte 8.',
             ['inputs'], 'all byte strings offered as a log file, of any length',
             'The tests only open well-formed sample files; no short, empty or foreign file is ever tried.',
             CORE, [dict(name='header', where='pyulog/core.py: ULog._read_file_header')],
             frame('header_check'), AI + 'rules on the reads and rejections before the first message loop',
             'All paths through the header code: what is read, what is compared, what is stored, which paths reject.'),
    'A02': P('Messages are framed by their length prefix only',
             'Parsing reads each message as a 3-byte header and exactly the announced number of payload bytes, and continues '
             'directly behind it, whatever the message type and whatever happened while interpreting the payload. No complete '
             'message before the end of the file is skipped or read twice in an undamaged file.',
             ['inputs'], 'all sequences of messages of all types and sizes',
             'Tests sample four recorded logs; a framing slip shows only for particular types, sizes, or parser branches.',
             CORE, READER, both(frame('framing', 'limit', 'header_check'), data('progress')),
             AI + 'position arithmetic: file position at the loop back edge against header + announced size, on every path',
             'Decided per message type and section for every path of the loop body.'),
    'A03': P('Every message type is recorded where it is documented to be',
             'Each complete, well-formed message contributes exactly its own decoded content to the collection documented for '
             'its type (information, continued information, logged strings with and without tag, dropouts, formats), in file '
             'order, and to nothing else. Sync, unsubscribe and unknown messages contribute nothing.',
             ['inputs'], 'all message contents, positions and interleavings of the message types',
             'The samples do not contain every type in every section, nor repeated keys, arrays or continued entries.',
             CORE, READER, both(parse('record_info', 'record_info_multiple', 'info_types', 'record_logging', 'record_dropout',
                                      'record_format', 'record_nothing'), frame('framing')),
             AI + 'comparison of the effect of one generic message on every public container with the format specification, '
             'for each combination of the guards involved',
             'Value decoding is compared as provenance terms (which bytes, which struct code), for representative type '
             'declarations.'),
    'A04': P('Parameter values, changes and defaults are kept apart',
             'Parameter messages in the definitions give the initial values, later ones are appended to the list of changes '
             'together with the time reached so far and leave the initial values alone. A default-parameter message sets the '
             'default of exactly the kinds whose bit is set in its type mask. The definitions end at the first subscription or '
             'logged text message and at no other message.',
             ['inputs', 'histories'], 'all parameter messages: both value types, all eight mask bits, any position in the log',
             'The default-parameter tests use one log with two bits; changes are sampled from one log.',
             CORE, READER + [dict(name='defaults', where='pyulog/core.py: ULog.get_default_parameters')],
             both(parse('record_parameter', 'record_default'), frame('section_ends')),
             AI + 'comparison of the effect of a parameter message on the parameter containers, per section and per mask bit',
             'Masks are enumerated (all single bits and combinations); values as provenance terms.'),
    'A05': P('The time attached to records is the largest timestamp so far',
             'The last timestamp of a log, and the timestamp given to dropouts and parameter changes, is the largest timestamp '
             'of the data accepted before, starting with the start time of the log; it never decreases and is not affected by '
             'filtered or rejected records.',
             ['inputs', 'histories'], 'all orders of data, dropout and parameter messages, including timestamps out of order',
             'In the sample logs timestamps of interleaved topics are mostly monotone, so "latest" and "largest" agree.',
             CORE, [dict(name='time reached', where='pyulog/core.py: ULog._read_file_data')],
             both(data('time_reached'), parse('record_dropout', 'record_parameter')),
             AI + 'rules on every assignment of the time reached (operands, ordering guard, acceptance guard)',
             'All assignments on all paths; numeric comparison settled on the orderings of the two operands.'),
    'A06': P('A log cut off at any byte yields the messages before the cut',
             'When the file ends inside a message, that message contributes nothing, everything before it is kept, and parsing '
             'ends normally instead of raising. This holds for a cut in any message of the definitions and of the data section.',
             ['inputs', 'crash_points'], 'every prefix of every log (loss of power while logging)',
             'A single truncated sample exists; the cut position is never varied.',
             CORE, READER, frame('truncation', 'contained'),
             AI + 'rules on the paths taken when a read returns fewer bytes than asked for: no effect, leaves the loop, no escape',
             'The short-read path is followed for every message type in both sections.'),
    'A07': P('Malformed message contents are contained and reported',
             'A complete message whose payload does not follow the format never makes opening the log fail: it is dropped '
             'alone, the log is marked as corrupt, and parsing continues behind it.',
             ['inputs', 'fault_sequences'], 'all payload bytes for every message type',
             'No test feeds malformed payloads; the failure depends on which decoder meets which bytes.',
             CORE, READER + [dict(name='exception handling', where='pyulog/core.py: message loops')],
             frame('contained', 'strict', 'framing'),
             AI + 'exception-effect analysis: every operation of the decoders that may raise, and the handler it reaches',
             'Exceptions modelled: IndexError, KeyError, ValueError, TypeError, struct.error, UnicodeDecodeError, '
             'RecursionError, ZeroDivisionError of the operations used.'),
    'A08': P('Parsing always terminates',
             'Opening a finite file ends: each round of the message loops, including the search for a synchronisation message '
             'after corruption, moves strictly forward in the file or leaves the loop.',
             ['inputs'], 'all finite byte strings', 'Non-termination needs particular damaged bytes that no sample contains.',
             CORE, READER, both(data('progress', 'search_progress', 'recovery'), frame('framing')),
             AI + 'ranking argument per loop: file position at the back edge minus position at the head',
             'Every back edge of every message loop and of the sync search.'),
    'A09': P('Appended data is parsed completely and in order',
             'For a log with appended data the main data is read up to the first given offset, and each non-zero offset starts '
             'another part that is read completely; offsets of zero are ignored and a log without appended data is read to '
             'the end of the file.',
             ['inputs'], 'all combinations of up to three offsets', 'The tests with appended data are not stable here and use one '
             'log with a single offset.',
             CORE, [dict(name='appended offsets', where='pyulog/core.py: ULog._load_file, ULog._read_file_data')],
             frame('appended', 'limit', 'flags'),
             AI + 'rules on seek targets and read limits of each data section run, for each choice of offsets',
             'Offset combinations enumerated; positions compared symbolically.'),
    'A10': P('After corruption parsing resumes at the next recognisable message',
             'A header with an impossible type or size is passed over by moving one byte forward or to directly behind the '
             'next synchronisation message, and the log is marked as corrupt; a message with an unknown type but plausible '
             'size is skipped as a whole, unless a synchronisation message lies within it: then reading goes on directly '
             'behind that one and the log is marked as corrupt as well.',
             ['inputs', 'fault_sequences'], 'all damaged regions between intact messages',
             'One corrupted sample; the position after the search matters only for particular chunk boundaries.',
             CORE, [dict(name='corruption checks', where='pyulog/core.py: ULog._check_packet_corruption, '
                         'ULog._find_sync')],
             data('recovery', 'progress'),
             AI + 'rules on the file position after each recovery path and on the search loop (chunk overlap, match position)',
             'Every path through the recovery branches.'),
    'A11': P('Unknown incompatible flags refuse the log, all others do not',
             'A log that announces an incompatible flag other than appended data is refused with an error; compatible flags, '
             'and flags bytes that are all known, never prevent loading. The flags kept are those of the file.',
             ['inputs'], 'all values of the 16 flag bytes', 'Samples have no flags or one known flag.',
             CORE, [dict(name='flag bits', where='pyulog/core.py: ULog._read_file_definitions, '
                         'ULog._MessageFlagBits')],
             frame('flags', 'header_check'),
             AI + 'the refusing guard is evaluated symbolically for each of the 64 bits',
             'Bits are enumerated one by one over all eight incompatible bytes.'),
    'A12': P('The topic filter selects by topic name and nothing else',
             'With a filter only the topics named in it have data, each of them with the same contents as without a filter, '
             'for every instance; formats, parameters, messages, information and dropouts do not depend on the filter.',
             ['inputs', 'configurations'], 'all filters and logs', 'The filter is tested with one topic list.',
             CORE, [dict(name='filter', where='pyulog/core.py: ULog._read_file_data')],
             data('topic_filter', 'subscribing', 'reused_ids', 'unknown_ids', 'data_records'),
             AI + 'dependence analysis: which guards and values depend on the filter argument',
             'All subscriptions and data records.'),
    'A13': P('Exactly the well-formed data of each subscription is returned',
             'A data record belongs to the subscription with its message id and is kept, whole and in order, if its size is '
             'that of its topic (with or without the trailing padding); other records are dropped and mark the log as corrupt '
             'unless the topic was filtered out. Each subscription with data gives one dataset with its name, instance and '
             'message id, decoded little-endian with the declared field types, also from records in appended data and if '
             'its message id is used again.',
             ['inputs', 'histories'], 'all data records and subscriptions, any interleaving',
             'Samples contain no wrong-sized, padded or unsubscribed records.',
             CORE, [dict(name='data records', where='pyulog/core.py: ULog._MessageData, ULog._read_file_data, ULog.Data')],
             data('data_records', 'identified', 'subscribing', 'subscriptions_kept', 'reused_ids', 'unknown_ids', 'types_agree'),
             AI + 'acceptance guard evaluated for every record size around the topic size in a set of format universes; '
             'provenance of the kept bytes',
             'Formats are specialised to representative universes (nested, arrays, padding).'),
    'A14': P('Nested formats and arrays flatten to the documented field names',
             'Fields of a topic are listed in declaration order with nested formats expanded as outer.inner and array elements '
             'as name[index], recursively, with the declared basic type; padding at the end of the topic, and only there, is '
             'left out.',
             ['inputs', 'programs'], 'all format declarations', 'The sample logs nest one level and have few arrays.',
             CORE, [dict(name='flattening', where='pyulog/core.py: ULog._MessageAddLogged')],
             both(data('flattening'), parse('record_format')),
             AI + 'concrete propagation of representative format declarations through the flattening code (partial evaluation '
             'on constants)',
             'A set of universes: plain, nested twice, arrays of nested, padding in the middle and at the end.'),
    'A15': P('Size, struct code and array type of each basic type agree',
             'For every basic type the number of bytes consumed, the code used for single values and the type used for arrays '
             'of data describe the same little-endian representation.',
             ['inputs'], 'all twelve basic types', 'The tables are used in different places; samples use some of the types.',
             CORE, [dict(name='type tables', where='pyulog/core.py: ULog._UNPACK_TYPES')],
             both(data('types_agree'), parse('record_info')),
             'constant evaluation of the type tables from the source, compared with the format specification',
             'All types enumerated.'),
    'A16': P('Log files are opened read-only and closed on every way out',
             'Reading a log never writes to, creates or truncates a file, and a file opened from a path is closed again '
             'whether parsing succeeds, is refused or fails.',
             ['inputs', 'fault_sequences'], 'all ways to leave the constructor, including errors',
             'Leaked descriptors after an exception are invisible to the tests.',
             CORE, [dict(name='file handling', where='pyulog/core.py: ULog._load_file')],
             data('resources'),
             AI + 'resource typestate: open/close pairing on all normal and exceptional exits, open modes',
             'All exits of the constructor with path and file object arguments.'),
    'A17': P('Header-only parsing agrees with full parsing on the definitions',
             'Parsing only the header gives the same information, initial parameters, defaults and formats as the definitions '
             'section of a full parse, and reads nothing of the data section.',
             ['inputs', 'configurations'], 'all logs', 'Not covered by a test.',
             CORE, [dict(name='header only', where='pyulog/core.py: ULog._load_file')],
             both(data('header_only'), frame('framing', 'section_ends')),
             'comparison of the event traces of the two abstract runs',
             'Effects and reads of both runs.'),
    'A18': P('Logs opened in one process do not influence each other',
             'The contents of a log object depend only on its own file and arguments: opening, changing or filtering another '
             'log before or after does not change it.',
             ['histories', 'schedules'], 'all sequences of opening logs in one process',
             'Tests open logs one at a time and look at each alone.',
             CORE, [dict(name='instance state', where='pyulog/core.py: ULog.__init__')],
             data('instances', 'defaults_shared', 'strings'),
             AI + 'escape/ownership analysis: writes to class-level or module-level state, mutable defaults, sharing of '
             'containers between instances',
             'All stores of a full parse.'),

    'B01': P('A written log reads back as an equal log',
             'Writing a log and reading it again gives the same information, continued information, parameters (initial, default '
             'and changed), formats, subscriptions, samples, logged messages and dropouts. Every stored entry is written once, in a '
             'correctly framed message of its type whose payload has the layout the reader decodes.',
             ['inputs', 'histories'], 'all logs that can be parsed, all value types',
             'The round trip is tested on the sample logs, which lack most value types and several message types.',
             CORE, WRITER, both(writer('payloads', 'complete_log', 'message_lengths', 'write_accepts'), parse('info_types', 'info_multiple_types')),
             AW + 'the terms of each payload are compared with the inverse of the reader\'s layout, loops and guards with the '
             'containers they must cover',
             'Every message the writer emits, for every info, parameter and field type. Values are those the reader stores; logs '
             'whose records are not in order of time are written sorted, and entries of the same time stamp may be regrouped by type.'),
    'B02': P('Written logs put definitions first and data in order of time',
             'In a written log all definitions (formats, information, initial and default parameters) precede the first '
             'subscription, subscriptions precede all data, and data, logged messages, dropouts and changed parameters follow merged '
             'in ascending order of their own time stamps.',
             ['inputs'], 'all logs', 'Readers depend on the order; the tests compare contents only.',
             CORE, WRITER, writer('order'),
             AW + 'order of the writes and provenance of the sort keys', 'All writes of the writer.'),
    'B03': P('A written log has a valid header and no longer announces appended data',
             'A written log starts with the magic, version and start time of the log, followed by a 40 byte flags message that '
             'repeats all flags except that data appended to the original file is not announced any more and no offsets are given.',
             ['inputs'], 'all logs, all flag values', 'Few samples have flags set.',
             CORE, WRITER, writer('file_header', 'flag_bits', 'message_lengths'),
             AW + 'layout of the first two records; flag expressions evaluated bit by bit', 'All 16 flag bytes.'),
    'B04': P('Looking at or writing a log never changes it',
             'Reading the properties of a log, querying, comparing and writing it leave the log and its datasets exactly as they '
             'were, so that repeating them gives the same answers.',
             ['histories', 'schedules'], 'all sequences of queries and writes',
             'Tests query once; a mutation shows in the next query only.',
             CORE, [dict(name='queries', where='pyulog/core.py: ULog properties and methods'), WRITER[0]],
             query('pure', 'properties_pure'),
             AI + 'effect analysis: every mutation event whose target is reachable from the log', 'All public properties and methods.'),
    'B05': P('Writing touches only the requested file and closes it',
             'Writing to a path creates exactly this file, in binary mode, and closes it on every way out; a file object '
             'supplied by the caller is the only thing written to, from where it is, and stays open.',
             ['inputs', 'fault_sequences'], 'all ways to leave the writer, including errors',
             'Leaked or wrongly opened files do not fail a test.',
             CORE, WRITER, writer('write_resources'),
             AW + 'resource typestate of the file handle on normal and exceptional exits', 'Path and file object arguments.'),
    'B06': P('Equality means equal contents',
             'Two logs are equal exactly if everything they hold is equal; two datasets, formats, logged messages, dropouts and '
             'fields likewise, over all of their attributes and samples, with NaN samples equal to themselves. Objects of other '
             'kinds are never equal.',
             ['inputs'], 'all pairs of logs and parts',
             'Tests mostly compare a log with its copy, which cannot show a comparison that is too lax.',
             CORE, [dict(name='comparison', where='pyulog/core.py: __eq__ methods')],
             both(query('equality_parts', 'equality_data', 'equality_log'), tools('equality_pairs')),
             'abstract interpretation of the comparison methods; truth table over the attributes that the constructors set',
             'Every attribute of every comparable class.'),
    'B07': P('Dataset queries select by name, instance and change',
             'Asking for a dataset gives the first one with exactly the given name and instance and raises if there is none. '
             'Asking for value changes gives the first sample and each sample that differs from its predecessor, with their times, '
             'leaving out samples at time zero.',
             ['inputs'], 'all logs, names, instances and fields', 'The samples have few instances and no zero times.',
             CORE, [dict(name='queries', where='pyulog/core.py: ULog.get_dataset, ULog.Data.list_value_changes')],
             both(query('dataset', 'value_changes'), tools('changes_listed')),
             'abstract interpretation of the queries; truth table of the selection, provenance of masks and positions',
             'Both queries.'),
    'B08': P('Version and log level names follow the documented tables',
             'The version is unpacked as major, minor, patch and type from the stored 32 bit value, or is absent; it is printed '
             'with alpha, beta or RC by its type and not at all for development versions. Log levels 0 to 7 have their syslog names.',
             ['inputs'], 'all 32 bit versions and all level bytes', 'The samples contain one version and some levels.',
             CORE, [dict(name='tables', where='pyulog/core.py: get_version_info, get_version_info_str, log_level_str')],
             query('version_info', 'version_str', 'levels'),
             'constant propagation of every type and level byte through the extracted terms', 'All 256 types and levels.'),
    'C01': P('A log comes back from the database as it was saved',
             'Loading a saved log gives a log equal to the one that was saved: every attribute is stored, read back into the same '
             'place, with the same type and value (including NaN, flag bytes, nested lists and numeric types of samples) and in the '
             'same order.',
             ['inputs'], 'all logs that can be parsed', 'The tests store a few sample logs, without appended data, NaN or arrays in the header.',
             DB, STORE, db('saved_values', 'load_inverse', 'sample_types', 'affinities', 'row_order', 'load_scoped'),
             AD + 'lineage of every attribute into a column and back, column affinities, order of rows',
             'Every attribute that the comparison of logs looks at; save, load and lazy load.'),
    'C02': P('Every statement fits the schema and no log is refused',
             'Every statement sent to the database names existing tables and columns, binds as many values as it has placeholders, '
             'and fits the schema that the migrations produce. No constraint of the schema rejects a log that can be parsed.',
             ['inputs', 'programs'], 'all statements of the database code against the migrated schema',
             'SQL is checked at run time only; statements on rare paths are not run by the tests.',
             DB, STORE, db('statements_valid', 'constraints'), AD + 'name and arity checks, unique constraints against the origin of the values',
             'Every statement text the code can produce.'),
    'C03': P('Contents of logs never become part of SQL statements',
             'Names, keys and values from a log or from the caller reach the database only as bound parameters; the text of every '
             'statement is a constant.',
             ['inputs'], 'all log contents', 'No sample log contains quotes in names.', DB, STORE, db('bound_values'),
             AD + 'taint rule: no non-constant part in the text of a statement', 'Every statement of the database code.'),
    'C04': P('Saving and deleting happen completely or not at all',
             'Saving writes everything in one transaction that is undone as a whole if anything fails, and the log counts as saved only '
             'afterwards; a log that is already stored is refused. Deleting removes exactly one log, likewise in one transaction, and changes nothing else of it in memory.',
             ['crash_points', 'fault_sequences', 'histories'], 'all points at which saving or deleting can fail', 'No test makes a save fail midway.',
             DB, STORE, db('atomic_save', 'atomic_delete'), AD + 'transaction typestate along the trace, state of the object on every exceptional exit',
             'Every statement that can fail.'),
    'C05': P('Deleting a log leaves nothing of it behind',
             'Every table that holds parts of a log is connected to it by references that delete along with it, also over intermediate '
             'tables, and every connection enforces references.',
             ['histories'], 'all logs and all tables', 'The tests look at some tables after deleting one log.',
             DB, STORE, db('cascades', 'foreign_keys_on'), AD + 'reachability over cascading references of the schema model',
             'Every table that saving writes to.'),
    'C06': P('Logs in one database do not mix',
             'Every stored row refers to the row of its own parent, and loading reads exactly the rows of the log (or dataset) in question, '
             'all of them, whatever other logs the database holds.',
             ['inputs', 'histories'], 'all databases with any number of logs', 'Most tests hold one log per database.',
             DB, STORE, db('references', 'load_scoped'), AD + 'scoping rule over the selections of every query, row key provenance of every insert',
             'Every insert and query of save, load and dataset access.'),
    'C07': P('A log is identified by the digest of its whole file',
             'The digest is the SHA256 of all bytes of the file, whether it is given by path, open or closed, and an open file keeps its position '
             'and stays open. A log read from a file carries and stores this digest, and looking it up gives the key of exactly this log or none.',
             ['inputs'], 'all files of any size, in any state', 'The tests digest two files by path.',
             DB, STORE, db('digest', 'digest_lookup', 'digest_stored'), AD + 'file position typestate and dataflow from every read to the digest',
             'Three kinds of arguments; the reading loop in general.'),
    'C08': P('Lazily loaded data is fetched when needed and never mistaken for empty',
             'Asking a database log for a dataset gives the samples unless lazy access was asked for, from the cache only if it holds what was asked for; '
             'unknown datasets raise a KeyError. A log without its samples can be neither written to a file nor saved again.',
             ['histories', 'inputs'], 'all sequences of loading, dataset access, writing and saving', 'Tests access few datasets in a fixed order.',
             DB, STORE, db('dataset_cache', 'lazy_flag'), AD + 'truth table over cached / caching / lazy / samples present; the flag along every construction',
             'All twelve situations of a dataset access, all ways to make a log.'),
    'C09': P('Only what can be read correctly is opened',
             'A database with an older schema than the code expects is refused before anything else is read or written. A log is made from exactly one '
             'of key and file, and a key that does not exist raises a KeyError.',
             ['configurations', 'inputs'], 'all schema versions and combinations of arguments', 'Tests use current databases and valid keys only.',
             DB, STORE, db('version_gate', 'arguments', 'unknown_key'), AD + 'evaluation of the guards for every schema version and combination of arguments',
             'Every version up to the current one.'),
    'C10': P('The JSON form of a series is valid and equal to the series',
             'With the JSON form asked for, each series is also stored as a valid JSON object that maps the times of its dataset to its own values; '
             'values that JSON cannot represent (NaN and both infinities) become null and all others are unchanged.',
             ['inputs'], 'all sample values', 'The sample logs contain no infinities.', DB, STORE, db('json_text', 'saved_values'),
             AD + 'constant propagation of representative numbers through the extracted text conversion', 'Representatives of every spelling of a number.'),
    'C11': P('Loading a log again changes nothing',
             'Loading a log once more from the database gives the same contents: nothing is added to what was there before, and nothing read before '
             'influences the result.',
             ['histories'], 'all repetitions of loading, lazily or not', 'No test loads a log twice.', DB, STORE, db('reload'),
             AD + 'dependency rule: no attribute after loading depends on a loaded attribute before', 'Every attribute that loading sets.'),
    'D01': P('Migrating a database keeps every row and every value',
             'A database of any older version that is migrated keeps all its rows with all their values and references; at most real numbers become integers. '
             'The result has the same tables, columns and references as a database that is newly made.',
             ['inputs', 'histories'], 'all contents of databases of every version', 'The tests migrate empty databases only.',
             MG, MIGRATE, mig('data_kept'), AM + 'every table and column of the start version has to arrive as itself',
             'Every start version, table and column.'),
    'D02': P('Migrations run in order, each completely or not at all',
             'The database goes through the versions one by one up to the one the code expects; each version is made by its own script in one transaction together with '
             'its number. A script that fails, is missing or is not one transaction ends the migration with an error and leaves the version before it.',
             ['crash_points', 'fault_sequences', 'configurations'], 'all start versions, all points at which a script can fail', 'The tests run the scripts without failures.',
             MG, MIGRATE, mig('sequence', 'failing'), AM + 'transaction typestate over the statements, with each script failing in turn',
             'Every start version with the own and with other scripts; every failing script; unusable scripts.'),
    'D03': P('Only databases that may be migrated are changed',
             'With the option to only print, nothing is changed in any database. A database without a version is refused unless forced, an invalid version always; a database '
             'of the expected or a newer version stays as it is.',
             ['configurations', 'inputs'], 'all versions and options', 'The tests use few combinations of version and options.',
             MG, MIGRATE, mig('gate'), AM + 'no statement that changes something may be reached',
             'All versions up to beyond the current one, with and without each option.'),
    'E01': P('CSV files hold every sample of every topic',
             'Converting a log to CSV gives one file per topic and instance, named after the log, the topic and the instance, in the directory asked for. A file has the time stamp first, then '
             'all other fields in the order of the log, and a row for every sample with its values in order; characters become one text column, also if they are not ASCII or not valid text.',
             ['inputs', 'configurations'], 'all topics, values and option combinations', 'The tests compare a single sample log with its stored CSV.',
             ['pyulog/ulog2csv.py'], [dict(name='CSV conversion', where='pyulog/ulog2csv.py: convert_ulog2csv')], tools('csv_files', 'stateless_ulog2csv'),
             AT + 'comparison of the text of every file with the one the log determines',
             'Logs with every kind of topic: several instances, no samples, arrays, nested fields, text columns, odd names; every option.'),
    'E02': P('Time windows select exactly the samples in them',
             'With a start and an end time, the CSV files and the extraction of a message have exactly the samples from the first one not before the start to the last one before the end. '
             'A start or end beyond the last sample gives an empty or complete result, and a missing one does not restrict.',
             ['inputs'], 'all windows over all series of time stamps', 'Tests use few windows inside one log.',
             ['pyulog/ulog2csv.py', 'pyulog/extract_message.py'], [dict(name='window', where='pyulog/ulog2csv.py: convert_ulog2csv'), dict(name='window', where='pyulog/extract_message.py: extract_message')],
             tools('csv_window', 'extract_window'), AT + 'enumeration of windows before, between, on and after the samples',
             'Every position of both ends relative to series of none to five samples.'),
    'E03': P('Exported parameters are those of the log, in the format asked for',
             'Exporting parameters writes every initial parameter once, sorted by name, in CSV, Octave or ground station form, to the file named or to standard output. '
             'In CSV form all changes during the log follow their parameter in order, unless only the initial ones are asked for; with default values asked for, exactly the available defaults are written.',
             ['inputs', 'configurations'], 'all parameters, changes and option combinations', 'Tests compare one log for few option combinations.',
             ['pyulog/params.py'], [dict(name='parameter export', where='pyulog/params.py: main')], tools('params_output', 'stateless_params'), AT + 'comparison of the whole text with the one the log determines',
             'Logs with changed, unchanged and no parameters, whole numbers and others, every format and option.'),
    'E04': P('The summary of a log reports what is in it',
             'The summary gives start, duration, number and total length of dropouts, the information messages and the name, instance and number of samples of every topic, and says if the log is corrupt. '
             'Showing a multiple information message gives all its parts in order.',
             ['inputs'], 'all logs', 'Tests compare the text for few logs.', ['pyulog/info.py'], [dict(name='summary', where='pyulog/info.py: show_info')], tools('info_output', 'info_message', 'stateless_info'),
             AT + 'comparison of the data in the text (words and numbers, not the layout) with the log',
             'Logs with no, one and many topics, dropouts and messages; durations around every carry; text and binary messages.'),
    'E05': P('Logged messages are shown completely and in order',
             'All logged messages are printed with their time, level and text. In logs of PX4 they are merged with the events by time, and only messages with a trailing tab, which repeat an event, are left out.',
             ['inputs'], 'all sequences of messages and events', 'Tests compare the text for few logs.', ['pyulog/messages.py'],
             [dict(name='message list', where='pyulog/messages.py: main')], tools('messages_output', 'stateless_messages'), AT + 'comparison of the printed lines with the log',
             'Every level, empty texts, equal times, any order, with and without events.'),
    'E06': P('Events are decoded with the right definitions',
             'Every event of a level that is meant for users is given with its time, level and text, decoded from its own arguments; an unknown one is given by its number, known ones by their text for developers. The definitions in the log '
             'are used if it has valid ones and the default ones otherwise, which are fetched once; without usable definitions there are no events, but no failure.',
             ['inputs', 'fault_sequences'], 'all events and definitions, failing downloads', 'Events need downloads and a library that the tests do not use.', ['pyulog/px4_events.py'],
             [dict(name='event decoding', where='pyulog/px4_events.py: PX4Events')], tools('events_list', 'events_definitions', 'events_download', 'stateless_px4_events'),
             AT + 'comparison of the decoded events with a stand-in for the event library',
             'Every level; known, unknown and hidden events; definitions in the log, downloaded, missing and unusable; several logs with one decoder.'),
    'E07': P('The GPS dump has exactly the bytes of each direction',
             'Extracting the communication with the GPS receiver writes two files, one per direction, with exactly the bytes logged for the chosen receiver in order. '
             'Logs without such data, or with data of a wrong form, give a message and no files.',
             ['inputs'], 'all dump messages', 'The tests use one log without several receivers.', ['pyulog/extract_gps_dump.py'],
             [dict(name='GPS dump', where='pyulog/extract_gps_dump.py: main')], tools('gps_output', 'stateless_extract_gps_dump'), AT + 'comparison of the bytes of both files with the log',
             'Full, partial and empty messages of both directions and several receivers.'),
    'E08': P('Maps show every valid position, coloured by flight mode',
             'The KML file has the positions with a fix, thinned to the minimum interval, as longitude, latitude and altitude in degrees and metres with the offset applied. '
             'The track is split where the flight mode changes, each stretch in the colour of its mode, for any mode number; camera triggers become numbered points. Without the positions asked for it is an error.',
             ['inputs', 'configurations'], 'all positions, flight modes and options', 'The tests do not look into KML files.', ['pyulog/ulog2kml.py'],
             [dict(name='KML conversion', where='pyulog/ulog2kml.py: convert_ulog2kml')], tools('kml_tracks', 'kml_cameras', 'kml_colors', 'stateless_ulog2kml'),
             AT + 'comparison of the drawn lines and points with the ones the log determines',
             'Integer and decimal positions, several topics and instances, modes that change before, between and after the positions; every mode number in -130 to 299.'),
    'E09': P('ROS 2 bags hold every message of the supported topics',
             'Converting to a bag writes every sample of every topic that has a matching message type, which is the one PX4 declares for it, with all its values as plain numbers, under the name of the topic, plus the instance '
             'unless there is only instance 0, at its time in nanoseconds. All other topics are reported and left out; the bag has the name and format asked for.',
             ['inputs', 'configurations'], 'all topics, values and options', 'The tests can not run it: ROS 2 is not available.', ['pyulog/ulog2ros2bag.py'],
             [dict(name='bag conversion', where='pyulog/ulog2ros2bag.py: convert_ulog2ros2bag')], tools('bag_messages', 'bag_types', 'stateless_ulog2ros2bag'),
             AT + 'comparison of the written messages with the log over a stand-in for the ROS 2 libraries',
             'Topics with own, mapped, unknown, composed and mismatching types; the type of 80 topics of PX4; arrays, flags and signed bytes; one and several instances.'),
    'E10': P('Roll, pitch and yaw are the angles of the logged attitude',
             'The helper adds to every instance of each attitude topic the roll, pitch and yaw of its quaternion (the three angles of the yaw, pitch, roll sequence), sample by sample, and changes nothing else. '
             'They are numbers for every unit quaternion, also if rounding makes it a little longer.',
             ['inputs'], 'all unit quaternions', 'The tests do not compute angles.', ['pyulog/px4.py'], [dict(name='attitude angles', where='pyulog/px4.py: PX4ULog._add_roll_pitch_yaw_to_message')],
             tools('attitude_angles', 'known_attitudes', 'stateless_px4'), AT + 'polynomial identity modulo the unit sphere between the extracted formula and the definition', 'All quaternions; every topic, given or by default.'),
    'E11': P('Vehicle type, estimator and input channels follow the parameters',
             'The helpers name the vehicle type and the estimator that the initial parameters select (the fixed estimator for fixed wing, the default if not configured), and say so if they are unknown. '
             'The inputs mapped to a channel are exactly those whose mapping parameter has that channel, or nothing.',
             ['inputs'], 'all parameter values', 'The tests do not call the helpers.', ['pyulog/px4.py'], [dict(name='helpers', where='pyulog/px4.py: PX4ULog')],
             tools('vehicle_helpers'), AT + 'comparison with the published numbers of vehicle types and estimators for every parameter value', 'Every value, known and unknown; every channel.'),
    'E12': P('No tool changes the log it reads',
             'Every command line tool leaves its input file as it is: it opens it for reading only, and the files it writes have other names than the input, whatever that is called. '
             'The conversions and queries that are called as functions leave the log and the lists and dictionaries they are given as they are, except for the angles that are to be added.',
             ['inputs', 'configurations'], 'all tools, options and names', 'Tests use one name per tool.', ['pyulog/*.py'], [dict(name='file access', where='pyulog/*.py: main')],
             both(tools('input_untouched', 'arguments_kept'), data('reads_only')), AT + 'effect rule over every file that is opened, moved or removed, and over everything a function is given',
             'All tools with eleven kinds of names; every function that takes a log, a list or a dictionary.'),
    'E13': P('The command line options mean what they say',
             'Every tool reads exactly the log it is given, with the topics it needs or the ones chosen by option, and treats invalid text as an error unless told to ignore it; so do the conversions called as functions. '
             'The output, format, topic, window, delimiter and migration options arrive at the conversion unchanged, with their documented defaults.',
             ['configurations'], 'all tools and options', 'Tests use few options of few tools.', ['pyulog/*.py'], [dict(name='command lines', where='pyulog/*.py: main')],
             tools('cli_logs', 'function_logs', 'cli_conversions', 'csv_window', 'csv_files', 'params_output', 'gps_output'), AT + 'comparison of the arguments that arrive at the parser and the conversions', 'Every option of every tool, alone and together.'),
    'E14': P('Optional packages are optional, and their versions are told apart',
             'The library and every tool can be used with numpy alone, except the tools that need one particular package for their purpose. Without ROS 2 the bag conversion ends with a message; '
             'with it, the interface of the installed version is used, for every version number.',
             ['configurations'], 'all sets of installed packages and versions', 'The tests run with one set of packages.', ['pyulog/*.py'],
             [dict(name='imports', where='pyulog/*.py'), dict(name='versions', where='pyulog/ulog2ros2bag.py: rosbag_write_uses_seqnum')], tools('requirements', 'bag_versions'),
             AT + 'import closure with each optional package missing; evaluation for versions around every change of the interface', 'All modules; twelve versions.'),
    'E15': P('Extracting a message gives its samples as records',
             'Extracting a message gives a list with a record for every sample, each with the value of every field and the time stamp first, in order. '
             'A message that is not in the log, or a name that is not text, is an attribute error.',
             ['inputs'], 'all messages and values', 'Tests compare one message of one log.', ['pyulog/extract_message.py'], [dict(name='extraction', where='pyulog/extract_message.py: extract_message')],
             tools('extract_rows', 'stateless_extract_message'), AT + 'comparison of the records with the log', 'Messages with any fields, several instances, none.'),
    'E16': P('Processing one log leaves no trace in the processing of the next',
             'What a tool, a conversion or a database operation gives for a log depends on that log and the arguments alone, not on what was read, converted, saved or decoded before in the same process.',
             ['histories'], 'all sequences of calls in one process', 'Tests call each function once or twice on the same log.', ['pyulog/*.py'],
             [dict(name='state', where='pyulog/*.py: objects of modules and classes, default arguments')],
             tools('stateless_ulog2csv', 'stateless_extract_message', 'stateless_params', 'stateless_info', 'stateless_messages', 'stateless_px4_events', 'stateless_extract_gps_dump',
                   'stateless_ulog2kml', 'stateless_ulog2ros2bag', 'stateless_px4', 'stateless_db', 'stateless_migrate_db', 'stateless_core'),
             'effect analysis: aliases of module-level and class-level objects and of default arguments, and the statements that change what they denote',
             'Every function of every module. What is kept on the class ULog itself by assignment is decided by A18.'),
}


NOT_APPLICABLE = {
    'F01': P('Loading takes time and memory in proportion to the log',
             'A log of any size loads in time and memory proportional to its size, also if it is corrupt.', ['inputs'], 'all logs', 'Tests load small logs.', CORE, READER, None, '',
             'Running time and memory are quantities of a run: they depend on numpy and the interpreter, and no sound static bound on them is in reach for this Python code.'),
    'F02': P('Several processes can use one database at a time',
             'Logs saved to and read from one database by several processes at a time are complete and never mixed.', ['schedules'], 'all interleavings of processes', 'Tests use one process.',
             ['pyulog/db.py'], STORE, None, '',
             'Decided by the locks of SQLite and the file system, not by constructs in this code; that each save is one transaction is decided by C04 and D02.'),
    'F03': P('The text of an event is what the firmware meant',
             'The text shown for an event has its arguments decoded by type and formatted as its definition says.', ['inputs'], 'all events and definitions', 'The library is not part of the tests.',
             ['pyulog/px4_events.py'], [dict(name='event library', where='3rd_party/libevents')], None, '',
             'Decided by the event library, whose source is a submodule that is not part of this tree; what this code passes to it is decided by E06.'),
    'F04': P('Other programs can read the written KML files and bags',
             'The written KML files and ROS 2 bags are valid for the programs that read them.', ['inputs'], 'all logs', 'Tests do not read these files.', ['pyulog/ulog2kml.py', 'pyulog/ulog2ros2bag.py'],
             [dict(name='writers', where='simplekml, rosbag2_py')], None, '',
             'The formats are written by other libraries (one of which is not installed here); what this code gives to them is decided by E08 and E09.'),
    'F05': P('A corrupt log loses only what is damaged',
             'From a log with damaged parts, every message outside of the damaged parts is recovered.', ['inputs', 'fault_sequences'], 'all kinds of damage', 'Tests use few damaged logs.', CORE, READER, None, '',
             'Not decidable for the format: damage can produce bytes that look like valid messages, so which messages are outside depends on data values. That reading always ends, and resumes at valid headers, is '
             'decided by the properties about corruption.'),
}
