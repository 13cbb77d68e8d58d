From 1bb1a0df36e7cc4ec1f6c1a023f250dd91bd607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 01/32] fix: stop at a message cut off inside the definitions
 section

---
 pyulog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 11e86d0..8a6b0d6 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -898,10 +898,12 @@ class ULog(object):
         header = self._MessageHeader()
         while True:
             data = self._file_handle.read(3)
-            if not data:
+            if len(data) < 3:
                 break
             header.initialize(data)
             data = self._file_handle.read(header.msg_size)
+            if len(data) < header.msg_size:
+                break # less data than expected. File is most likely cut
             try:
                 if header.msg_type == self.MSG_TYPE_INFO:
                     msg_info = self._MessageInfo(data, header)
-- 
2.43.0


From 0ac828bf130f8d3cba30c08ca33d0ea50199d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 02/32] fix: report a malformed message as file corruption and
 carry on

---
 pyulog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 8a6b0d6..326e728 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -960,7 +960,7 @@ class ULog(object):
                         # skipping the message
                         self._file_handle.seek(-2-header.msg_size, 1)
 
-            except IndexError:
+            except (IndexError, KeyError, struct.error):
                 if not self._file_corrupt:
                     print("File corruption detected while reading file definitions!")
                     self._file_corrupt = True
@@ -1120,7 +1120,7 @@ class ULog(object):
                             if self._has_sync:
                                 self._find_sync(header.msg_size)
 
-                except IndexError:
+                except (IndexError, KeyError, struct.error):
                     if not self._file_corrupt:
                         print("File corruption detected while reading file data!")
                         self._file_corrupt = True
-- 
2.43.0


From ed47619433c33f34c434f6614ffda0f18eafe480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 03/32] fix: keep the tracked file position in step after a
 sync search

---
 pyulog/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyulog/core.py b/pyulog/core.py
index 326e728..0af92c5 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1119,6 +1119,8 @@ class ULog(object):
                             # seek back msg_size to look for sync sequence in payload
                             if self._has_sync:
                                 self._find_sync(header.msg_size)
+                        # the sync search moves the file position
+                        curr_file_pos = self._file_handle.tell()
 
                 except (IndexError, KeyError, struct.error):
                     if not self._file_corrupt:
-- 
2.43.0


From 8c28902e6f223bf550018a5b1054f58ead31225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 04/32] fix: write char fields with values outside ASCII

---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 0af92c5..f3a8d10 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -436,7 +436,7 @@ class ULog(object):
                     # For char type, convert np.int8 into single bytes() object
                     # so that struct.pack can handle it
                     if field_encoding == 'c':
-                        field_data = bytes(chr(field_data), 'utf-8')
+                        field_data = struct.pack('<b', field_data)
 
                     data.extend(struct.pack('<' + field_encoding, field_data))
 
-- 
2.43.0


From f5a6c52963d6f904308a7f7386b8792146b90fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:50 +0000
Subject: [PATCH 05/32] fix: write information messages of any array type

---
 pyulog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index f3a8d10..4fbee0c 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -361,9 +361,11 @@ class ULog(object):
             data.extend(value_bytes)
         elif value_type.startswith('uint8_t['):
             data.extend(value)
-        else:
+        elif value_type in self._UNPACK_TYPES:
             code = self._UNPACK_TYPES[value_type][0]
             data.extend(struct.pack('<' + code, value))
+        else: # array (or non-basic type): kept as raw bytes
+            data.extend(value)
 
         return data
 
-- 
2.43.0


From e17f5dbc55569660d264f273c2e6550268008f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 06/32] fix: key default parameters by bit index for all bits

---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 4fbee0c..0d43eca 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -834,7 +834,7 @@ class ULog(object):
         while default_types: # iterate over each bit
             def_type = default_types & (~default_types+1)
             default_types ^= def_type
-            def_type -= 1
+            def_type = def_type.bit_length() - 1 # bit index
             if def_type not in self._default_parameters:
                 self._default_parameters[def_type] = {}
             self._default_parameters[def_type][msg_param.key] = msg_param.value
-- 
2.43.0


From b4819b1bb5e9efa6086a73a6f9fab5267501b327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 07/32] fix: close the log file when parsing fails

---
 pyulog/core.py | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 0d43eca..0adc489 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -857,31 +857,30 @@ class ULog(object):
         else:
             self._file_handle = log_file
 
-        # parse the whole file
-        self._read_file_header()
-        self._last_timestamp = self._start_timestamp
-        self._read_file_definitions()
-
-        if self._debug:
-            print("header end offset: {:}".format(self._file_handle.tell()))
-
-        if parse_header_only:
-            self._file_handle.close()
-            del self._file_handle
-            return
+        try:
+            # parse the whole file
+            self._read_file_header()
+            self._last_timestamp = self._start_timestamp
+            self._read_file_definitions()
 
-        if self.has_data_appended and len(self._appended_offsets) > 0:
             if self._debug:
-                print('This file has data appended')
-            for offset in self._appended_offsets:
-                self._read_file_data(message_name_filter_list, read_until=offset)
-                self._file_handle.seek(offset)
+                print("header end offset: {:}".format(self._file_handle.tell()))
 
-        # read the whole file, or the rest if data appended
-        self._read_file_data(message_name_filter_list)
+            if parse_header_only:
+                return
 
-        self._file_handle.close()
-        del self._file_handle
+            if self.has_data_appended and len(self._appended_offsets) > 0:
+                if self._debug:
+                    print('This file has data appended')
+                for offset in self._appended_offsets:
+                    self._read_file_data(message_name_filter_list, read_until=offset)
+                    self._file_handle.seek(offset)
+
+            # read the whole file, or the rest if data appended
+            self._read_file_data(message_name_filter_list)
+        finally:
+            self._file_handle.close()
+            del self._file_handle
 
     def _read_file_header(self):
         header_data = self._file_handle.read(16)
-- 
2.43.0


From 2594308c6186212faf4dcf7294866e428e5b85aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:06 +0000
Subject: [PATCH 08/32] fix: leave an open log file at its position when
 computing its digest

---
 pyulog/db.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 9ce7ff3..f1b1e51 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -122,11 +122,15 @@ class DatabaseULog(ULog):
 
         file_hash = hashlib.sha256()
         with file_context as open_file:
+            # digest the whole file and leave an open file where it was
+            position = open_file.tell()
+            open_file.seek(0)
             while True:
                 block = open_file.read(4096)
                 file_hash.update(block)
                 if block == b'':
                     break
+            open_file.seek(position)
         return file_hash.hexdigest()
 
 
-- 
2.43.0


From bb7b343b595b98ed597d77148776ea5ebbde07aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 09/32] fix: allow write_ulog on a DatabaseULog read from a
 file

---
 pyulog/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index f1b1e51..5e08a13 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -175,7 +175,7 @@ class DatabaseULog(ULog):
 
         self._pk = primary_key
         self._db = db_handle
-        self._lazy_loaded = lazy
+        self._lazy_loaded = lazy and log_file is None # a file is always read completely
         if log_file is not None:
             self._sha256sum = DatabaseULog.calc_sha256sum(log_file)
 
-- 
2.43.0


From 67bfb0ed4b1707e3bcfeea1e59efa4076399b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 10/32] fix: do not duplicate entries when a DatabaseULog is
 loaded again

---
 pyulog/db.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index 5e08a13..69ca4ab 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -250,6 +250,20 @@ class DatabaseULog(ULog):
             self._has_sync = ulog_result[6]
             self._sha256sum = ulog_result[7]
 
+            # Start out empty, so that loading again does not add everything twice
+            self._appended_offsets = []
+            self._dropouts = []
+            self._logged_messages = []
+            self._logged_messages_tagged = {}
+            self._message_formats = {}
+            self._msg_info_dict = {}
+            self._msg_info_dict_types = {}
+            self._msg_info_multiple_dict = {}
+            self._msg_info_multiple_dict_types = {}
+            self._initial_parameters = {}
+            self._default_parameters = {}
+            self._changed_parameters = []
+
             # appended_offsets
             cur.execute('''
                 SELECT Offset
-- 
2.43.0


From 979301dd4c6a563235f18af728fa8cf1e0ff028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 11/32] fix: store negative infinity as null in the JSON column

---
 pyulog/db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 69ca4ab..f6ff4af 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -588,7 +588,8 @@ class DatabaseULog(ULog):
                         timestamp_list = [str(s) for s in dataset.data['timestamp'].tolist()]
                         values_json = str(
                             dict(zip(timestamp_list, values.tolist()))
-                        ).replace('nan', 'null').replace('inf', 'null').replace("'", '"')
+                        ).replace('nan', 'null').replace('-inf', 'null').replace(
+                            'inf', 'null').replace("'", '"')
                         json_placeholder = 'json(?)'  # Saves some space
                     else:
                         values_json = None
-- 
2.43.0


From 680e54fceb80dffeb5a785b6aa8bc27f7ba685cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 12/32] fix: disable foreign key actions while migrating a
 database with data

---
 pyulog/migrate_db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index b2345ee..3ba49bc 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -117,6 +117,9 @@ def migrate_db(db_path, sql_dir=None, noop=False, force=False):
     db_handle = DatabaseULog.get_db_handle(db_path)
     with db_handle() as con:
         cur = con.cursor()
+        # Scripts replace referenced tables. This has to be set here, because
+        # sqlite ignores the pragma inside of the transaction of a script.
+        cur.execute('PRAGMA foreign_keys=off')
         for migration_id in range(db_schema_version+1,
                                   DatabaseULog.SCHEMA_VERSION+1):
             migration_filename, migration_lines = _read_migration_file(migration_id, sql_dir)
-- 
2.43.0


From fcfa89dc08b56c21f881a5c2d29aec3b3b6ca340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 13/32] fix: set the schema version in the transaction of its
 migration

---
 pyulog/migrate_db.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/migrate_db.py b/pyulog/migrate_db.py
index 3ba49bc..ff79a07 100644
--- a/pyulog/migrate_db.py
+++ b/pyulog/migrate_db.py
@@ -87,7 +87,9 @@ def _read_migration_file(migration_id, sql_dir):
     if not migration_lines.strip().endswith('COMMIT;'):
         raise ValueError(f'Migration file {migration_filename} must end with "COMMIT;"')
 
-    migration_lines +=  f'\nPRAGMA user_version = {migration_id};'
+    # set the version inside of the transaction, together with the changes
+    migration_lines = migration_lines.strip()[:-len('COMMIT;')]
+    migration_lines += f'PRAGMA user_version = {migration_id};\nCOMMIT;'
     return migration_filename, migration_lines
 
 def migrate_db(db_path, sql_dir=None, noop=False, force=False):
-- 
2.43.0


From 3980563c5fae59e05efd035c6770a4729d40b3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 14/32] fix: handle empty logged messages in ulog_messages

---
 pyulog/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/messages.py b/pyulog/messages.py
index dbfa77d..d6850f9 100644
--- a/pyulog/messages.py
+++ b/pyulog/messages.py
@@ -34,7 +34,7 @@ def main():
         for t, log_level, message in logged_messages:
             # backwards compatibility: a string message with appended tab is output
             # in addition to an event with the same message so we can ignore those
-            if message[-1] == '\t':
+            if message.endswith('\t'):
                 continue
             events.append((t, log_level, message))
 
-- 
2.43.0


From f45224904058b6d61d82205147a9e5beb48da3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 15/32] fix: accept a time limit beyond the last sample

---
 pyulog/extract_message.py | 9 +++++----
 pyulog/ulog2csv.py        | 8 ++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyulog/extract_message.py b/pyulog/extract_message.py
index a0394d6..ce89365 100644
--- a/pyulog/extract_message.py
+++ b/pyulog/extract_message.py
@@ -38,11 +38,12 @@ def extract_message(ulog_file_name: str, message: str,
     data_keys.insert(0, 'timestamp')  # we want timestamp at first position
 
     #get the index for row where timestamp exceeds or equals the required value
-    time_s_i = np.where(data.data['timestamp'] >= time_s * 1e6)[0][0] \
-            if time_s else 0
+    num_data_points = len(data.data['timestamp'])
+    time_s_i = np.append(np.where(data.data['timestamp'] >= time_s * 1e6)[0],
+                         num_data_points)[0] if time_s else 0
     #get the index for row upto the timestamp of the required value
-    time_e_i = np.where(data.data['timestamp'] >= time_e * 1e6)[0][0] \
-            if time_e else len(data.data['timestamp'])
+    time_e_i = np.append(np.where(data.data['timestamp'] >= time_e * 1e6)[0],
+                         num_data_points)[0] if time_e else num_data_points
 
     # write the data
     for i in range(time_s_i, time_e_i):
diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index adadca8..d4eb33e 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -131,11 +131,11 @@ def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e
             csvfile.write(delimiter.join(data_keys) + '\n')
 
             #get the index for row where timestamp exceeds or equals the required value
-            time_s_i = np.where(d.data['timestamp'] >= time_s * 1e6)[0][0] \
-                    if time_s else 0
+            time_s_i = np.append(np.where(d.data['timestamp'] >= time_s * 1e6)[0],
+                                 num_data_points)[0] if time_s else 0
             #get the index for row upto the timestamp of the required value
-            time_e_i = np.where(d.data['timestamp'] >= time_e * 1e6)[0][0] \
-                    if time_e else len(d.data['timestamp'])
+            time_e_i = np.append(np.where(d.data['timestamp'] >= time_e * 1e6)[0],
+                                 num_data_points)[0] if time_e else num_data_points
 
             # write the data
             last_elem = len(data_keys)-1
-- 
2.43.0


From 4c4a43d713a98c8aa7e56f9e73088d29d1cbe448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 16/32] fix: convert non-ASCII strings to CSV

---
 pyulog/ulog2csv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyulog/ulog2csv.py b/pyulog/ulog2csv.py
index d4eb33e..1c221fa 100644
--- a/pyulog/ulog2csv.py
+++ b/pyulog/ulog2csv.py
@@ -54,13 +54,13 @@ def main():
 
 def read_string_data(data: ULog.Data, field_name: str, array_size: int, data_index: int) -> str:
     """ Parse a data field as string """
-    s = ''
+    s = bytearray()
     for index in range(array_size):
         character = data.data[f'{field_name}[{index}]'][data_index]
         if character == 0:
             break
-        s += chr(character)
-    return s
+        s.append(int(character) & 0xff)
+    return ULog.parse_string(s)
 
 def convert_ulog2csv(ulog_file_name, messages, output, delimiter, time_s, time_e,
                      disable_str_exceptions=False):
-- 
2.43.0


From 8013b8151de975ae5c73b9947844808bd93b2408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 17/32] fix: accept flight modes without a color of their own

---
 pyulog/ulog2kml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/ulog2kml.py b/pyulog/ulog2kml.py
index a3f8fcb..346cfd2 100644
--- a/pyulog/ulog2kml.py
+++ b/pyulog/ulog2kml.py
@@ -51,7 +51,7 @@ def _kml_default_colors(x):
                   simplekml.Color.lawngreen, simplekml.Color.indianred, simplekml.Color.hotpink,
                   simplekml.Color.bisque, simplekml.Color.cyan, simplekml.Color.darksalmon,
                   simplekml.Color.deepskyblue, simplekml.Color.lime, simplekml.Color.orchid]
-    return colors_arr[x]
+    return colors_arr[x % len(colors_arr)]
 
 
 
-- 
2.43.0


From f9f11028bfbae7ab94b49f554e849005d71c8a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 18/32] fix: do not regard a log as saved when saving it failed

---
 pyulog/db.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index f6ff4af..9fce0b7 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -545,7 +545,7 @@ class DatabaseULog(ULog):
                     self._sha256sum,
                 )
             )
-            self._pk = cur.lastrowid
+            primary_key = cur.lastrowid
 
             # appended_offsets
             cur.executemany('''
@@ -556,7 +556,7 @@ class DatabaseULog(ULog):
                 ''', [(
                     list_index,
                     offset,
-                    self._pk,
+                    primary_key,
                 ) for list_index, offset in enumerate(self._appended_offsets)])
 
             # data_list
@@ -571,7 +571,7 @@ class DatabaseULog(ULog):
                         dataset.multi_id,
                         dataset.msg_id,
                         dataset.timestamp_idx,
-                        self._pk,
+                        primary_key,
                     )
                 )
                 dataset_id = cur.lastrowid
@@ -618,7 +618,7 @@ class DatabaseULog(ULog):
                 ''', [(
                     dropout.timestamp,
                     dropout.duration,
-                    self._pk,
+                    primary_key,
                 ) for dropout in self._dropouts])
 
             # logged_messages
@@ -631,7 +631,7 @@ class DatabaseULog(ULog):
                     message.log_level,
                     message.timestamp,
                     message.message,
-                    self._pk,
+                    primary_key,
                 ) for message in self._logged_messages])
 
             # logged_messages_tagged
@@ -646,7 +646,7 @@ class DatabaseULog(ULog):
                         message.timestamp,
                         tag,
                         message.message,
-                        self._pk,
+                        primary_key,
                     ) for message in messages])
 
             # message_formats
@@ -656,7 +656,7 @@ class DatabaseULog(ULog):
                     (Name, ULogId)
                     VALUES
                     (?, ?)
-                    ''', (name, self._pk))
+                    ''', (name, primary_key))
                 format_id = cur.lastrowid
                 cur.executemany('''
                     INSERT INTO ULogMessageFormatField
@@ -675,7 +675,7 @@ class DatabaseULog(ULog):
                     key,
                     value,
                     self._msg_info_dict_types[key],
-                    self._pk,
+                    primary_key,
                 ) for key, value in self.msg_info_dict.items()])
 
             # msg_info_multiple_dict
@@ -685,7 +685,7 @@ class DatabaseULog(ULog):
                     (Key, Typename, ULogId)
                     VALUES
                     (?, ?, ?)
-                    ''', (key, self._msg_info_multiple_dict_types[key], self._pk))
+                    ''', (key, self._msg_info_multiple_dict_types[key], primary_key))
                 message_id = cur.lastrowid
                 for list_index, message_list in enumerate(lists):
                     cur.execute('''
@@ -715,7 +715,7 @@ class DatabaseULog(ULog):
                 ''', [(
                     key,
                     value,
-                    self._pk,
+                    primary_key,
                 ) for key, value in self.initial_parameters.items()])
 
             # _default_parameters
@@ -729,7 +729,7 @@ class DatabaseULog(ULog):
                         default_type,
                         key,
                         value,
-                        self._pk,
+                        primary_key,
                     ) for key, value in parameters.items()])
 
             # changed_parameters
@@ -742,11 +742,14 @@ class DatabaseULog(ULog):
                     timestamp,
                     key,
                     value,
-                    self._pk,
+                    primary_key,
                 ) for timestamp, key, value in self.changed_parameters])
 
             cur.close()
 
+        # only known to be in the database once the transaction went through
+        self._pk = primary_key
+
     def delete(self):
         '''
         Deletes the ULog row and cascading rows from the database.
-- 
2.43.0


From 2c286c39cafe9134f1f6039a066abf8f9c43bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 19/32] fix: compare rosbag2_py versions numerically

---
 pyulog/ulog2ros2bag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyulog/ulog2ros2bag.py b/pyulog/ulog2ros2bag.py
index 08f3183..f67c183 100644
--- a/pyulog/ulog2ros2bag.py
+++ b/pyulog/ulog2ros2bag.py
@@ -290,7 +290,7 @@ def rosbag_topicmetadata_uses_id():
     rosbag2_py PR #1538 adds a parameter to TopicMetadata.__init__() for a topic ID,
     breaking the interface. This attempts to add compability with both versions.
     """
-    return version("rosbag2_py") >= "0.25.0"
+    return tuple(map(int, version("rosbag2_py").split(".")[:2])) >= (0, 25)
 
 
 def rosbag_write_uses_seqnum():
@@ -299,7 +299,7 @@ def rosbag_write_uses_seqnum():
     topic sequence number, breaking the interface. This attempts to add compatibility
     with both versions.
     """
-    return version("rosbag2_py") >= "0.32.0"
+    return tuple(map(int, version("rosbag2_py").split(".")[:2])) >= (0, 32)
 
 
 def calc_msgtype(topic_name: str) -> str | None:
-- 
2.43.0


From d2678bfe46b1811e1e8a54054583d6a380159b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 20/32] fix: treat an invalid array size in a format message as
 corruption

---
 pyulog/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 0adc489..c321503 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -649,7 +649,10 @@ class ULog(object):
                 type_name = type_str
             else:
                 b_pos = type_str.find(']')
-                array_size = int(type_str[a_pos+1:b_pos])
+                try:
+                    array_size = int(type_str[a_pos+1:b_pos])
+                except ValueError as e:
+                    raise IndexError('Invalid array size in message format') from e
                 type_name = type_str[:a_pos]
             return type_name, array_size, name_str
 
-- 
2.43.0


From dfc7728d618adf7561f0780dab5e3ba458387d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 21/32] fix: treat a format message that contains itself as
 corruption

---
 pyulog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index c321503..5cfa847 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1126,7 +1126,7 @@ class ULog(object):
                         # the sync search moves the file position
                         curr_file_pos = self._file_handle.tell()
 
-                except (IndexError, KeyError, struct.error):
+                except (IndexError, KeyError, struct.error, RecursionError):
                     if not self._file_corrupt:
                         print("File corruption detected while reading file data!")
                         self._file_corrupt = True
-- 
2.43.0


From 51debf857b109723f0855980a9d82442c9c952e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:18 +0000
Subject: [PATCH 22/32] fix: accept data messages with logged trailing padding

---
 pyulog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 5cfa847..9a17eb4 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -758,7 +758,6 @@ class ULog(object):
             dtype_list = []
             for field in self.field_data:
                 numpy_type = ULog._UNPACK_TYPES[field.type_str][2]
-                self.max_data_size += ULog._UNPACK_TYPES[field.type_str][1]
                 dtype_list.append((field.field_name, numpy_type))
             self.dtype = np.dtype(dtype_list).newbyteorder('<')
 
@@ -766,6 +765,9 @@ class ULog(object):
         def _parse_format(self, message_formats):
             self._parse_nested_type('', self.message_name, message_formats)
 
+            for field in self.field_data:
+                self.max_data_size += ULog._UNPACK_TYPES[field.type_str][1]
+
             # remove padding fields at the end
             while (len(self.field_data) > 0 and
                    self.field_data[-1].field_name.startswith('_padding')):
-- 
2.43.0


From b5e2c4629b751d5eb666c3d1587c046842d37911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:48 +0000
Subject: [PATCH 23/32] fix: message formats without fields were lost in the
 database

---
 pyulog/db.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index 9fce0b7..edf7f29 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -346,20 +346,20 @@ class DatabaseULog(ULog):
                     field.FieldType,
                     field.ArraySize,
                     field.Name
-                FROM ULogMessageFormat msg JOIN ULogMessageFormatField field
+                FROM ULogMessageFormat msg LEFT JOIN ULogMessageFormatField field
                     ON field.MessageId = msg.Id
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for row in cur.fetchall():
                 msg_name = row[0]
                 field_data = row[1:]
-                if msg_name in self._message_formats:
-                    self._message_formats[msg_name].fields.append(field_data)
-                else:
+                if msg_name not in self._message_formats:
                     self._message_formats[msg_name] = DatabaseULog.DatabaseMessageFormat(
                         name=msg_name,
-                        fields=[field_data]
+                        fields=[]
                     )
+                if field_data[0] is not None: # a format can be without fields
+                    self._message_formats[msg_name].fields.append(field_data)
 
             # msg_info_dict
             cur.execute('''
-- 
2.43.0


From a383c8e2d1db3ca383e02550ba9abdb448f93067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 24/32] fix: parameters and information messages that are NaN
 came back as None from the database

---
 pyulog/db.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyulog/db.py b/pyulog/db.py
index edf7f29..fa2abbd 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -208,6 +208,11 @@ class DatabaseULog(ULog):
         '''The computed SHA256 digest of the file, stored for later use.'''
         return self._sha256sum
 
+    @staticmethod
+    def _stored_value(value):
+        ''' Value of a parameter or information message, sqlite stores NaN as NULL. '''
+        return float('nan') if value is None else value
+
     # pylint: disable=too-many-locals,too-many-branches
     def load(self, lazy=True):
         '''
@@ -368,7 +373,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for key, typename, value in cur.fetchall():
-                self._msg_info_dict[key] = value
+                self._msg_info_dict[key] = DatabaseULog._stored_value(value)
                 self._msg_info_dict_types[key] = typename
 
             # msg_info_multiple_dict
@@ -393,7 +398,8 @@ class DatabaseULog(ULog):
                         WHERE ListId = ?
                         ORDER BY SeriesIndex
                         ''', (list_id,))
-                    self._msg_info_multiple_dict[key].append([value for (value,) in cur.fetchall()])
+                    self._msg_info_multiple_dict[key].append(
+                        [DatabaseULog._stored_value(value) for (value,) in cur.fetchall()])
 
             # initial_parameters
             cur.execute('''
@@ -402,7 +408,7 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for key, value in cur.fetchall():
-                self._initial_parameters[key] = value
+                self._initial_parameters[key] = DatabaseULog._stored_value(value)
 
             # _default_parameters
             cur.execute('''
@@ -413,7 +419,7 @@ class DatabaseULog(ULog):
             for default_type, key, value in cur.fetchall():
                 if default_type not in self._default_parameters:
                     self._default_parameters[default_type] = {}
-                self._default_parameters[default_type][key] = value
+                self._default_parameters[default_type][key] = DatabaseULog._stored_value(value)
 
             # changed_parameters
             cur.execute('''
@@ -422,7 +428,8 @@ class DatabaseULog(ULog):
                 WHERE ULogId = ?
                 ''', (self._pk,))
             for timestamp, key, value in cur.fetchall():
-                self._changed_parameters.append((timestamp, key, value))
+                self._changed_parameters.append(
+                    (timestamp, key, DatabaseULog._stored_value(value)))
 
             cur.close()
         self._lazy_loaded = lazy
-- 
2.43.0


From bbff8bb225b9d7c0459ec8a7d8a64f63602545f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 25/32] fix: saving a lazily loaded log again lost its data

---
 pyulog/db.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyulog/db.py b/pyulog/db.py
index fa2abbd..8eccae3 100644
--- a/pyulog/db.py
+++ b/pyulog/db.py
@@ -527,6 +527,9 @@ class DatabaseULog(ULog):
         if self._pk is not None:
             raise KeyError('Cannot save logs that are already in the database')
 
+        if self._lazy_loaded:
+            raise ValueError('Cannot save after lazy load because it has no datasets.')
+
         pk_from_hash = DatabaseULog.primary_key_from_sha256sum(self._db, self._sha256sum)
         if pk_from_hash is not None:
             self._pk = pk_from_hash
-- 
2.43.0


From ab2fa416735f06156b75ad1e95ef87697c276ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:41 +0000
Subject: [PATCH 26/32] fix: pitch of an attitude straight up or down is not
 NaN

---
 pyulog/px4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyulog/px4.py b/pyulog/px4.py
index 71490cd..6cf3453 100644
--- a/pyulog/px4.py
+++ b/pyulog/px4.py
@@ -93,7 +93,8 @@ class PX4ULog(object):
             q = [message_data.data['q'+field_name_suffix+'['+str(i)+']'] for i in range(4)]
             roll = np.arctan2(2.0 * (q[0] * q[1] + q[2] * q[3]),
                               1.0 - 2.0 * (q[1] * q[1] + q[2] * q[2]))
-            pitch = np.arcsin(2.0 * (q[0] * q[2] - q[3] * q[1]))
+            # rounding can bring the value slightly out of range when pointing straight up or down
+            pitch = np.arcsin(np.clip(2.0 * (q[0] * q[2] - q[3] * q[1]), -1.0, 1.0))
             yaw = np.arctan2(2.0 * (q[0] * q[3] + q[1] * q[2]),
                              1.0 - 2.0 * (q[2] * q[2] + q[3] * q[3]))
             message_data.data['roll'+field_name_suffix] = roll
-- 
2.43.0


From 48308d93e1f35f53185ba784bed01ce48b1cfa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:48 +0000
Subject: [PATCH 27/32] fix: a message format that repeats a field name made
 opening the log fail

numpy refuses such a record type with a ValueError, which is not among the
errors of malformed messages that the parser handles. Treat the subscription
as malformed, like one with an invalid array size.
---
 pyulog/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 9a17eb4..a657204 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -759,8 +759,10 @@ class ULog(object):
             for field in self.field_data:
                 numpy_type = ULog._UNPACK_TYPES[field.type_str][2]
                 dtype_list.append((field.field_name, numpy_type))
-            self.dtype = np.dtype(dtype_list).newbyteorder('<')
-
+            try:
+                self.dtype = np.dtype(dtype_list).newbyteorder('<')
+            except ValueError as e:
+                raise IndexError('Repeated field name in message format') from e
 
         def _parse_format(self, message_formats):
             self._parse_nested_type('', self.message_name, message_formats)
-- 
2.43.0


From aa03ef75e0a42c680e2c037355f4ec452c6450ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:49 +0000
Subject: [PATCH 28/32] fix: bool samples other than 0 and 1 were changed when
 a log was written

Samples of type bool are read as int8; packing them as '?' turned every
other value than 0 into 1, so a written log did not read back as equal.
---
 pyulog/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyulog/core.py b/pyulog/core.py
index a657204..b916641 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -439,6 +439,9 @@ class ULog(object):
                     # so that struct.pack can handle it
                     if field_encoding == 'c':
                         field_data = struct.pack('<b', field_data)
+                    # bool samples are np.int8, too, and can have other values than 0 and 1
+                    elif field_encoding == '?':
+                        field_encoding = 'b'
 
                     data.extend(struct.pack('<' + field_encoding, field_data))
 
-- 
2.43.0


From 5fa88ba08e137f0cb15fb61a6200faaf7cf3ef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 29/32] fix: a message id that is subscribed again lost the
 data it had so far

The new subscription replaced the old one together with its records. Keep
them as a dataset of their own.
---
 pyulog/core.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index b916641..684f83c 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -1084,6 +1084,9 @@ class ULog(object):
                     elif header.msg_type == self.MSG_TYPE_ADD_LOGGED_MSG:
                         msg_add_logged = self._MessageAddLogged(data, header,
                                                                 self._message_formats)
+                        previous = self._subscriptions.pop(msg_add_logged.msg_id, None)
+                        if previous is not None: # the message id is used again
+                            self._add_data(previous)
                         if (message_name_filter_list is None or
                                 msg_add_logged.message_name in message_name_filter_list):
                             self._subscriptions[msg_add_logged.msg_id] = msg_add_logged
@@ -1144,12 +1147,16 @@ class ULog(object):
         # convert into final representation
         while self._subscriptions:
             _, value = self._subscriptions.popitem()
-            if len(value.buffer) > 0: # only add if we have data
-                data_item = ULog.Data(value)
-                self._data_list.append(data_item)
+            self._add_data(value)
         # Sorting is necessary to be able to compare two ULogs correctly
         self.data_list.sort(key=lambda ds: (ds.name, ds.multi_id))
 
+    def _add_data(self, subscription):
+        """ convert the data of a subscription into final representation """
+        if len(subscription.buffer) > 0: # only add if we have data
+            data_item = ULog.Data(subscription)
+            self._data_list.append(data_item)
+
     def _check_packet_corruption(self, header):
         """
         check for data corruption based on an unknown message type in the header
-- 
2.43.0


From 21a481155bd7400952057ee8ebcd5b7ef39b44db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 30/32] fix: records in appended data were dropped

The subscriptions were given up at the end of each part of the file, so data
messages of the appended parts counted as corrupt.
---
 pyulog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 684f83c..5890665 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -888,6 +888,7 @@ class ULog(object):
 
             # read the whole file, or the rest if data appended
             self._read_file_data(message_name_filter_list)
+            self._convert_subscriptions()
         finally:
             self._file_handle.close()
             del self._file_handle
@@ -1144,7 +1145,8 @@ class ULog(object):
         except struct.error:
             pass #we read past the end of the file
 
-        # convert into final representation
+    def _convert_subscriptions(self):
+        """ convert the data of all subscriptions into final representation """
         while self._subscriptions:
             _, value = self._subscriptions.popitem()
             self._add_data(value)
-- 
2.43.0


From 01bfd0a37b6303d6e125ac84356946f368d00b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:17 +0000
Subject: [PATCH 31/32] fix: an appended offset of zero before another one lost
 all data

---
 pyulog/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyulog/core.py b/pyulog/core.py
index 5890665..5e222a2 100644
--- a/pyulog/core.py
+++ b/pyulog/core.py
@@ -617,10 +617,9 @@ class ULog(object):
 
             self.compat_flags = list(struct.unpack('<'+'B'*8, data[0:8]))
             self.incompat_flags = list(struct.unpack('<'+'B'*8, data[8:16]))
-            self.appended_offsets = list(struct.unpack('<'+'Q'*3, data[16:16+3*8]))
-            # remove the 0's at the end
-            while len(self.appended_offsets) > 0 and self.appended_offsets[-1] == 0:
-                self.appended_offsets.pop()
+            appended_offsets = struct.unpack('<'+'Q'*3, data[16:16+3*8])
+            # an offset of 0 is not in use
+            self.appended_offsets = [offset for offset in appended_offsets if offset != 0]
 
 
     class MessageFormat(object):
-- 
2.43.0


From 6503fb4d7b640cc69c7e232dbad3800cd889541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:10 +0000
Subject: [PATCH 32/32] fix: showing a multiple information message of numbers
 failed

---
 pyulog/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyulog/info.py b/pyulog/info.py
index 129bc6f..4512ee5 100644
--- a/pyulog/info.py
+++ b/pyulog/info.py
@@ -97,7 +97,7 @@ def main():
                     print(separator.join(' '.join('{:02x}'.format(x) for x in item) for item in m))
                 else:
                     print("# {} {}:".format(message, i))
-                    print(separator.join(m))
+                    print(separator.join(str(item) for item in m))
         else:
             print("message {} not found".format(message))
     else:
-- 
2.43.0

