From ea09769b5afc3284bab81336df96c65c25fbe71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 1/9] fix: load_configuration no longer mistakes a read error
 or a truncated record for the end of the data

---
 procmon_parser/configuration_format.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index 8ee3e99..1db6e71 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -5,7 +5,7 @@ from collections import OrderedDict
 from io import BytesIO
 
 from construct import Struct, Int8ul, Int16ul, Int32ul, Bytes, PaddedString, Array, Const, Switch, Tell, Adapter, \
-    Rebuild, Default, Pointer, StreamError
+    Rebuild, Default, Pointer
 
 from procmon_parser.configuration import Column, RuleAction, RuleRelation, Rule, Font
 from procmon_parser.construct_helper import OriginalEnumAdapter, FixedUTF16String, FixedUTF16CString, FixedArray, \
@@ -189,13 +189,14 @@ def load_configuration(stream):
     """Deserialize ``stream`` (a ``.read()``-supporting file-like object) which contains PMC formatted data,
     to a Python dictionary with the parsed configuration records.
     """
+    # Read everything first: construct reports a failed or a short read with the same error as the end of the data, so
+    # parsing directly from ``stream`` can't tell an I/O error or a truncated record from the end of the configuration.
+    raw_records = stream.read()
+    records_stream = BytesIO(raw_records)
     records = []
-    while True:
-        try:
-            name, data = Record.parse_stream(stream)
-            records.append((name, data))
-        except StreamError:
-            break
+    while records_stream.tell() < len(raw_records):
+        name, data = Record.parse_stream(records_stream)
+        records.append((name, data))
     return OrderedDict(records)
 
 
-- 
2.43.0


From 100debb1b0283cb64b2d7fa82bb482def856c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 2/9] fix: an error in an item of a configuration array is
 reported instead of silently ending the array

---
 procmon_parser/construct_helper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/construct_helper.py b/procmon_parser/construct_helper.py
index 3200246..cf3436a 100644
--- a/procmon_parser/construct_helper.py
+++ b/procmon_parser/construct_helper.py
@@ -1,4 +1,4 @@
-from construct import Enum, Adapter, IfThenElse, PaddedString, CString, GreedyString, FixedSized, GreedyRange, Bytes, \
+from construct import Enum, Adapter, Array, IfThenElse, PaddedString, CString, GreedyString, FixedSized, GreedyRange, Bytes, \
     GreedyBytes, If, Check, CheckError
 from six import text_type, string_types
 
@@ -60,9 +60,12 @@ def FixedUTF16CString(size_func, ctx_str_name):
 
 def FixedArray(size_func, subcon):
     """At parse time parses a fixed sized array, and at build time builds the array with its given size.
+    The number of items is calculated at parse time because GreedyRange ends the array upon any error in an item.
     """
     return ListAdapter(
-        IfThenElse(lambda this: this._parsing, FixedSized(size_func, GreedyRange(subcon)), GreedyRange(subcon)))
+        IfThenElse(lambda this: this._parsing,
+                   FixedSized(size_func, Array(lambda this: size_func(this) // subcon.sizeof(), subcon)),
+                   GreedyRange(subcon)))
 
 
 def FixedBytes(size_func):
-- 
2.43.0


From c96039cb08163b04625d70d3fcfc1daf458d0383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 3/9] fix: dump_configuration writes the finished records,
 instead of patching sizes into the output stream

A failing option or a write that was cut short left half built records in the
stream, and append-only or non seekable streams got a corrupt configuration.
---
 procmon_parser/configuration_format.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/procmon_parser/configuration_format.py b/procmon_parser/configuration_format.py
index 1db6e71..0e23ad2 100644
--- a/procmon_parser/configuration_format.py
+++ b/procmon_parser/configuration_format.py
@@ -5,7 +5,7 @@ from collections import OrderedDict
 from io import BytesIO
 
 from construct import Struct, Int8ul, Int16ul, Int32ul, Bytes, PaddedString, Array, Const, Switch, Tell, Adapter, \
-    Rebuild, Default, Pointer
+    Rebuild, Default, Pointer, GreedyBytes
 
 from procmon_parser.configuration import Column, RuleAction, RuleRelation, Rule, Font
 from procmon_parser.construct_helper import OriginalEnumAdapter, FixedUTF16String, FixedUTF16CString, FixedArray, \
@@ -213,13 +213,15 @@ def dump_configuration(records, stream):
     ``.write()``-supporting file-like object that returns the length written (for python2 use the io module)),
     in the format of PMC.
     """
-    for name, data in records.items():
-        Record.build_stream((name, data), stream)
+    # The records are built in memory because the sizes in them are filled after their data was built: doing it directly
+    # on ``stream`` leaves garbage in it upon an error, and needs a stream that can be seeked back and overwritten.
+    GreedyBytes.build_stream(dumps_configuration(records), stream)
 
 
 def dumps_configuration(records):
     """Serialize ``records``, a dictionary of procmon configuration records, to ``bytes`` in the format of PMC.
     """
     stream = BytesIO()
-    dump_configuration(records, stream)
+    for name, data in records.items():
+        Record.build_stream((name, data), stream)
     return stream.getvalue()
-- 
2.43.0


From 34d4cbc3df74124bad1f72550a863593c7d6d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 4/9] fix: a short read or a truncated PML file no longer gives
 silently cut or shifted values

read() of raw streams may return less than requested; strings were cut or
decoded misaligned, and a file truncated in its last table opened as complete.
---
 procmon_parser/stream_helper.py      | 21 +++++++++++++++++++++
 procmon_parser/stream_logs_format.py |  7 ++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/procmon_parser/stream_helper.py b/procmon_parser/stream_helper.py
index ade2ec1..7ed6fe4 100644
--- a/procmon_parser/stream_helper.py
+++ b/procmon_parser/stream_helper.py
@@ -82,3 +82,24 @@ def read_filetime(io):
 
 def read_duration(io):
     return unpacker_u64(io.read(8))[0]
+
+
+class ExactStream(object):
+    """A stream in which reading a number of bytes returns exactly that number, and fails if the stream ends before.
+    ``read`` of raw streams can return less bytes than requested even when there are more.
+    """
+
+    def __init__(self, stream, end_of_stream_error):
+        self._stream = stream
+        self._end_of_stream_error = end_of_stream_error
+        self.seek = stream.seek
+        self.tell = stream.tell
+
+    def read(self, size=-1):
+        data = self._stream.read(size)
+        while len(data) < size:
+            more = self._stream.read(size - len(data))
+            if not more:
+                raise self._end_of_stream_error("the stream ended while reading {} bytes".format(size))
+            data += more
+        return data
diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index 83f318f..ee86d5a 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -6,7 +6,7 @@ from ipaddress import IPv4Address, IPv6Address
 from procmon_parser.consts import EventClass, EventClassOperation
 from procmon_parser.logs import PMLStructReader, Module, Process, Event, PMLError
 from procmon_parser.stream_helper import read_u8, read_u16, read_u32, read_u64, read_utf16, read_filetime, \
-    get_pvoid_reader, get_pvoid_size
+    get_pvoid_reader, get_pvoid_size, ExactStream
 from procmon_parser.stream_logs_detail_format import PmlMetadata, get_event_details
 
 
@@ -223,7 +223,7 @@ def read_event(io, metadata):
 
 class PMLStreamReader(PMLStructReader):
     def __init__(self, f, should_get_stacktrace=True, should_get_details=True):
-        self._stream = f
+        self._stream = ExactStream(f, PMLError)
         self._header = Header(self._stream)
         self._read_pvoid = get_pvoid_reader(self.header.is_64bit)
 
@@ -238,7 +238,8 @@ class PMLStreamReader(PMLStructReader):
         self._process_table = ProcessTable(self._stream, read_pvoid=self._read_pvoid, strings_table=self._strings_table)
         self._stream.seek(self.header.hosts_and_ports_tables_offset)
 
-        hostnames_and_ports_tables_stream = BytesIO(self._stream.read())  # this is the end of the file
+        # this is the end of the file
+        hostnames_and_ports_tables_stream = ExactStream(BytesIO(self._stream.read()), PMLError)
         self._hostnames_table = HostnamesTable(hostnames_and_ports_tables_stream)
         self._ports_table = PortsTable(hostnames_and_ports_tables_stream)
         self._metadata = PmlMetadata(self.__str_idx, self.__process_idx, self.__hostname_idx, self.__port_idx,
-- 
2.43.0


From 40633b1a8afcb8798adec0f027c77748df1f5bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 5/9] fix: an IndexError while reading a corrupted event no
 longer ends read_all_events_from_pml early

---
 procmon_parser/logs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/procmon_parser/logs.py b/procmon_parser/logs.py
index 113c10b..c8f299f 100644
--- a/procmon_parser/logs.py
+++ b/procmon_parser/logs.py
@@ -322,6 +322,10 @@ class PMLStructReader(object):
 
         raise TypeError("Bad index")
 
+    def __iter__(self):
+        # Without it python iterates until __getitem__ raises IndexError, so a corrupted event would look like the end
+        return (self[i] for i in range(self.number_of_events))
+
     def _get_os_name(self):
         windows_names = {
             (6, 0): "Windows Vista",
-- 
2.43.0


From b5fb878de09bb51f866415fdc5476a8450c2bbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 6/9] fix: a corrupted number of events no longer makes the
 reader allocate gigabytes of memory

---
 procmon_parser/stream_logs_format.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index ee86d5a..804ff9b 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -61,9 +61,9 @@ class EventOffsetsArray(list):
     def __init__(self, io, total_size, number_of_events):
         super(EventOffsetsArray, self).__init__()
         stream = BytesIO(io.read(total_size))
-        offsets = [0] * number_of_events
-        for i in range(number_of_events):
-            offsets[i] = read_u32(stream)
+        offsets = []  # not allocated in advance because number_of_events can be wrong in a corrupted file
+        for _ in range(number_of_events):
+            offsets.append(read_u32(stream))
             _ = read_u8(stream)  # Unknown flags
         self.extend(offsets)
 
-- 
2.43.0


From 05bb0de5dd8691662c35637b44658c677095a136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 7/9] fix: AM/PM in the times of the csv columns doesn't depend
 on the locale of the process

---
 procmon_parser/logs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/logs.py b/procmon_parser/logs.py
index c8f299f..cc49e89 100644
--- a/procmon_parser/logs.py
+++ b/procmon_parser/logs.py
@@ -152,10 +152,11 @@ class Event(object):
         hundred_nanoseconds = (date_filetime % HUNDREDS_OF_NANOSECONDS)
         d = datetime.datetime.utcfromtimestamp((date_filetime - EPOCH_AS_FILETIME) // HUNDREDS_OF_NANOSECONDS)
 
+        am_pm = "AM" if d.hour < 12 else "PM"  # not using "%p" because it's empty or translated in some locales
         if show_nanoseconds:
-            time_of_day = d.strftime("%I:%M:%S.{:07d} %p").lstrip('0').format(hundred_nanoseconds)
+            time_of_day = d.strftime("%I:%M:%S.{:07d} {}").lstrip('0').format(hundred_nanoseconds, am_pm)
         else:
-            time_of_day = d.strftime("%I:%M:%S %p").lstrip('0')
+            time_of_day = d.strftime("%I:%M:%S {}").lstrip('0').format(am_pm)
 
         if not show_day:
             return time_of_day
-- 
2.43.0


From 93aa2b41a30a8665ac97d1a12d0d1fdfd9d119a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 8/9] fix: a corrupted details size no longer makes the stream
 allocate up to gigabytes before reading

---
 procmon_parser/stream_helper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/procmon_parser/stream_helper.py b/procmon_parser/stream_helper.py
index 7ed6fe4..f2bf4ff 100644
--- a/procmon_parser/stream_helper.py
+++ b/procmon_parser/stream_helper.py
@@ -89,6 +89,8 @@ class ExactStream(object):
     ``read`` of raw streams can return less bytes than requested even when there are more.
     """
 
+    MAX_READ_SIZE = 0x10000
+
     def __init__(self, stream, end_of_stream_error):
         self._stream = stream
         self._end_of_stream_error = end_of_stream_error
@@ -96,9 +98,10 @@ class ExactStream(object):
         self.tell = stream.tell
 
     def read(self, size=-1):
-        data = self._stream.read(size)
+        # a corrupted size is not requested at once, as streams may allocate the requested size before reading
+        data = self._stream.read(min(size, self.MAX_READ_SIZE))
         while len(data) < size:
-            more = self._stream.read(size - len(data))
+            more = self._stream.read(min(size - len(data), self.MAX_READ_SIZE))
             if not more:
                 raise self._end_of_stream_error("the stream ended while reading {} bytes".format(size))
             data += more
-- 
2.43.0


From 1e432fe53a79d5a7f0667a3a175ed509814a13bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 9/9] fix: a corrupted offset of the event index after the
 process table gives the same error for every stream

---
 procmon_parser/stream_logs_format.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/procmon_parser/stream_logs_format.py b/procmon_parser/stream_logs_format.py
index 804ff9b..9b6e8a2 100644
--- a/procmon_parser/stream_logs_format.py
+++ b/procmon_parser/stream_logs_format.py
@@ -60,6 +60,8 @@ class Header(object):
 class EventOffsetsArray(list):
     def __init__(self, io, total_size, number_of_events):
         super(EventOffsetsArray, self).__init__()
+        if total_size < 0:
+            raise PMLError("PML is corrupt and cannot be opened.")
         stream = BytesIO(io.read(total_size))
         offsets = []  # not allocated in advance because number_of_events can be wrong in a corrupted file
         for _ in range(number_of_events):
-- 
2.43.0

