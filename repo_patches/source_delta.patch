From b1dcacea843915fbb17baed11a663fbd3d9825d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:39 +0000
Subject: [PATCH 01/16] fix: honour offset for the base header in
 VarObjectHeader.unpack_from

---
 src/vblf/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index 66a999a..b425a0e 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -175,7 +175,7 @@ class VarObjectHeader(HeaderWithBase):
 
     @classmethod
     def unpack_from(cls, buffer: bytes, offset: int = 0) -> Self:
-        base = ObjectHeaderBase.unpack_from(buffer, 0)
+        base = ObjectHeaderBase.unpack_from(buffer, offset)
         (
             object_flags,
             object_static_size,
-- 
2.43.0


From 9ca87507c398c53ba007735ed783d59d5ac1ce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:39 +0000
Subject: [PATCH 02/16] fix: ignore extension data of CanFdErrorFrame64 when
 the object declares none

---
 src/vblf/can.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vblf/can.py b/src/vblf/can.py
index 2d5affc..cb696f2 100644
--- a/src/vblf/can.py
+++ b/src/vblf/can.py
@@ -685,7 +685,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
 
         # get ext frame data
         btr_ext_arb, btr_ext_data = 0, 0
-        if header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size:
+        if (
+            ext_data_offset != 0
+            and header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size
+        ):
             btr_ext_arb, btr_ext_data = cls._FORMAT_EXT.unpack_from(buffer, ext_data_offset)
 
         return cls(
@@ -748,7 +751,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
         buffer[data_offset : data_offset + self.valid_data_bytes] = self.data
 
         # pack ext frame data
-        if self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size:
+        if (
+            self.ext_data_offset != 0
+            and self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size
+        ):
             self._FORMAT_EXT.pack_into(
                 buffer, self.ext_data_offset, self.btr_ext_arb, self.btr_ext_data
             )
-- 
2.43.0


From 41c359dd6615ff44e0776c06ce4648571d5a15b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:39 +0000
Subject: [PATCH 03/16] fix: keep AppText intact when its text is empty or not
 null-terminated

---
 src/vblf/general.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index b425a0e..6952f76 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -500,7 +500,11 @@ class AppText(ObjectWithHeader[ObjectHeader]):
             reserved2,
         ) = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
         text_offset = ObjectHeader.SIZE + cls._FORMAT.size
-        text = buffer[text_offset : text_offset + text_length - 1].decode("cp1252")
+        encoded_text = buffer[text_offset : text_offset + text_length]
+        # strip the terminating null character, if there is one
+        if encoded_text.endswith(b"\x00"):
+            encoded_text = encoded_text[:-1]
+        text = encoded_text.decode("cp1252")
         return cls(
             header,
             AppTextSource(source),
@@ -521,7 +525,9 @@ class AppText(ObjectWithHeader[ObjectHeader]):
             self.text_length,
             self.reserved2,
         )
-        encoded_text = self.text.encode("cp1252") + b"\x00"
+        encoded_text = self.text.encode("cp1252")
+        if len(encoded_text) < self.text_length:
+            encoded_text += b"\x00"
         text_offset = ObjectHeader.SIZE + self._FORMAT.size
         buffer[text_offset : text_offset + self.text_length] = encoded_text
         return bytes(buffer)
-- 
2.43.0


From 73ce14f72ce7a2a295d8b50974adf4447c3f35c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 04/16] fix: reject non-positive buffer sizes, which made
 close() hang

---
 src/vblf/writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 7386a51..46cf097 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -21,6 +21,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
     :param compression_level: Compression level (0-9), defaults to no compression
     :param buffer_size: Size of internal buffer in bytes before flushing, defaults to 128 KiB
     :raises TypeError: If file parameter is of unsupported type
+    :raises ValueError: If buffer_size is not positive
     """
 
     def __init__(
@@ -33,6 +34,9 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         See class documentation for details.
         """
+        if buffer_size <= 0:
+            err_msg = f"Buffer size must be positive: {buffer_size}"
+            raise ValueError(err_msg)
         self._buffer_size = buffer_size
         self._buffer = bytearray()
         self._measurement_start_time = time.time()
-- 
2.43.0


From 65231e64061c16c702492e5cc6d62afac0c616f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 05/16] fix: reject objects written after close instead of
 dropping them silently

---
 src/vblf/writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 46cf097..7d98239 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -63,8 +63,12 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         or when the file is closed.
 
         :param obj: Object to write
-        :raises ValueError: If object size doesn't match its header
+        :raises ValueError: If object size doesn't match its header or the writer is closed
         """
+        if self._file.closed:
+            err_msg = "Writer is closed"
+            raise ValueError(err_msg)
+
         # byte alignment
         if rest := len(self._buffer) % BYTE_ALIGNMENT:
             self._buffer.extend(b"\x00" * (BYTE_ALIGNMENT - rest))
-- 
2.43.0


From e517d5331752ad1e2ec2317695a03ee6d579ca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 06/16] fix: flush every full container, not only one per write

---
 src/vblf/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 7d98239..6230431 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -81,7 +81,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         self._file_statistics.uncompressed_file_size += len(obj_data)
         self._time_of_last_object = time.time()
 
-        if len(self._buffer) >= self._buffer_size:
+        while len(self._buffer) >= self._buffer_size:
             self._flush_container()
 
     def _flush_container(self) -> None:
-- 
2.43.0


From 5bdfc51e9c29d2189633166088bfabc2ce167481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 07/16] fix: write compression method and uncompressed size of
 containers

A time stamp was stored instead, which also failed when the clock was set back.
---
 src/vblf/writer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 6230431..a3f2a47 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -9,6 +9,8 @@ from vblf.constants import Compression, ObjFlags
 from vblf.general import FileStatistics, HeaderWithBase, LogContainer, ObjectWithHeader, SystemTime
 
 BYTE_ALIGNMENT: Final = 8
+NO_COMPRESSION_METHOD: Final = 0
+ZLIB_METHOD: Final = 2
 
 
 class BlfWriter(AbstractContextManager["BlfWriter"]):
@@ -101,13 +103,17 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         if self._file_statistics.compression_level > Compression.NONE:
             compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
+            compression_method = ZLIB_METHOD
         else:
             compressed_data = bytes(buffer)
+            compression_method = NO_COMPRESSION_METHOD
 
+        # a container holds its compression method and uncompressed size
+        # in place of the object flags and the time stamp
         log_container = LogContainer.new(
             data=compressed_data,
-            time_stamp=round((time.time() - self._measurement_start_time) * 1e9),
-            flags=ObjFlags.TIME_ONE_NANS,
+            time_stamp=len(buffer),
+            flags=ObjFlags(compression_method),
         )
         self._file.write(log_container.pack())
         self._file_statistics.file_size = self._file.tell()
-- 
2.43.0


From 48a7035271392542d7f753cb1fa861c5ea8f16b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 08/16] fix: keep buffered objects when writing a container
 fails

---
 src/vblf/writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index a3f2a47..489db2d 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -95,11 +95,14 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         if not self._buffer:
             return
 
+        # continue behind the last complete container, even if a previous write failed
+        self._file.seek(self._file_statistics.file_size)
+
         # byte alignment
         if rest := self._file.tell() % BYTE_ALIGNMENT:
             self._file.write(b"\x00" * (BYTE_ALIGNMENT - rest))
 
-        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
+        buffer = self._buffer[: self._buffer_size]
 
         if self._file_statistics.compression_level > Compression.NONE:
             compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
@@ -117,6 +120,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         )
         self._file.write(log_container.pack())
         self._file_statistics.file_size = self._file.tell()
+        del self._buffer[: self._buffer_size]
 
     def _update_file_statistics(self) -> None:
         """Update file statistics and write them to the beginning of the file.
-- 
2.43.0


From 652313f2bca46f45b0faaae45455fb504684c6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 09/16] fix: reject objects that declare a size smaller than
 their header

---
 src/vblf/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 27ac49f..2df1baa 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -111,6 +111,9 @@ class BlfReader(AbstractContextManager["BlfReader"]):
                 break
             else:
                 header_base = ObjectHeaderBase.unpack(header_base_data)
+            if header_base.object_size < ObjectHeaderBase.SIZE:
+                err_msg = f"Invalid object size {header_base.object_size}"
+                raise ValueError(err_msg)
 
             # read object data
             obj_data = header_base_data + stream.read(
-- 
2.43.0


From 11f4a128a68cd1a31a4784511c318e9a23dd73db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 10/16] fix: read containers that are marked as stored
 uncompressed

---
 src/vblf/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 2df1baa..5e8728d 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -131,9 +131,11 @@ class BlfReader(AbstractContextManager["BlfReader"]):
             if obj_class is LogContainer:
                 # decompress data
                 container = LogContainer.unpack(obj_data)
+                # the lower 16 bits of the flags are the compression method, 0 means uncompressed
+                compression_method = container.header.object_flags & 0xFFFF
                 uncompressed = (
                     zlib.decompress(container.data)
-                    if self.file_statistics.compression_level > 0
+                    if self.file_statistics.compression_level > 0 and compression_method != 0
                     else container.data
                 )
 
-- 
2.43.0


From 46c46e1a8f14d29ebd429111f71427fc1f5ba5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 11/16] fix: raise ValueError instead of RecursionError for
 deeply nested containers

---
 src/vblf/reader.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 5e8728d..414020e 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -45,6 +45,7 @@ from vblf.lin import LinMessage, LinMessage2
 from vblf.tp_diag import DiagRequestInterpretation
 
 LOG = logging.getLogger("vblf")
+MAX_CONTAINER_DEPTH: Final = 64
 
 
 class BlfReader(AbstractContextManager["BlfReader"]):
@@ -87,11 +88,15 @@ class BlfReader(AbstractContextManager["BlfReader"]):
         self._incomplete_data: bytes = b""
         self._generator = self._generate_objects(self._file)
 
-    def _generate_objects(self, stream: BinaryIO) -> Iterator[ObjectWithHeader[Any]]:
+    def _generate_objects(
+        self, stream: BinaryIO, depth: int = 0
+    ) -> Iterator[ObjectWithHeader[Any]]:
         """Generate objects from the BLF stream.
 
         :param stream: Binary stream containing BLF data
+        :param depth: Number of log containers around the stream
         :returns: Iterator yielding parsed BLF objects
+        :raises ValueError: If an object is invalid
         """
         while True:
             # find start of next object (search for b"LOBJ")
@@ -129,6 +134,10 @@ class BlfReader(AbstractContextManager["BlfReader"]):
             )
 
             if obj_class is LogContainer:
+                if depth >= MAX_CONTAINER_DEPTH:
+                    err_msg = "Log containers are nested too deeply"
+                    raise ValueError(err_msg)
+
                 # decompress data
                 container = LogContainer.unpack(obj_data)
                 # the lower 16 bits of the flags are the compression method, 0 means uncompressed
@@ -144,7 +153,7 @@ class BlfReader(AbstractContextManager["BlfReader"]):
                 self._incomplete_data = b""
 
                 # parse LogContainer data
-                yield from self._generate_objects(BytesIO(uncompressed))
+                yield from self._generate_objects(BytesIO(uncompressed), depth + 1)
 
             else:
                 yield obj_class.unpack(obj_data)
-- 
2.43.0


From 3f3de48821caa93483b901da6d1d571086509421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 12/16] fix: do not pad the buffer for a rejected object

---
 src/vblf/writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 489db2d..22bc6d8 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -71,13 +71,13 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
             err_msg = "Writer is closed"
             raise ValueError(err_msg)
 
-        # byte alignment
-        if rest := len(self._buffer) % BYTE_ALIGNMENT:
-            self._buffer.extend(b"\x00" * (BYTE_ALIGNMENT - rest))
         obj_data = obj.pack()
         if len(obj_data) != obj.header.base.object_size:
             err_msg = f"Object size mismatch: {len(obj_data)} != {obj.header.base.object_size}"
             raise ValueError(err_msg)
+        # byte alignment
+        if rest := len(self._buffer) % BYTE_ALIGNMENT:
+            self._buffer.extend(b"\x00" * (BYTE_ALIGNMENT - rest))
         self._buffer.extend(obj_data)
         self._file_statistics.object_count += 1
         self._file_statistics.uncompressed_file_size += len(obj_data)
-- 
2.43.0


From 519272f738bf30820ad4ac7c671b2c3670da3b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 13/16] fix: hand each container over to the operating system
 when it is written

A log given by path kept the last container in the buffer of the file object
until the next one was written, so the death of the process lost up to two
buffers of objects instead of one.
---
 src/vblf/writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 22bc6d8..7ffb8b4 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -119,6 +119,9 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
             flags=ObjFlags(compression_method),
         )
         self._file.write(log_container.pack())
+        # hand the container over to the operating system, so that it survives the process
+        if hasattr(self._file, "flush"):
+            self._file.flush()
         self._file_statistics.file_size = self._file.tell()
         del self._buffer[: self._buffer_size]
 
-- 
2.43.0


From babd5a7892e808805891123b311b40b01318339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 14/16] fix: complete short writes of unbuffered files

A file opened without buffering may store only a part of the data and report
the number of bytes instead of raising an exception. The rest of the data was
dropped, and close reported success for a log with a torn container.
---
 src/vblf/writer.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 7ffb8b4..c77a495 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -56,7 +56,23 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         # write file statistics
         self._file_statistics = FileStatistics.new()
         self._file_statistics.compression_level = compression_level
-        self._file.write(self._file_statistics.pack())
+        self._write_data(self._file_statistics.pack())
+
+    def _write_data(self, data: bytes) -> None:
+        """Write data to the file completely.
+
+        An unbuffered file may store only a part of the data without raising an exception.
+
+        :param data: Data to write
+        :raises OSError: If the file does not accept any further data
+        """
+        count = self._file.write(data)
+        while count is not None and count < len(data):
+            if count <= 0:
+                err_msg = "File does not accept any further data"
+                raise OSError(err_msg)
+            data = data[count:]
+            count = self._file.write(data)
 
     def write(self, obj: ObjectWithHeader[HeaderWithBase]) -> None:
         """Write an object to the BLF file.
@@ -100,7 +116,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         # byte alignment
         if rest := self._file.tell() % BYTE_ALIGNMENT:
-            self._file.write(b"\x00" * (BYTE_ALIGNMENT - rest))
+            self._write_data(b"\x00" * (BYTE_ALIGNMENT - rest))
 
         buffer = self._buffer[: self._buffer_size]
 
@@ -118,7 +134,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
             time_stamp=len(buffer),
             flags=ObjFlags(compression_method),
         )
-        self._file.write(log_container.pack())
+        self._write_data(log_container.pack())
         # hand the container over to the operating system, so that it survives the process
         if hasattr(self._file, "flush"):
             self._file.flush()
@@ -134,7 +150,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
             datetime.datetime.fromtimestamp(self._time_of_last_object, datetime.timezone.utc)
         )
         self._file.seek(0)
-        self._file.write(self._file_statistics.pack())
+        self._write_data(self._file_statistics.pack())
 
     def close(self) -> None:
         """Close the BLF file.
-- 
2.43.0


From 0ab0e0d324eb1a93cdcbd847477002eafca68a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 15/16] fix: do not reserve memory for the size that a damaged
 object declares

The file objects of Python reserve memory for all the data they are asked
for, so a single damaged size field made the reader fail with MemoryError
where 4 GiB are not available.
---
 src/vblf/reader.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 414020e..c1e9fe4 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -46,6 +46,7 @@ from vblf.tp_diag import DiagRequestInterpretation
 
 LOG = logging.getLogger("vblf")
 MAX_CONTAINER_DEPTH: Final = 64
+MAX_READ_SIZE: Final = 1024 * 1024
 
 
 class BlfReader(AbstractContextManager["BlfReader"]):
@@ -121,8 +122,8 @@ class BlfReader(AbstractContextManager["BlfReader"]):
                 raise ValueError(err_msg)
 
             # read object data
-            obj_data = header_base_data + stream.read(
-                header_base.object_size - ObjectHeaderBase.SIZE
+            obj_data = header_base_data + self._read_data(
+                stream, header_base.object_size - ObjectHeaderBase.SIZE
             )
             if len(obj_data) < header_base.object_size:
                 self._incomplete_data = obj_data
@@ -158,6 +159,25 @@ class BlfReader(AbstractContextManager["BlfReader"]):
             else:
                 yield obj_class.unpack(obj_data)
 
+    def _read_data(self, stream: BinaryIO, size: int) -> bytes:
+        """Read data from the stream.
+
+        The data is read in chunks, because a damaged object may declare any size and
+        the file objects of Python reserve memory for all the data they are asked for.
+
+        :param stream: Binary stream containing BLF data
+        :param size: Number of bytes to read
+        :returns: The data, shorter than `size` if the end of the stream is reached
+        """
+        chunks = []
+        while size > 0:
+            chunk = stream.read(min(size, MAX_READ_SIZE))
+            if not chunk:
+                break
+            chunks.append(chunk)
+            size -= len(chunk)
+        return b"".join(chunks)
+
     def read_object(self) -> Optional[ObjectWithHeader[Any]]:
         """Retrieve the next parsed object from the BLF file.
 
-- 
2.43.0


From 8106ee6d50f209ca47a7fb48615e69837e731b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 16/16] fix: close the file that the reader opened when it
 rejects it

The exception kept the reader and its open file alive: the file could not be
moved away or deleted on Windows, and collecting it raised a ResourceWarning.
---
 src/vblf/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index c1e9fe4..e619d8b 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -81,6 +81,8 @@ class BlfReader(AbstractContextManager["BlfReader"]):
 
         obj_data = self._file.read(FileStatistics.SIZE)
         if len(obj_data) < FileStatistics.SIZE or not obj_data.startswith(FILE_SIGNATURE):
+            if self._file is not file:
+                self._file.close()
             err_msg = "Unexpected file format"
             raise ValueError(err_msg)
 
-- 
2.43.0

