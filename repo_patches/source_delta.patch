From 7e4e17e95da18a367c9fa6727230fda2abb5e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 01/51] fix: decode signed varints beyond 62 bits correctly in
 varint_array

---
 src/eventio/var_int.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 9783df5..3b7287d 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -156,7 +156,8 @@ cpdef varint_array(
     cdef cnp.npy_intp[1] shape = [n_elements];
     cdef cnp.ndarray[int64_t, ndim=1] output = cnp.PyArray_SimpleNew(1, shape, cnp.NPY_INT64)
 
-    cdef int64_t val
+    # must be unsigned, so that the shift below does not copy the highest bit
+    cdef uint64_t val
     cdef uint8_t length
 
     cdef uint8_t one = 1;
-- 
2.43.0


From 51020604ba499fb1694ef2838a8c6015acae0786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 02/51] fix: read the contents of integer histograms

---
 src/eventio/histograms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index a75ebd4..f86f50a 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -59,7 +59,7 @@ class Histograms(EventIOObject):
                     hist['data'] = np.zeros(n_counts)
             else:
                 if hist['tentries'] > 0:
-                    hist['data'] = read_array(self, dtype='<i4', counts=n_counts)
+                    hist['data'] = read_array(self, dtype='<i4', count=n_counts)
                 else:
                     hist['data'] = np.zeros(n_counts)
 
-- 
2.43.0


From 8e8a97c7ff56708089666afbc89fa28f0ca69459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 03/51] fix: padding after non-ascii histogram titles

---
 src/eventio/histograms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index f86f50a..5a8e7ef 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -17,8 +17,10 @@ class Histograms(EventIOObject):
         for i in range(n_histograms):
             hist = {}
             hist['type'] = self.read(1).decode('ascii')
-            hist['title'] = read_string(self).decode('utf-8')
-            if len(hist['title']) % 2 == 0:
+            title = read_string(self)
+            hist['title'] = title.decode('utf-8')
+            # padding depends on the number of bytes, not of characters
+            if len(title) % 2 == 0:
                 self.read(1)
             hist['id'] = read_int(self)
             hist['n_bins_x'] = read_short(self)
-- 
2.43.0


From 6691a2c7536ac7d597f7c2bda397a41a6a2c64d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 04/51] fix: number of float parameters in MCExtraParams

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 2830d47..30b29c8 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1463,7 +1463,7 @@ class MCExtraParams(EventIOObject):
         if ep['n_iparam'] > 0:
             ep['iparam'] = read_array(byte_stream, dtype='<i4', count=ep['n_iparam'])
         if ep['n_fparam'] > 0:
-            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_iparam'])
+            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_fparam'])
         return ep
 
 
-- 
2.43.0


From ce56c809ac267a34c392d1145aa0f6774a0207d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 05/51] fix: read extra parameters of MCShower version 2

---
 src/eventio/simtel/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 30b29c8..d861fc3 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1442,9 +1442,9 @@ class MCShower(EventIOObject):
             mc['profiles'].append(p)
 
         if self.header.version >= 2:
-            h = read_header(self, offset=self._filehandle.tell(), toplevel=False)
+            h = read_header(byte_stream, offset=byte_stream.tell(), toplevel=False)
             assert h.type == 1215
-            mc['mc_extra_params'] = MCExtraParams(h, self).parse()
+            mc['mc_extra_params'] = MCExtraParams(h, byte_stream).parse()
         return mc
 
 
-- 
2.43.0


From d47cc1c2440da3c4d57abb81f6b02f47ec79ffae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 06/51] fix: physical addresses in TelescopeEventHeader up to
 version 1

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index d861fc3..80a591f 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -814,7 +814,7 @@ class TelescopeEventHeader(TelescopeObject):
 
         if t & 0x200:
             if self.header.version <= 1:
-                event_head['n_phys_addr'] = struct.unpack('<h', data[pos:pos + 2])
+                event_head['n_phys_addr'], = struct.unpack('<h', data[pos:pos + 2])
                 pos += 2
                 event_head['phys_addr'] = np.frombuffer(
                     data, dtype='<i2', count=event_head['n_phys_addr'], offset=pos
-- 
2.43.0


From 611dca626ac0c0007d6bed0bde6d9ec6e311ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 07/51] fix: parse TriggerInformation versions 0 and 1

---
 src/eventio/simtel/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 80a591f..75841b7 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -647,7 +647,8 @@ class TriggerInformation(EventIOObject):
         # here we fix the bug, as does the fixed hessio library.
         # This only affects versions up to 3, as that was the highest version
         # existing before the fix was introduced.
-        if version <= 3:
+        # Type masks are only stored from version 2 on.
+        if 2 <= version <= 3:
             self.fix_teltrg_type_mask(event_info["teltrg_type_mask"])
 
         return event_info
-- 
2.43.0


From ec2ee06e405e927dc9f45298f6cf0daae9330ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 08/51] fix: name of curved_surface in CameraSettings before
 version 4

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 75841b7..cd60476 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -250,7 +250,7 @@ class CameraSettings(TelescopeObject):
                 cam['pixel_area'] = np.repeat(read_float(byte_stream), n_pixels)
                 cam['pixel_size'] = np.repeat(read_float(byte_stream), n_pixels)
         else:
-            cam['curve_surface'] = 0
+            cam['curved_surface'] = 0
             cam['pixels_parallel'] = 1
             cam['common_pixel_shape'] = 0
             cam['pixel_z'] = np.zeros(n_pixels, dtype='f4')
-- 
2.43.0


From ee024355e392a7eb9ce1d3b64755706321fdd871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 09/51] fix: yield_n_subobjects with n=0 yields nothing

---
 src/eventio/search_utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/eventio/search_utils.py b/src/eventio/search_utils.py
index 0de7543..76e03c2 100644
--- a/src/eventio/search_utils.py
+++ b/src/eventio/search_utils.py
@@ -1,4 +1,5 @@
 from eventio import EventIOFile
+from itertools import islice
 import warnings
 
 
@@ -81,9 +82,4 @@ def yield_subobjects(f, eventio_type):
 
 
 def yield_n_subobjects(f, eventio_type, n=3):
-    for i, obj in enumerate(yield_subobjects(f, eventio_type), start=1):
-        if i >= n:
-            yield obj
-            return
-
-        yield obj
+    yield from islice(yield_subobjects(f, eventio_type), n)
-- 
2.43.0


From d2d97c9213b17b708d8221891248268f70c10dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 10/51] fix: six to nine byte integers in differentially
 encoded arrays

---
 src/eventio/var_int.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 3b7287d..319cf20 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -220,6 +220,8 @@ cdef uint64_t unsigned_varint_array_differential(
     cdef uint64_t i
     cdef uint64_t pos = 0
     cdef uint8_t v0, v1, v2, v3, v4
+    cdef int64_t delta
+    cdef uint8_t length
 
     for i in range(n_elements):
         v0 = data[pos + offset]
@@ -296,6 +298,10 @@ cdef uint64_t unsigned_varint_array_differential(
                     | (v3 << 7)
                     | (v4 >> 1)
                 ) + 1
+        else:  # six to nine bytes, only needed for non-minimal encodings
+            delta, length = varint(data, offset + pos - 1)
+            pos += length - 1
+            val += <int32_t> delta
         output[i] = val
 
     return pos
-- 
2.43.0


From 37e7e682075f33996e7e8edf49b5e5610492db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 11/51] fix: objects sharing a file no longer disturb each
 other's read position, no reads beyond the end of an object

---
 src/eventio/base.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index fddfbac..cff0d75 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -291,11 +291,16 @@ class EventIOObject:
             read `size` bytes from the payload of this object
             If size == -1 (default), read all remaining bytes.
         '''
-        # read all remaining bytes.
-        remaining = self.size - self._pos
-        if size == -1 or size > remaining:
+        # never read beyond the end of this object
+        remaining = max(self.size - self._pos, 0)
+        if size is None or size < 0 or size > remaining:
             size = remaining
 
+        if size == 0:
+            return b''
+
+        # the file handle is shared by all objects of the file
+        self._filehandle.seek(self.address + self._pos)
         data = self._filehandle.read(size)
         self._pos += len(data)
 
@@ -335,7 +340,9 @@ class EventIOObject:
             assert offset >= 0
             new_pos = self._filehandle.seek(address + offset, whence)
         elif whence == 1:
-            new_pos = self._filehandle.seek(offset, whence)
+            # relative to the position in this object, not before its start
+            offset = max(self._pos + offset, 0)
+            new_pos = self._filehandle.seek(address + offset, 0)
         elif whence == 2:
             if offset > self.size:
                 offset = self.size
-- 
2.43.0


From 3a9d2fa4b1ba0b6137225412de7c7515f4ccb3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 12/51] fix: raise EOFError for objects whose content or
 extension field is truncated

---
 src/eventio/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index cff0d75..632364e 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -226,7 +226,7 @@ def read_header(byte_stream, offset, toplevel=False):
         check_size_or_raise(
             extension_field,
             constants.EXTENSION_SIZE,
-            zero_ok=True
+            zero_ok=False
         )
         ext = parse_extension_field(extension_field)
         header.content_size += ext
@@ -302,6 +302,8 @@ class EventIOObject:
         # the file handle is shared by all objects of the file
         self._filehandle.seek(self.address + self._pos)
         data = self._filehandle.read(size)
+        if len(data) < size:
+            raise EOFError('File seems to be truncated')
         self._pos += len(data)
 
         return data
-- 
2.43.0


From ee401d3ad529a4170518c43b44c075a8ce03c946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 13/51] fix: next after peek of a truncated object raises the
 same error

---
 src/eventio/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 632364e..819d915 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -121,6 +121,10 @@ class EventIOFile:
             o, self.next = self.next, None
             return o
 
+        # the failed attempt may have consumed bytes that cannot be read again
+        if self.peek_error is not None:
+            raise self.peek_error
+
         return self._read_next_object()
 
     def _read_next_object(self):
-- 
2.43.0


From 63491951161cb8d17c43e6ef6b9409748f91c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 14/51] fix: iterating events of an IACTFile after peek

---
 src/eventio/iact/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 0d0db1e..e4427e5 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -138,7 +138,17 @@ class IACTFile(EventIOFile):
         '''
         Generator over the single array events
         '''
-        self._next_header_pos = self._first_event_byte
+        # go back to the first event, unless it was just seen by peek
+        if self.next is not None:
+            pos = self.next.address - self.next.header.header_size
+        else:
+            pos = self._next_header_pos
+
+        if pos != self._first_event_byte:
+            self._next_header_pos = self._first_event_byte
+            self.next = None
+            self.peek_error = None
+
         obj = next(self)
 
         while not isinstance(obj, RunEnd):
-- 
2.43.0


From 9c84048699aa3daede9e7074d4f2b62d03813dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 15/51] fix: parse of history, trace and monitoring blocks can
 be repeated

---
 src/eventio/simtel/objects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index cd60476..48d6e80 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -80,6 +80,7 @@ class HistoryCommandLine(EventIOObject):
     eventio_type = 71
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -89,6 +90,7 @@ class HistoryConfig(EventIOObject):
     eventio_type = 72
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -98,6 +100,7 @@ class HistoryMeta(EventIOObject):
     eventio_type = 75
 
     def parse(self):
+        self.seek(0)
         n_items = read_unsigned_varint(self)
 
         data = {}
@@ -1808,6 +1811,7 @@ class AuxiliaryDigitalTraces(EventIOObject):
     eventio_type = 2029
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1822,6 +1826,7 @@ class AuxiliaryAnalogTraces(EventIOObject):
     eventio_type = 2030
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1842,6 +1847,7 @@ class PixelTriggerTimes(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         trigger_times = {}
@@ -1861,6 +1867,7 @@ class PixelMonitoring(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         flags = read_int(byte_stream)
-- 
2.43.0


From c539fb4f5782647cbbf776d00397d851f0cd9c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 16/51] fix: position of objects after seeking past the end of
 a compressed file

---
 src/eventio/base.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 819d915..d899559 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -341,23 +341,21 @@ class EventIOObject:
         )
 
     def seek(self, offset, whence=0):
-        address = self.address
+        # Only changes the position in this object, `read` moves the file handle.
         if whence == 0:
             assert offset >= 0
-            new_pos = self._filehandle.seek(address + offset, whence)
+            self._pos = offset
         elif whence == 1:
             # relative to the position in this object, not before its start
-            offset = max(self._pos + offset, 0)
-            new_pos = self._filehandle.seek(address + offset, 0)
+            self._pos = max(self._pos + offset, 0)
         elif whence == 2:
             if offset > self.size:
                 offset = self.size
-            new_pos = self._filehandle.seek(address + self.size - offset, 0)
+            self._pos = self.size - offset
         else:
             raise ValueError(
                 'invalid whence ({}, should be 0, 1 or 2)'.format(whence)
             )
-        self._pos = new_pos - address
         return self._pos
 
     def tell(self):
-- 
2.43.0


From 68eec3c7f78175803b53ade8055823531f9c417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 17/51] fix: read all frames of zstd compressed files

---
 src/eventio/base.py       | 6 +++++-
 src/eventio/file_types.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index d899559..790e8a2 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -97,7 +97,11 @@ class EventIOFile:
 
         elif is_zstd(path):
             log.info('Found zstd compressed file')
-            self._filehandle = zstd.ZstdDecompressor().stream_reader(open(path, 'rb'), read_size=1024**2)
+            self._filehandle = zstd.ZstdDecompressor().stream_reader(
+                open(path, 'rb'),
+                read_size=1024**2,
+                read_across_frames=True,
+            )
             self.zstd = True
 
         else:
diff --git a/src/eventio/file_types.py b/src/eventio/file_types.py
index 78e3e44..b57a295 100644
--- a/src/eventio/file_types.py
+++ b/src/eventio/file_types.py
@@ -48,7 +48,7 @@ def is_eventio(path):
             raise IOError('You need the `zstandard` module to read zstd files')
         with open(path, 'rb') as f:
             cctx = zstd.ZstdDecompressor()
-            with cctx.stream_reader(f) as stream:
+            with cctx.stream_reader(f, read_across_frames=True) as stream:
                 marker_bytes = stream.read(SYNC_MARKER_SIZE)
     else:
         with open(path, 'rb') as f:
-- 
2.43.0


From ac38930c825bf99d5e7e795488e15d1e3e2e9d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 18/51] fix: event ids of calibration events are negative

---
 src/eventio/simtel/simtelfile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 2ca70ee..3f19f29 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -341,6 +341,7 @@ class SimTelFile:
             self.current_event.update(
                 parse_array_event(array_event, self.allowed_telescopes)
             )
+            self.current_event["event_id"] = -abs(self.current_event["event_id"])
             self._add_monitoring(self.current_event)
             if self._current_calib_pe is not None:
                 self.current_event["photoelectrons"] = self._current_calib_pe
-- 
2.43.0


From 4fca5ae793ec71d625f4e07f5ecc3c1032223203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 19/51] fix: particles at observation level are not kept for
 the next shower

---
 src/eventio/simtel/simtelfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 3f19f29..ee52ab8 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -283,6 +283,8 @@ class SimTelFile:
 
         elif isinstance(o, MCShower):
             self.current_mc_shower = o.parse()
+            # particles at observation level belong to a single shower
+            self.current_obslev_particles = None
 
         elif isinstance(o, ArrayEvent):
             # assume that array event without shower available are unpacked calibration events
-- 
2.43.0


From e365d31815b3eb083c21edca748760736dca7a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 20/51] fix: unexpected blocks in photo-electrons of
 calibration events are ignored

---
 src/eventio/simtel/simtelfile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index ee52ab8..289063f 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -365,6 +365,7 @@ class SimTelFile:
                         f"Unexpected sub-object: {photoelectrons} in {telescope_data}, ignoring",
                         UnknownObjectWarning
                     )
+                    continue
 
                 tel_id = photoelectrons.telescope_id
                 self._current_calib_pe[tel_id] = photoelectrons.parse()
-- 
2.43.0


From b144ca4da9baaf7ed61913db7a3e39e51aaeefe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 21/51] fix: read array events with trigger information of
 version 0

---
 src/eventio/simtel/simtelfile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 289063f..93f6c99 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -482,10 +482,12 @@ def parse_array_event(array_event, allowed_telescopes=None):
                 event["event_id"] = o.header.id
             trigger_information = o.parse()
             event["trigger_information"] = trigger_information
-            telescopes = set(trigger_information['telescopes_with_data'])
+            # version 0 does not contain the list of telescopes
+            telescopes = trigger_information.get('telescopes_with_data')
 
-            if allowed_telescopes and len(telescopes & allowed_telescopes) == 0:
-                break
+            if allowed_telescopes and telescopes is not None:
+                if len(allowed_telescopes.intersection(telescopes)) == 0:
+                    break
 
         elif isinstance(o, TelescopeEvent):
             if allowed_telescopes is None or o.telescope_id in allowed_telescopes:
-- 
2.43.0


From e14d677e5d5231c60a7dac416198a1f57db295b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 22/51] fix: history report of files which contain nothing but
 history

---
 src/eventio/scripts/print_simtel_history.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eventio/scripts/print_simtel_history.py b/src/eventio/scripts/print_simtel_history.py
index d7831e9..a62a9a8 100644
--- a/src/eventio/scripts/print_simtel_history.py
+++ b/src/eventio/scripts/print_simtel_history.py
@@ -11,13 +11,14 @@ def print_history():
     args = parser.parse_args()
 
     with EventIOFile(args.inputfile) as f:
-        o = next(f)
-        while isinstance(o, History):
+        for o in f:
+            if not isinstance(o, History):
+                break
+
             for subo in o:
                 t, line = subo.parse()
                 t = datetime.fromtimestamp(t)
                 print(f'{t:%Y-%m-%dT%H:%M:%S}', line.decode('utf-8').strip())
-            o = next(f)
 
 
 def main():
-- 
2.43.0


From 32f37abbfc5448a4676ba4b44b380f01f7402d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 23/51] fix: eventio_cut_file keeps objects which end exactly
 at the size limit

---
 src/eventio/scripts/cut_eventio_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index fb68a57..cbae47b 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -55,7 +55,7 @@ def main():
         last_o = None
         for o in f:
             last_byte = o.header.content_address + o.header.content_size
-            if last_byte < max_size:
+            if last_byte <= max_size:
                 bytes_to_read = last_byte
                 last_o = o
             else:
-- 
2.43.0


From 099fbd17a99f264f9d7cd3bc58005c1aadd6e3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 24/51] fix: eventio_cut_file with a limit below the size of
 the first object

---
 src/eventio/scripts/cut_eventio_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index cbae47b..81c8273 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -62,7 +62,8 @@ def main():
                 break
 
     print('Writing {:.2f}MB (uncompressed)'.format(bytes_to_read / 1024**2))
-    print('Last object is of type {}'.format(last_o.header.type))
+    if last_o is not None:
+        print('Last object is of type {}'.format(last_o.header.type))
 
     if args.outputfile.endswith('.gz'):
         open_file = gzip.open
-- 
2.43.0


From b7500e7e324bc2d90c85621055243b980c121281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 25/51] fix: eventio_cut_file refuses sizes followed by
 anything else

---
 src/eventio/scripts/cut_eventio_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index 81c8273..a4147c0 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -26,7 +26,7 @@ parser.add_argument(
 
 
 def parse_size(size):
-    m = re.match(r'(\d+)([kMG])?', size)
+    m = re.fullmatch(r'([0-9]+)([kMG])?', size)
     if not m:
         raise ValueError('Format not recognized, valid are #, #k, #M or #G')
 
-- 
2.43.0


From 520133c72a468395296e1e150bacfe4eb986b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 26/51] fix: exact size limits beyond 2**53 in eventio_cut_file

---
 src/eventio/scripts/cut_eventio_file.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index a4147c0..9d69ae8 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -31,19 +31,19 @@ def parse_size(size):
         raise ValueError('Format not recognized, valid are #, #k, #M or #G')
 
     size, unit = m.groups()
-    size = float(size)
+    size = int(size)
 
     if unit is None:
-        return int(size)
+        return size
 
     if unit == 'k':
-        return int(size * 1024)
+        return size * 1024
 
     if unit == 'M':
-        return int(size * 1024**2)
+        return size * 1024**2
 
     if unit == 'G':
-        return int(size * 1024**3)
+        return size * 1024**3
 
 
 def main():
-- 
2.43.0


From e8a05387cc28ab698e131bb8e5a0938b6f036cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 27/51] fix: eventio_print_structure accounts for every object

---
 src/eventio/scripts/print_structure.py | 32 ++++++++++++++++----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/eventio/scripts/print_structure.py b/src/eventio/scripts/print_structure.py
index d9ca5f0..dbf6a50 100644
--- a/src/eventio/scripts/print_structure.py
+++ b/src/eventio/scripts/print_structure.py
@@ -18,6 +18,14 @@ parser.add_argument(
 )
 
 
+def print_summary(n_skipped, level):
+    if n_skipped > 0:
+        print(
+            '    ' * level,
+            'And {} objects more of the same type'.format(n_skipped)
+        )
+
+
 def print_structure():
     args = parser.parse_args()
 
@@ -26,29 +34,29 @@ def print_structure():
     with EventIOFile(args.inputfile) as f:
         last = None
         last_level = 0
+        # number of objects of the same type in a row
         n_same = 0
+        error = None
 
         try:
             for o, level in yield_all_objects_depth_first(f):
-                if last and last != EventIOObject and isinstance(o, last):
+                same_type = last and last != EventIOObject and isinstance(o, last)
+                if same_type and level == last_level:
                     n_same += 1
-                    last_level = level
                 else:
+                    print_summary(n_same - args.max_repeats, last_level)
                     last = o.__class__
-                    if n_same > args.max_repeats:
-                        print(
-                            '    ' * last_level,
-                            'And {} objects more of the same type'.format(
-                                n_same - args.max_repeats
-                            )
-                        )
-                    n_same = 0
                     last_level = level
+                    n_same = 1
 
-                if n_same < args.max_repeats:
+                if n_same <= args.max_repeats:
                     print('    ' * level, conv(o))
         except EOFError as e:
-            print(e)
+            error = e
+
+        print_summary(n_same - args.max_repeats, last_level)
+        if error is not None:
+            print(error)
 
 
 def main():
-- 
2.43.0


From 2a19a984c5fef04bf13b1ee585a98c4e05db0056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:40 +0000
Subject: [PATCH 28/51] fix: chunks of photons do not depend on other uses of
 the object

---
 src/eventio/iact/objects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eventio/iact/objects.py b/src/eventio/iact/objects.py
index 2f12206..df43244 100644
--- a/src/eventio/iact/objects.py
+++ b/src/eventio/iact/objects.py
@@ -272,12 +272,19 @@ class Photons(EventIOObject):
         if last_chunksize == 0:
             last_chunksize = chunksize
 
+        # the object might be used between the chunks,
+        # so each of them starts where the previous one ended
+        pos = 12
+
         # read the first full size chunks
         for _ in range(n_chunks - 1):
+            self.seek(pos)
             data = self.read_data(chunksize=chunksize)
+            pos = self.tell()
             yield self.parse_emitter(data)
 
         # read the remaining, smaller chunk
+        self.seek(pos)
         data = self.read_data(chunksize=last_chunksize)
         yield self.parse_emitter(data)
 
-- 
2.43.0


From 5b03b2f4699377c595811ba13c8c523fb5faf732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 29/51] fix: deliver the last complete event of files truncated
 in a calibration event, with its own id

---
 src/eventio/simtel/simtelfile.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 93f6c99..b5c2bf6 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -287,15 +287,14 @@ class SimTelFile:
             self.current_obslev_particles = None
 
         elif isinstance(o, ArrayEvent):
+            # parse first, so that the previous event is kept in case the file is truncated
+            array_event = parse_array_event(o, self.allowed_telescopes)
             # assume that array event without shower available are unpacked calibration events
             if self.current_mc_shower is None:
                 event = self.current_event
                 self.current_event = {"type": "calibration"}
 
-            self.current_event["event_id"] = o.header.id
-            self.current_event.update(
-                parse_array_event(o, self.allowed_telescopes)
-            )
+            self.current_event.update(array_event)
             self._add_monitoring(self.current_event)
 
         elif isinstance(o, iact.TelescopeData):
@@ -334,15 +333,15 @@ class SimTelFile:
             array_event = next(o)
             # make event_id negative for calibration events to not overlap with
             # later air shower events
+            # parse first, so that the previous event is kept in case the file is truncated
+            parsed_event = parse_array_event(array_event, self.allowed_telescopes)
             event = self.current_event
             self.current_event = {
                 "type": "calibration",
                 "event_id": -array_event.header.id,
                 "calibration_type": o.type,
             }
-            self.current_event.update(
-                parse_array_event(array_event, self.allowed_telescopes)
-            )
+            self.current_event.update(parsed_event)
             self.current_event["event_id"] = -abs(self.current_event["event_id"])
             self._add_monitoring(self.current_event)
             if self._current_calib_pe is not None:
-- 
2.43.0


From 67c78cf0eb7e67bfcc5d3f42b07b4874512073c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 30/51] fix: raise EOFError for simulation files which end in
 their header

---
 src/eventio/simtel/simtelfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index b5c2bf6..a068e03 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -206,7 +206,10 @@ class SimTelFile:
         # and we found the telescope_descriptions of all telescopes
         found_all_telescopes = False
         while not found_all_telescopes:
-            self._parse_next_object()
+            try:
+                self._parse_next_object()
+            except StopIteration:
+                raise EOFError('File seems to be truncated') from None
 
             # check if we found all the descriptions of all telescopes
             if self.n_telescopes is not None:
-- 
2.43.0


From 232dbe7d44e166e07dc3a38f8b5320ecbd60e196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 31/51] fix: raise EOFError for IACT files which end before the
 end of the run

---
 src/eventio/iact/__init__.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index e4427e5..3efdd64 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -101,18 +101,18 @@ class IACTFile(EventIOFile):
     def __init__(self, path, zcat=True):
         super().__init__(path, zcat=zcat)
 
-        header_object = next(self)
+        header_object = self._next_object()
         check_type(header_object, RunHeader)
         self.header = header_object.parse()
 
-        input_card_object = next(self)
+        input_card_object = self._next_object()
         check_type(input_card_object, InputCard)
         self.input_card = input_card_object.parse()
 
-        o = next(self)
+        o = self._next_object()
         if isinstance(o, AtmosphericProfile):
             self.atmospheric_profile = o.parse()
-            telescope_object = next(self)
+            telescope_object = self._next_object()
         else:
             self.atmospheric_profile = None
             telescope_object = o
@@ -122,6 +122,13 @@ class IACTFile(EventIOFile):
         self.telescope_positions = telescope_object.parse()
         self._first_event_byte = self.tell()
 
+    def _next_object(self):
+        '''Get the next object, which must exist in a complete file'''
+        try:
+            return next(self)
+        except StopIteration:
+            raise EOFError('File seems to be truncated') from None
+
     def __repr__(self):
         return (
             '{}(\n'
@@ -149,13 +156,13 @@ class IACTFile(EventIOFile):
             self.next = None
             self.peek_error = None
 
-        obj = next(self)
+        obj = self._next_object()
 
         while not isinstance(obj, RunEnd):
             check_type(obj, EventHeader)
             header = obj.parse()
 
-            reuse_object = next(self)
+            reuse_object = self._next_object()
             check_type(reuse_object, ArrayOffsets)
 
             time_offset, array_offsets = reuse_object.parse()
@@ -164,7 +171,7 @@ class IACTFile(EventIOFile):
             longitudinal = None
             particles = None
 
-            obj = next(self)
+            obj = self._next_object()
 
             while not isinstance(obj, (TelescopeData, TelescopeArrayHead)):
                 if isinstance(obj, Longitudinal):
@@ -176,7 +183,7 @@ class IACTFile(EventIOFile):
 
                     particles = obj.parse()
 
-                obj = next(self)
+                obj = self._next_object()
 
             split_always = isinstance(obj, TelescopeArrayHead)
 
@@ -190,7 +197,7 @@ class IACTFile(EventIOFile):
                 n_photons = {}
                 n_bunches = {}
                 if split_always:
-                    obj = next(self)
+                    obj = self._next_object()
                     while not isinstance(obj, TelescopeArrayEnd):
                         check_type(obj, Photons)
                         photons, emitter = obj.parse()
@@ -198,7 +205,7 @@ class IACTFile(EventIOFile):
                         emitter_bunches[obj.telescope] = emitter
                         n_photons[obj.telescope] = obj.n_photons
                         n_bunches[obj.telescope] = obj.n_bunches
-                        obj = next(self)
+                        obj = self._next_object()
                 else:
                     check_type(obj, TelescopeData)
                     telescope_data_obj = obj
@@ -226,7 +233,7 @@ class IACTFile(EventIOFile):
                     impact_y=-array_offsets[reuse]['y'],
                 )
                 reuses.append(reuse_data)
-                obj = next(self)
+                obj = self._next_object()
 
             check_type(obj, EventEnd)
             event_end = obj.parse(header["version"])
@@ -242,7 +249,7 @@ class IACTFile(EventIOFile):
                     **reuse,
                 )
 
-            obj = next(self)
+            obj = self._next_object()
 
         self.run_end = obj.parse()
 
-- 
2.43.0


From 5b90d370e20a378a91932a6e28fe46389721ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:22 +0000
Subject: [PATCH 32/51] fix: truncated variable length integers raise
 IndexError

---
 src/eventio/var_int.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 319cf20..23964cc 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -50,6 +50,13 @@ cpdef uint8_t get_length_of_varint(const uint8_t first_byte):
 @cython.boundscheck(False)
 @cython.wraparound(False)  # disable negative indexing
 cpdef uint64_t parse_varint(const uint8_t[:] var_int_bytes):
+    if var_int_bytes.shape[0] == 0:
+        raise IndexError('No data for a variable length integer')
+
+    # the first byte determines the length, anything else is truncated data
+    if var_int_bytes.shape[0] != get_length_of_varint(var_int_bytes[0]):
+        raise IndexError('Unexpected length of data for a variable length integer')
+
     cdef uint8_t length = var_int_bytes.shape[0]
     cdef uint64_t v[9]
     cdef uint8_t i  = 0
-- 
2.43.0


From 169db14c2bb61e3d61838f3ec2b419bb8f0c9e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:22 +0000
Subject: [PATCH 33/51] fix: compiled parsers do not read beyond the end of the
 data

---
 src/eventio/simtel/parsing.pyx | 12 ++++++++++++
 src/eventio/var_int.pyx        | 16 ++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/eventio/simtel/parsing.pyx b/src/eventio/simtel/parsing.pyx
index e03a670..5340e7a 100644
--- a/src/eventio/simtel/parsing.pyx
+++ b/src/eventio/simtel/parsing.pyx
@@ -7,6 +7,15 @@ cimport numpy as np
 
 INT16 = np.int16
 
+
+cdef inline int check_available(const uint8_t[:] data, uint64_t pos, uint64_t n_bytes) except -1:
+    '''Raise an IndexError if there are less than `n_bytes` at position `pos` of `data`'''
+    cdef uint64_t size = data.shape[0]
+    if pos > size or n_bytes > size - pos:
+        raise IndexError('Not enough data')
+    return 0
+
+
 @cython.wraparound(False)  # disable negative indexing
 cpdef read_sector_information_v1(
     const uint8_t[:] data,
@@ -23,12 +32,14 @@ cpdef read_sector_information_v1(
     cdef uint64_t pos = offset
     for i in range(n_pixels):
 
+        check_available(data, pos, 2)
         short_ptr = <int16_t*> &data[pos]
         n = short_ptr[0]
         pos += 2
 
         sector = array.array('h')
         for j in range(n):
+            check_available(data, pos, 2)
             short_ptr = <int16_t*> &data[pos]
             sector.append(short_ptr[0])
             pos += 2
@@ -64,6 +75,7 @@ cpdef dict parse_mc_event(
     cdef float xcore, ycore, aweight
     cdef int32_t shower_num
 
+    check_available(data, 0, 16 if version >= 2 else 12)
     shower_num = (<int32_t*> &data[pos])[0]
     pos += 4
     xcore = (<float*> &data[pos])[0]
diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 23964cc..9b7947b 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -27,6 +27,14 @@ cpdef (int64_t, uint8_t) varint(const uint8_t[:] data, uint64_t offset=0):
     return value >> 1, length
 
 
+cdef inline int check_available(const uint8_t[:] data, uint64_t pos, uint64_t n_bytes) except -1:
+    '''Raise an IndexError if there are less than `n_bytes` at position `pos` of `data`'''
+    cdef uint64_t size = data.shape[0]
+    if pos > size or n_bytes > size - pos:
+        raise IndexError('Not enough data')
+    return 0
+
+
 cpdef uint8_t get_length_of_varint(const uint8_t first_byte):
     if (first_byte & 0x80) == 0:
         return 1
@@ -345,6 +353,7 @@ def simtel_pixel_timing_parse_list_type_2(
 
         for i_pix in range(start, stop + 1):
             for i_type in range(n_types):
+                check_available(data, pos, 2)
                 timval[i_pix, i_type] = granularity * (<int16_t*> &data[pos])[0]
                 pos += 2
 
@@ -406,17 +415,20 @@ def parse_1208(
         if version > 2:
             pix_id, length = varint(data, offset=pos)
         else:
+            check_available(data, pos, 2)
             pix_id = (<int16_t*> &data[pos])[0]
             length = 2
 
         pos += length
 
+        check_available(data, pos, 4)
         n_pe = (<int32_t*> &data[pos])[0]
         pos += 4
 
         photoelectrons[pix_id] = n_pe
 
         for j in range(n_pe):
+            check_available(data, pos, 4)
             t = (<float*> &data[pos])[0]
             pixel_id[i_pe + j] = pix_id
             time[i_pe + j] = t
@@ -424,6 +436,7 @@ def parse_1208(
 
         if has_amplitudes:
             for j in range(n_pe):
+                check_available(data, pos, 4)
                 amplitude[i_pe + j] = (<float*> &data[pos])[0]
                 pos += 4
 
@@ -439,10 +452,12 @@ def parse_1208(
     if has_photons:
         photons = cnp.PyArray_ZEROS(1, pixel_shape, cnp.NPY_INT32, False)
 
+        check_available(data, pos, 4)
         nonempty = (<int32_t*> &data[pos])[0]
         pos += 4
 
         for i in range(nonempty):
+            check_available(data, pos, 6)
             pix_id = (<int16_t*> &data[pos])[0]
             pos += 2
 
@@ -483,6 +498,7 @@ cpdef simtel_pixel_timing_parse_list_type_1(
     for i in range(pixel_list_length):
         i_pix = pixel_list[i]
         for i_type in range(n_types):
+            check_available(data, pos, 2)
             short_ptr = <int16_t*> &(data[pos])
             timval[i_pix, i_type] = granularity * short_ptr[0]
             pos += 2
-- 
2.43.0


From bb05cdd1906eec013b2c3e61d60e3ec6574cb562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:22 +0000
Subject: [PATCH 34/51] fix: check ranges of pixels in pixel timing

---
 src/eventio/var_int.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 9b7947b..35a1b5c 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -350,6 +350,8 @@ def simtel_pixel_timing_parse_list_type_2(
     for list_index in range(n_lists):
         start = pixel_list[list_index][0]
         stop = pixel_list[list_index][1]
+        if start <= stop and (start < 0 or stop >= <int64_t> n_pixels):
+            raise IndexError('Pixel list refers to pixels which do not exist')
 
         for i_pix in range(start, stop + 1):
             for i_type in range(n_types):
-- 
2.43.0


From 32e3fa3127af5577047b974771594dabba5adfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:41 +0000
Subject: [PATCH 35/51] fix: traces without samples are read in bounded time

---
 src/eventio/simtel/objects.py | 4 ++++
 src/eventio/var_int.pyx       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 48d6e80..1c0e650 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1122,6 +1122,10 @@ class ADCSamples(EventIOObject):
             n_gains, n_pixels_signal, n_samples
         ).astype('u2')
 
+        # nothing to fill in, however many pixels there are
+        if n_samples == 0:
+            return adc_samples
+
         for i_gain in range(n_gains):
             i_array = 0
             for pixel_range in pixel_ranges:
diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 35a1b5c..1be898a 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -210,6 +210,10 @@ cpdef unsigned_varint_arrays_differential(
     cdef uint32_t[:, :] output_view = output
     cdef uint32_t[:] output_view_1d
 
+    # nothing to read, however many arrays there are
+    if n_elements == 0:
+        return output, 0
+
     for i in range(n_arrays):
 
         output_view_1d = output_view[i]
-- 
2.43.0


From 914f04c093f60c9c44470230b1366d3a8ce08dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 36/51] fix: read zero records of a structured type

---
 src/eventio/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/tools.py b/src/eventio/tools.py
index 63a68ba..e0a9f19 100644
--- a/src/eventio/tools.py
+++ b/src/eventio/tools.py
@@ -37,7 +37,7 @@ def read_array(f, dtype, count):
     '''Read a numpy array with `dtype` of length `count` from file-like `f`'''
     dt = np.dtype(dtype)
     if count == 0:
-        return np.array((), dtype=dtype)
+        return np.empty(0, dtype=dt)
     return np.frombuffer(f.read(count * dt.itemsize), count=count, dtype=dt)
 
 
-- 
2.43.0


From 260f6dc2ddbd73bf00386b0a76ff17874310919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:26 +0000
Subject: [PATCH 37/51] fix: a block of the wrong type is refused with
 WrongType

---
 src/eventio/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 790e8a2..999e3f5 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -280,7 +280,7 @@ class EventIOObject:
 
     def __init__(self, header, filehandle):
         if self.eventio_type is not None and header.type != self.eventio_type:
-            raise WrongType(self.eventio_type, header.type)
+            raise WrongType(self.__class__, EventIOObject(header, filehandle))
 
         self._filehandle = filehandle
         self.header = header
-- 
2.43.0


From bd8977b67f05983f3b3f0558ab9cc186f5acf791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 38/51] fix: stereo reconstruction blocks with any id can be
 printed

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 1c0e650..aa55c61 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1250,7 +1250,7 @@ class StereoReconstruction(EventIOObject):
         return '{}[{}](result_bits={})'.format(
             self.__class__.__name__,
             self.header.type,
-            np.binary_repr(self.header.id, width=12),
+            format(self.header.id & 0xffffffff, '012b'),
         )
 
     def parse(self):
-- 
2.43.0


From d988eda7c0a43a5ecbe47c32562b710e2611e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 39/51] fix: plotting empty histograms in
 eventio_plot_histograms

---
 src/eventio/scripts/plot_hists.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eventio/scripts/plot_hists.py b/src/eventio/scripts/plot_hists.py
index 1ccbe0f..62ad854 100644
--- a/src/eventio/scripts/plot_hists.py
+++ b/src/eventio/scripts/plot_hists.py
@@ -51,10 +51,12 @@ def main():
                     marginal_y = np.sum(hist['data'], axis=1)
 
                     non_zero_x, = np.where(marginal_x != 0)
-                    plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
+                    if len(non_zero_x) > 0:
+                        plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
 
                     non_zero_y, = np.where(marginal_y != 0)
-                    plt.ylim(y_bins[non_zero_y[0]], y_bins[non_zero_y[-1] + 1])
+                    if len(non_zero_y) > 0:
+                        plt.ylim(y_bins[non_zero_y[0]], y_bins[non_zero_y[-1] + 1])
                     plt.colorbar(label='Number of Events')
 
                 else:
@@ -62,7 +64,8 @@ def main():
                     plt.hist(centers, bins=x_bins, weights=hist['data'])
 
                     non_zero_x, = np.where(hist['data'] != 0)
-                    plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
+                    if len(non_zero_x) > 0:
+                        plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
 
                 plt.title(hist['title'])
                 plt.tight_layout()
-- 
2.43.0


From 74f7d991b5dc52bcaf6767a2221bff3ae0e9d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 40/51] fix: bins whose contents cancel are inside of the range
 shown by eventio_plot_histograms

---
 src/eventio/scripts/plot_hists.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eventio/scripts/plot_hists.py b/src/eventio/scripts/plot_hists.py
index 62ad854..51f3a93 100644
--- a/src/eventio/scripts/plot_hists.py
+++ b/src/eventio/scripts/plot_hists.py
@@ -47,8 +47,8 @@ def main():
 
                     plt.pcolormesh(x_bins, y_bins, hist['data'])
 
-                    marginal_x = np.sum(hist['data'], axis=0)
-                    marginal_y = np.sum(hist['data'], axis=1)
+                    marginal_x = np.count_nonzero(hist['data'], axis=0)
+                    marginal_y = np.count_nonzero(hist['data'], axis=1)
 
                     non_zero_x, = np.where(marginal_x != 0)
                     if len(non_zero_x) > 0:
-- 
2.43.0


From fc13e488b8cfff9a4a1d04e85d86c8b7963343e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 41/51] fix: photo-electrons of a refused calibration event do
 not appear in the next one

---
 src/eventio/simtel/simtelfile.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index a068e03..d9bf130 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -333,6 +333,8 @@ class SimTelFile:
             self.corsika_inputcards.append(o.parse())
 
         elif isinstance(o, CalibrationEvent):
+            # these belong to this event only, also if it cannot be parsed
+            calib_pe, self._current_calib_pe = self._current_calib_pe, None
             array_event = next(o)
             # make event_id negative for calibration events to not overlap with
             # later air shower events
@@ -347,9 +349,8 @@ class SimTelFile:
             self.current_event.update(parsed_event)
             self.current_event["event_id"] = -abs(self.current_event["event_id"])
             self._add_monitoring(self.current_event)
-            if self._current_calib_pe is not None:
-                self.current_event["photoelectrons"] = self._current_calib_pe
-                self._current_calib_pe = None
+            if calib_pe is not None:
+                self.current_event["photoelectrons"] = calib_pe
 
         elif isinstance(o, CalibrationPhotoelectrons):
             telescope_data = next(o)
-- 
2.43.0


From 71dcb058cd0a464aa53034db5eab5df426ea9d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 42/51] fix: IACTFile does not combine showers without
 telescope data with the next shower

---
 src/eventio/iact/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 3efdd64..1f91121 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -2,7 +2,7 @@ import logging
 from collections import namedtuple
 
 from ..base import KNOWN_OBJECTS, EventIOFile, EventIOObject
-from ..exceptions import check_type
+from ..exceptions import WrongType, check_type
 
 from .objects import (
     RunHeader,
@@ -183,6 +183,10 @@ class IACTFile(EventIOFile):
 
                     particles = obj.parse()
 
+                # do not look for the telescope data in another shower
+                if isinstance(obj, (EventHeader, EventEnd, RunEnd)):
+                    raise WrongType((TelescopeData, TelescopeArrayHead), obj)
+
                 obj = self._next_object()
 
             split_always = isinstance(obj, TelescopeArrayHead)
-- 
2.43.0


From 76661823dfcf71250facd0946346f3e9a008a71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 43/51] fix: IACTFile requires the start of the telescope data
 of every reuse in split files

---
 src/eventio/iact/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 1f91121..695d800 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -201,6 +201,7 @@ class IACTFile(EventIOFile):
                 n_photons = {}
                 n_bunches = {}
                 if split_always:
+                    check_type(obj, TelescopeArrayHead)
                     obj = self._next_object()
                     while not isinstance(obj, TelescopeArrayEnd):
                         check_type(obj, Photons)
-- 
2.43.0


From 91e9ef4ef5b0c9ad42fc835d654bffbc1add1b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 44/51] fix: reports end quietly when nobody reads their output
 anymore

---
 src/eventio/scripts/__init__.py               | 19 +++++++++++++++++++
 .../scripts/print_object_information.py       |  8 +++++++-
 src/eventio/scripts/print_simtel_history.py   |  5 ++---
 .../scripts/print_simtel_metaparams.py        |  5 ++---
 src/eventio/scripts/print_structure.py        |  5 ++---
 5 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/eventio/scripts/__init__.py b/src/eventio/scripts/__init__.py
index e69de29..1902506 100644
--- a/src/eventio/scripts/__init__.py
+++ b/src/eventio/scripts/__init__.py
@@ -0,0 +1,19 @@
+from contextlib import contextmanager
+import os
+import sys
+
+
+@contextmanager
+def ignore_broken_pipe():
+    '''End quietly if nobody reads the output (anymore), e.g. ``| head``'''
+    try:
+        try:
+            yield
+        finally:
+            # otherwise only written when python exits
+            sys.stdout.flush()
+    except BrokenPipeError:
+        # python flushes stdout again at exit
+        devnull = os.open(os.devnull, os.O_WRONLY)
+        os.dup2(devnull, sys.stdout.fileno())
+        os.close(devnull)
diff --git a/src/eventio/scripts/print_object_information.py b/src/eventio/scripts/print_object_information.py
index a3dc964..c189531 100644
--- a/src/eventio/scripts/print_object_information.py
+++ b/src/eventio/scripts/print_object_information.py
@@ -4,6 +4,7 @@ from collections import Counter, namedtuple
 import json
 import warnings
 from eventio.simtel import TrackingPosition, TelescopeEvent
+from eventio.scripts import ignore_broken_pipe
 
 
 ObjectInfo = namedtuple('ObjectInfo', ['type', 'version', 'level', 'name'])
@@ -39,7 +40,7 @@ parser.add_argument('inputfile')
 parser.add_argument('--json', help='print json', action='store_true')
 
 
-def main():
+def print_object_information():
     args = parser.parse_args()
 
     with EventIOFile(args.inputfile) as f:
@@ -61,5 +62,10 @@ def main():
         print('-' * 60)
 
 
+def main():
+    with ignore_broken_pipe():
+        print_object_information()
+
+
 if __name__ == '__main__':
     main()
diff --git a/src/eventio/scripts/print_simtel_history.py b/src/eventio/scripts/print_simtel_history.py
index a62a9a8..da6f896 100644
--- a/src/eventio/scripts/print_simtel_history.py
+++ b/src/eventio/scripts/print_simtel_history.py
@@ -1,6 +1,7 @@
 from eventio import EventIOFile
 from argparse import ArgumentParser
 from eventio.simtel import History
+from eventio.scripts import ignore_broken_pipe
 from datetime import datetime
 
 parser = ArgumentParser()
@@ -22,10 +23,8 @@ def print_history():
 
 
 def main():
-    try:
+    with ignore_broken_pipe():
         print_history()
-    except BrokenPipeError:
-        pass
 
 
 if __name__ == '__main__':
diff --git a/src/eventio/scripts/print_simtel_metaparams.py b/src/eventio/scripts/print_simtel_metaparams.py
index eafeb08..29a6ac9 100644
--- a/src/eventio/scripts/print_simtel_metaparams.py
+++ b/src/eventio/scripts/print_simtel_metaparams.py
@@ -4,6 +4,7 @@ import json
 from eventio import EventIOFile
 from argparse import ArgumentParser, ArgumentDefaultsHelpFormatter
 from eventio.simtel import HistoryMeta
+from eventio.scripts import ignore_broken_pipe
 from difflib import unified_diff
 
 parser = ArgumentParser(formatter_class=ArgumentDefaultsHelpFormatter)
@@ -94,10 +95,8 @@ def print_meta(meta, tel_id=None):
 
 
 def main():
-    try:
+    with ignore_broken_pipe():
         print_metaparams()
-    except BrokenPipeError:
-        pass
 
 
 if __name__ == '__main__':
diff --git a/src/eventio/scripts/print_structure.py b/src/eventio/scripts/print_structure.py
index dbf6a50..9b7800b 100644
--- a/src/eventio/scripts/print_structure.py
+++ b/src/eventio/scripts/print_structure.py
@@ -1,5 +1,6 @@
 from ..base import EventIOFile, EventIOObject
 from ..search_utils import yield_all_objects_depth_first
+from . import ignore_broken_pipe
 from argparse import ArgumentParser
 
 
@@ -60,10 +61,8 @@ def print_structure():
 
 
 def main():
-    try:
+    with ignore_broken_pipe():
         print_structure()
-    except BrokenPipeError:
-        pass
 
 
 if __name__ == '__main__':
-- 
2.43.0


From eb0eeb4e0c6e61421b9a5bce38c893c385dd4960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 45/51] fix: eventio_cut_file can replace its input

---
 src/eventio/scripts/cut_eventio_file.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index 9d69ae8..0c832b2 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -70,10 +70,12 @@ def main():
     else:
         open_file = open
 
-    with open_file(args.outputfile, 'wb') as of:
+    # read first, the output may replace the input
+    with EventIOFile(args.inputfile) as f:
+        data = f.read(bytes_to_read)
 
-        with EventIOFile(args.inputfile) as f:
-            of.write(f.read(bytes_to_read))
+    with open_file(args.outputfile, 'wb') as of:
+        of.write(data)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From bd2dd1af59658f2127c76a75a70b09c5c0471cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 46/51] fix: gzip files whose names start with a dash

---
 src/eventio/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 999e3f5..f334058 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -77,9 +77,11 @@ class EventIOFile:
             if zcat:
                 try:
                     log.info('Trying to read using zcat')
-                    self.read_process = sp.Popen(
-                        ['gzip', '-cd', path], stdout=sp.PIPE, stderr=sp.PIPE
-                    )
+                    # not by name, which gzip could take for an option
+                    with open(path, 'rb') as f:
+                        self.read_process = sp.Popen(
+                            ['gzip', '-cd'], stdin=f, stdout=sp.PIPE, stderr=sp.PIPE
+                        )
                     self.read_process.poll()
                     rc = self.read_process.returncode
                     if rc is not None and rc != 0:
-- 
2.43.0


From e773dfe6b835d4f6c53ace30fd40df2744b9b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 47/51] fix: allowed_telescopes may be a numpy array

---
 src/eventio/simtel/simtelfile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index d9bf130..0cd28bd 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -174,8 +174,9 @@ class SimTelFile:
         self.skip_non_triggered = skip_non_triggered
 
         self.allowed_telescopes = None
-        if allowed_telescopes:
-            self.allowed_telescopes = set(allowed_telescopes)
+        if allowed_telescopes is not None:
+            # an empty selection selects everything
+            self.allowed_telescopes = set(allowed_telescopes) or None
 
         # object storage
         self.histograms = None
-- 
2.43.0


From 7987624b40162c14a88d9ef8b03abf002b1cb567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 48/51] fix: numpy integers as positions in an object

---
 src/eventio/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index f334058..863bcdf 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -4,6 +4,7 @@ import weakref
 import struct
 import gzip
 import logging
+import operator
 import subprocess as sp
 import zstandard as zstd
 from typing import Any
@@ -348,6 +349,7 @@ class EventIOObject:
 
     def seek(self, offset, whence=0):
         # Only changes the position in this object, `read` moves the file handle.
+        offset = operator.index(offset)  # numpy integers overflow
         if whence == 0:
             assert offset >= 0
             self._pos = offset
-- 
2.43.0


From f345c59824ef0b895b3d10f1224e2cdb3ad99684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:35 +0000
Subject: [PATCH 49/51] fix: WrongType errors can be sent to other processes

---
 src/eventio/exceptions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eventio/exceptions.py b/src/eventio/exceptions.py
index a035457..666543e 100644
--- a/src/eventio/exceptions.py
+++ b/src/eventio/exceptions.py
@@ -1,3 +1,6 @@
+import copyreg
+
+
 class WrongType(Exception):
     '''
     This exception should be raised if an EventIO file contains
@@ -24,6 +27,10 @@ class WrongType(Exception):
                 )
             )
 
+    def __reduce__(self):
+        # to be sent to other processes: made from the message
+        return copyreg.__newobj__, (self.__class__, *self.args)
+
 
 class WrongSize(Exception):
     '''
-- 
2.43.0


From 8a5796c23223d01fa87d18202c2c2295e0eddca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:10 +0000
Subject: [PATCH 50/51] fix: recognize zstd files starting with a skippable
 frame (e.g. written by pzstd)

---
 src/eventio/file_types.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eventio/file_types.py b/src/eventio/file_types.py
index b57a295..195eae9 100644
--- a/src/eventio/file_types.py
+++ b/src/eventio/file_types.py
@@ -11,6 +11,8 @@ from .constants import (
 )
 
 ZSTD_MARKER = b'\x28\xb5\x2f\xfd'
+# a zstd file may start with a skippable frame, e.g. if written by pzstd
+ZSTD_SKIPPABLE_MARKERS = tuple(bytes([0x50 + i, 0x2a, 0x4d, 0x18]) for i in range(16))
 GZIP_MARKER = b'\x1f\x8b'
 
 
@@ -33,7 +35,10 @@ def is_gzip(path):
 def is_zstd(path):
     '''Test if a file is compressed using zstd using its magic marker bytes
     '''
-    return _check_marker(path, ZSTD_MARKER)
+    return any(
+        _check_marker(path, marker)
+        for marker in (ZSTD_MARKER, *ZSTD_SKIPPABLE_MARKERS)
+    )
 
 
 def is_eventio(path):
-- 
2.43.0


From 91bd58b8c2db8c3db571e582c732ed36e3ffc2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:23 +0000
Subject: [PATCH 51/51] fix: refuse sub-objects exceeding their parent, walking
 such files took exponential time

---
 src/eventio/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 863bcdf..b9ea2eb 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -341,6 +341,9 @@ class EventIOObject:
             toplevel=False,
             offset=self.address + self._next_header_pos,
         )
+        # otherwise, what follows would be read as part of several objects
+        if self._next_header_pos + header.total_size > self.size:
+            raise ValueError('Sub-object exceeds the size of its parent {}'.format(self))
         self._next_header_pos += header.total_size
 
         return KNOWN_OBJECTS.get(header.type, EventIOObject)(
-- 
2.43.0

