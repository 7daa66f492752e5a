From 942a27a35b183d9bbbf7f9e1cdfbf1dfe5068180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 01/30] fix: FileLikeAdapter.readline must call the wrapped
 method

---
 capnpy/filelike.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/filelike.py b/capnpy/filelike.py
index 831ae11..0af2a40 100644
--- a/capnpy/filelike.py
+++ b/capnpy/filelike.py
@@ -53,4 +53,4 @@ class FileLikeAdapter(FileLike):
         return self._read(size)
 
     def readline(self):
-        return self._readline
+        return self._readline()
-- 
2.43.0


From be33d271662cbf514f46cb46cc57ab55397a78c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 02/30] fix: a failing _readchunk() must not lose the data
 already received

---
 capnpy/buffered.py | 67 +++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 27 deletions(-)

diff --git a/capnpy/buffered.py b/capnpy/buffered.py
index b7212cd..475341c 100644
--- a/capnpy/buffered.py
+++ b/capnpy/buffered.py
@@ -20,25 +20,33 @@ class BufferedStream(FileLike):
     def _fillbuf(self, size):
         parts = [self.buf[self.i:]]
         total = len(parts[0])
-        while total < size:
-            part = self._readchunk()
-            if part == b'':
-                break # connection closed, no more data
-            total += len(part)
-            parts.append(part)
-        #
-        self.buf = b''.join(parts)
-        self.i = 0
+        try:
+            while total < size:
+                part = self._readchunk()
+                if part == b'':
+                    break # connection closed, no more data
+                total += len(part)
+                parts.append(part)
+        finally:
+            # do this also if _readchunk() raises (e.g. because of a timeout),
+            # else the chunks which we have already received are lost
+            self.buf = b''.join(parts)
+            self.i = 0
 
     def _readall(self):
         parts = [self.buf[self.i:]]
         self.buf = b''
         self.i = 0
-        while True:
-            part = self._readchunk()
-            if part == b'':
-                break
-            parts.append(part)
+        try:
+            while True:
+                part = self._readchunk()
+                if part == b'':
+                    break
+                parts.append(part)
+        except:
+            # don't lose the chunks which we have already received
+            self.buf = b''.join(parts)
+            raise
         return b''.join(parts)
 
     def read(self, size=-1):
@@ -68,19 +76,24 @@ class BufferedStream(FileLike):
         parts = [self.buf[i:]]
         self.buf = b''
         self.i = 0
-        while True:
-            part = self._readchunk()
-            if part == b'':
-                break # connection closed, no more data
-            #
-            j = part.find(b'\n')
-            if j != -1: # finally found a newline
-                parts.append(part[:j+1]) # read until the newline
-                self.buf = part[j+1:]    # and keep the rest in the buffer
-                self.i = 0
-                break
-            else:
-                parts.append(part)
+        try:
+            while True:
+                part = self._readchunk()
+                if part == b'':
+                    break # connection closed, no more data
+                #
+                j = part.find(b'\n')
+                if j != -1: # finally found a newline
+                    parts.append(part[:j+1]) # read until the newline
+                    self.buf = part[j+1:]    # and keep the rest in the buffer
+                    self.i = 0
+                    break
+                else:
+                    parts.append(part)
+        except:
+            # don't lose the chunks which we have already received
+            self.buf = b''.join(parts)
+            raise
         #
         return b''.join(parts)
 
-- 
2.43.0


From 598f243f965dee9ccc4825316906c315fcd3517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 03/30] fix: BufferedSocket.flush() must not drop data written
 during the flush

---
 capnpy/buffered.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/capnpy/buffered.py b/capnpy/buffered.py
index 475341c..5c2bddb 100644
--- a/capnpy/buffered.py
+++ b/capnpy/buffered.py
@@ -128,9 +128,14 @@ class BufferedSocket(BufferedStream):
         self.wbuf.append(data)
 
     def flush(self):
-        data = b''.join(self.wbuf)
-        self.sock.sendall(data)
+        # more data can be written while we are blocked inside sendall()
+        wbuf = self.wbuf
         self.wbuf = []
+        try:
+            self.sock.sendall(b''.join(wbuf))
+        except:
+            self.wbuf = wbuf + self.wbuf
+            raise
 
     def close(self):
         self.sock.close()
-- 
2.43.0


From 4dc56e387a8de535c342aefa9348d4a3fd2f1be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 04/30] fix: dumps() of a zero-sized struct must not write a
 null root pointer

---
 capnpy/message.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/capnpy/message.py b/capnpy/message.py
index 84ba1b7..0f8d621 100644
--- a/capnpy/message.py
+++ b/capnpy/message.py
@@ -157,7 +157,10 @@ def dumps(obj, fastpath=True):
         # do not create a temporary SegmentBuilder. The memcpy vs copy_pointer
         # difference seems negligible, for small objects at least.
         start = obj._data_offset
-        p = ptr.new_struct(0, obj._data_size, obj._ptrs_size)
+        # a pointer to a zero-sized struct must have offset -1, else it cannot be
+        # distinguished from a NULL pointer
+        p_offset = 0 if obj._data_size + obj._ptrs_size else -1
+        p = ptr.new_struct(p_offset, obj._data_size, obj._ptrs_size)
         return obj._seg.dump_message(p, start, end)
     else:
         builder = SegmentBuilder()
-- 
2.43.0


From 13405850e14bfbfb8d5c8085856d2e49e2c9bb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 05/30] fix: AnyPointer.is_struct/is_list/is_text must follow
 FAR pointers

---
 capnpy/anypointer.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/capnpy/anypointer.py b/capnpy/anypointer.py
index e701396..d3f2bc2 100644
--- a/capnpy/anypointer.py
+++ b/capnpy/anypointer.py
@@ -9,16 +9,27 @@ class AnyPointer(object):
         self.struct_ = struct_
         self.offset = offset
 
-    def is_struct(self):
+    def _read_ptr(self):
+        """
+        Return the pointer which describes the object: if it is stored in
+        another segment, this is the one which is found by following the FAR
+        pointer
+        """
         p = self.struct_._read_fast_ptr(self.offset)
+        if ptr.kind(p) == ptr.FAR:
+            _, p = self.struct_._read_far_ptr(self.offset)
+        return p
+
+    def is_struct(self):
+        p = self._read_ptr()
         return ptr.kind(p) == ptr.STRUCT
 
     def is_list(self):
-        p = self.struct_._read_fast_ptr(self.offset)
+        p = self._read_ptr()
         return ptr.kind(p) == ptr.LIST
 
     def is_text(self):
-        p = self.struct_._read_fast_ptr(self.offset)
+        p = self._read_ptr()
         return (ptr.kind(p) == ptr.LIST and
                 ptr.list_size_tag(p) == ptr.LIST_SIZE_8)
 
-- 
2.43.0


From 3419967cb5a77a12767fb4f525a7045f8fd33d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 06/30] fix: lists of structs which are bigger than in the
 schema must not overflow or mix up the items

---
 capnpy/list.pxd                 |  2 ++
 capnpy/list.py                  |  8 ++++++--
 capnpy/segment/_copy_list.py    | 23 +++++++++++++++++++----
 capnpy/segment/_copy_pointer.py |  9 ++++++---
 capnpy/segment/builder.pxd      |  4 ++--
 capnpy/segment/builder.py       |  7 ++++---
 capnpy/segment/builder.pyx      |  9 +++++----
 7 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/capnpy/list.pxd b/capnpy/list.pxd
index 6e46b07..7bcdad8 100644
--- a/capnpy/list.pxd
+++ b/capnpy/list.pxd
@@ -51,6 +51,8 @@ cdef class StructItemType(ItemType):
     cdef readonly long static_data_size
     cdef readonly long static_ptrs_size
 
+    cpdef check_item(self, item)
+
 cdef class TextItemType(ItemType):
     cdef readonly int additional_size
 
diff --git a/capnpy/list.py b/capnpy/list.py
index 84c4702..ea2bedf 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -297,13 +297,17 @@ class StructItemType(ItemType):
     def item_repr(self, item):
         return item.shortrepr()
 
-    def write_item(self, builder, pos, item):
+    def check_item(self, item):
         structcls = self.structcls
         if not isinstance(item, structcls):
             raise TypeError("Expected an object of type %s, got %s instead" %
                             (self.structcls.__name__, item.__class__.__name__))
+
+    def write_item(self, builder, pos, item):
+        self.check_item(item)
         p = item._as_pointer(0)
-        builder.copy_inline_struct(pos, item._seg, p, 0)
+        builder.copy_inline_struct(pos, self.static_data_size, self.static_ptrs_size,
+                                   item._seg, p, 0)
 
 
 class TextItemType(ItemType):
diff --git a/capnpy/segment/_copy_list.py b/capnpy/segment/_copy_list.py
index 3e671e2..d8d7208 100644
--- a/capnpy/segment/_copy_list.py
+++ b/capnpy/segment/_copy_list.py
@@ -33,16 +33,31 @@ def copy_from_list(builder, pos, item_type, lst):
         struct_item_type = item_type
         data_size = struct_item_type.static_data_size
         ptrs_size = struct_item_type.static_ptrs_size
+        # all the items of the list must have the same size: they can be
+        # bigger than what the schema says, if they were written by someone
+        # who knows a newer version of it
+        for item in lst:
+            struct_item_type.check_item(item)
+            if item._data_size > data_size:
+                data_size = item._data_size
+            if item._ptrs_size > ptrs_size:
+                ptrs_size = item._ptrs_size
+        item_length = (data_size+ptrs_size)*8
+        body_length = item_length * item_count
         total_words = (data_size+ptrs_size) * item_count
         pos = builder.alloc_list(pos, size_tag, total_words,
                                  body_length + 8) # +8 is for the tag
         tag = ptr.new_struct(item_count, data_size, ptrs_size)
         builder.write_int64(pos, tag)
         pos += 8
+        for item in lst:
+            struct_item_type.check_item(item)
+            builder.copy_inline_struct(pos, data_size, ptrs_size, item._seg,
+                                       item._as_pointer(0), 0)
+            pos += item_length
     else:
         # alloc the list, no tag
         pos = builder.alloc_list(pos, size_tag, item_count, body_length)
-    #
-    for item in lst:
-        item_type.write_item(builder, pos, item)
-        pos += item_length
+        for item in lst:
+            item_type.write_item(builder, pos, item)
+            pos += item_length
diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 9739110..63c3c41 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -124,11 +124,12 @@ def _copy_struct(src, p, src_pos, dst, dst_pos):
 ##@cython.returns(long)
 ##@cython.except_(-1)
 @cython.locals(src=BaseSegment, p=long, src_pos=long, dst=SegmentBuilder, dst_pos=long,
+               dst_data_size=long, dst_ptrs_size=long,
                data_size=long, ptrs_size=long, ds=long)
-def _copy_struct_inline(src, p, src_pos, dst, dst_pos):
+def _copy_struct_inline(src, p, src_pos, dst, dst_pos, dst_data_size, dst_ptrs_size):
     # this does the same as _copy_struct, but instead of allocating space for
     # it, it fills an already-allocated space (useful e.g. for writing structs
-    # into lists).
+    # into lists). The already-allocated space can be bigger than the struct.
     #
     # I have tried several ways to reduce code duplication (such as adding a
     # do_allocation param to determine whether to allocate or not), but it
@@ -142,10 +143,12 @@ def _copy_struct_inline(src, p, src_pos, dst, dst_pos):
     src_pos = ptr.deref(p, src_pos)
     data_size = ptr.struct_data_size(p)
     ptrs_size = ptr.struct_ptrs_size(p)
+    if data_size > dst_data_size or ptrs_size > dst_ptrs_size:
+        raise ValueError('Not enough space to copy the struct')
     ds = data_size*8
     check_bounds(src, ds, src_pos)
     dst.write_slice(dst_pos, src, src_pos, ds) # copy data section
-    _copy_many_ptrs(ptrs_size, src, src_pos+ds, dst, dst_pos+ds)
+    _copy_many_ptrs(ptrs_size, src, src_pos+ds, dst, dst_pos + dst_data_size*8)
 
 
 @cython.cfunc
diff --git a/capnpy/segment/builder.pxd b/capnpy/segment/builder.pxd
index aeb48bd..3374ff0 100644
--- a/capnpy/segment/builder.pxd
+++ b/capnpy/segment/builder.pxd
@@ -41,6 +41,6 @@ cdef class SegmentBuilder(object):
     cpdef copy_from_pointer(self, Py_ssize_t dst_pos, BaseSegment src, long p,
                             Py_ssize_t src_pos)
     cpdef copy_from_struct(self, Py_ssize_t dst_pos, type structcls, Struct value)
-    cpdef copy_inline_struct(self, Py_ssize_t dst_pos, BaseSegment src,
-                             long p, Py_ssize_t src_pos)
+    cpdef copy_inline_struct(self, Py_ssize_t dst_pos, long data_size, long ptrs_size,
+                             BaseSegment src, long p, Py_ssize_t src_pos)
     cpdef copy_from_list(self, Py_ssize_t pos, item_type, lst)
diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index 968a0ed..d1c3777 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -117,15 +117,16 @@ class SegmentBuilder(object):
     def copy_from_pointer(self, dst_pos, src, p, src_pos):
         return copy_pointer(src, p, src_pos, self, dst_pos)
 
-    def copy_inline_struct(self, dst_pos, src, p, src_pos):
+    def copy_inline_struct(self, dst_pos, data_size, ptrs_size, src, p, src_pos):
         """
         Similar to copy_from_pointer but:
           1. it assumes that p is a pointer to a struct
 
           2. it does NOT allocate a new struct in dst_pos: instead, it writes
-             the struct directly into dst_pos
+             the struct directly into dst_pos, where there is room for a
+             struct of the given data_size and ptrs_size
         """
-        return _copy_struct_inline(src, p, src_pos, self, dst_pos)
+        return _copy_struct_inline(src, p, src_pos, self, dst_pos, data_size, ptrs_size)
 
     def copy_from_list(self, pos, item_type, lst):
         return copy_from_list(self, pos, item_type, lst)
diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index 9d05030..cdd9631 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -184,16 +184,17 @@ cdef class SegmentBuilder(object):
                             Py_ssize_t src_pos):
         return copy_pointer(src, p, src_pos, self, dst_pos)
 
-    cpdef copy_inline_struct(self, Py_ssize_t dst_pos, BaseSegment src,
-                             long p, Py_ssize_t src_pos):
+    cpdef copy_inline_struct(self, Py_ssize_t dst_pos, long data_size, long ptrs_size,
+                             BaseSegment src, long p, Py_ssize_t src_pos):
         """
         Similar to copy_from_pointer but:
           1. it assumes that p is a pointer to a struct
 
           2. it does NOT allocate a new struct in dst_pos: instead, it writes
-             the struct directly into dst_pos
+             the struct directly into dst_pos, where there is room for a
+             struct of the given data_size and ptrs_size
         """
-        return _copy_struct_inline(src, p, src_pos, self, dst_pos)
+        return _copy_struct_inline(src, p, src_pos, self, dst_pos, data_size, ptrs_size)
 
     cpdef copy_from_list(self, Py_ssize_t pos, item_type, lst):
         return copy_from_list(self, pos, item_type, lst)
-- 
2.43.0


From ceddae73f5b514f3044751c5cf54dfda0ebdc465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 07/30] fix: copy_from_list must not write more items than it
 allocated

---
 capnpy/segment/_copy_list.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/capnpy/segment/_copy_list.py b/capnpy/segment/_copy_list.py
index d8d7208..a8f787e 100644
--- a/capnpy/segment/_copy_list.py
+++ b/capnpy/segment/_copy_list.py
@@ -14,9 +14,15 @@ if not cython.compiled:
     from capnpy.list import ItemType, StructItemType
     if PY3: long = int
 
+@cython.cfunc
+@cython.locals(ok=long)
+def check_item_count(ok):
+    if not ok:
+        raise ValueError('The list changed size while it was being copied')
+
 @cython.ccall
 @cython.locals(builder=SegmentBuilder, pos=long, item_type=ItemType,
-               item_length=long, size_tag=long, item_count=long, body_length=long,
+               i=long, item_length=long, size_tag=long, item_count=long, body_length=long,
                struct_item_type=StructItemType,
                data_size=long, ptrs_size=long, total_words=long, tag=long)
 def copy_from_list(builder, pos, item_type, lst):
@@ -24,6 +30,10 @@ def copy_from_list(builder, pos, item_type, lst):
         builder.write_int64(pos, 0)
         return
     #
+    # the room for the items is allocated in advance: make sure that we write as
+    # many items as we expect, even if someone modifies lst in the meantime
+    # (e.g. because of the __index__ of an item)
+    i = 0
     item_length = item_type.item_length
     size_tag = item_type.size_tag
     item_count = len(lst)
@@ -51,13 +61,18 @@ def copy_from_list(builder, pos, item_type, lst):
         builder.write_int64(pos, tag)
         pos += 8
         for item in lst:
+            check_item_count(i < item_count)
             struct_item_type.check_item(item)
             builder.copy_inline_struct(pos, data_size, ptrs_size, item._seg,
                                        item._as_pointer(0), 0)
             pos += item_length
+            i += 1
     else:
         # alloc the list, no tag
         pos = builder.alloc_list(pos, size_tag, item_count, body_length)
         for item in lst:
+            check_item_count(i < item_count)
             item_type.write_item(builder, pos, item)
             pos += item_length
+            i += 1
+    check_item_count(i == item_count)
-- 
2.43.0


From 12c84720603e2aca31a93b88459c0df58e762cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 08/30] fix: sizes found in message headers must not overflow a
 C int

---
 capnpy/buffered.pxd | 20 ++++++++++----------
 capnpy/filelike.pxd |  4 ++--
 capnpy/message.pxd  | 11 ++++++-----
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/capnpy/buffered.pxd b/capnpy/buffered.pxd
index d960142..4d0e4e4 100644
--- a/capnpy/buffered.pxd
+++ b/capnpy/buffered.pxd
@@ -3,16 +3,16 @@ from capnpy.filelike cimport FileLike
 
 cdef class BufferedStream(FileLike):
     cdef readonly bytes buf
-    cdef readonly int i
+    cdef readonly Py_ssize_t i
 
-    cdef _fillbuf(self, int size)
+    cdef _fillbuf(self, Py_ssize_t size)
     cdef bytes _readall(self)
     cpdef bytes _readchunk(self)
 
-    @cython.locals(i=int, j=int)
-    cpdef bytes read(self, int size=*)
+    @cython.locals(i=Py_ssize_t, j=Py_ssize_t)
+    cpdef bytes read(self, Py_ssize_t size=*)
 
-    @cython.locals(i=int, j=int)
+    @cython.locals(i=Py_ssize_t, j=Py_ssize_t)
     cpdef bytes readline(self)
 
 
@@ -25,12 +25,12 @@ cdef class BufferedSocket(BufferedStream):
 
 cdef class StringBuffer(FileLike):
     cdef readonly bytes s
-    cdef readonly int i
+    cdef readonly Py_ssize_t i
 
-    @cython.locals(i=int, j=int)
-    cpdef bytes read(self, int size=*)
+    @cython.locals(i=Py_ssize_t, j=Py_ssize_t)
+    cpdef bytes read(self, Py_ssize_t size=*)
 
-    @cython.locals(i=int, j=int)
+    @cython.locals(i=Py_ssize_t, j=Py_ssize_t)
     cpdef bytes readline(self)
 
-    cpdef int tell(self)
+    cpdef Py_ssize_t tell(self)
diff --git a/capnpy/filelike.pxd b/capnpy/filelike.pxd
index d6598f6..8e4e0ea 100644
--- a/capnpy/filelike.pxd
+++ b/capnpy/filelike.pxd
@@ -1,12 +1,12 @@
 cpdef FileLike as_filelike(object f)
 
 cdef class FileLike:
-    cpdef bytes read(self, int size=*)
+    cpdef bytes read(self, Py_ssize_t size=*)
     cpdef bytes readline(self)
 
 cdef class FileLikeAdapter(FileLike):
     cdef object _read
     cdef object _readline
 
-    cpdef bytes read(self, int size=*)
+    cpdef bytes read(self, Py_ssize_t size=*)
     cpdef bytes readline(self)
diff --git a/capnpy/message.pxd b/capnpy/message.pxd
index 39965af..6314e04 100644
--- a/capnpy/message.pxd
+++ b/capnpy/message.pxd
@@ -14,15 +14,16 @@ cpdef loads(bytes buf, object payload_type)
 #cpdef load_all(FileLike f, object payload_type)
 
 
-@cython.locals(buf = bytes, n=int, length=int)
+# NB: sizes come from the message, so they might not fit into a 32 bit int
+@cython.locals(buf = bytes, n=long, length=Py_ssize_t)
 cpdef Struct _load_message(FileLike f)
 
-@cython.locals(buf=bytes, message_size=int, message_lenght=int)
+@cython.locals(buf=bytes, message_size=long, message_lenght=long)
 cpdef _load_buffer_single_segment(FileLike f)
 
-@cython.locals(fmt=bytes, size=int, buf=bytes, bytes_read=int,
-                padding=int, message_lenght=int, offset=int, size=int)
-cpdef _load_buffer_multiple_segments(FileLike f, int n)
+@cython.locals(fmt=bytes, size=long, buf=bytes, bytes_read=long,
+                padding=long, message_lenght=long, offset=long)
+cpdef _load_buffer_multiple_segments(FileLike f, long n)
 
 @cython.locals(builder=SegmentBuilder, segment_size=long, segment_count=long,
                p=long, start=long, end=long)
-- 
2.43.0


From ff96fa4922dc4aa1f2acc780bbc58ae598e2cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 09/30] fix: lists with equal items must compare equal, however
 they are encoded

---
 capnpy/list.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index ea2bedf..4c2f1af 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -78,10 +78,15 @@ class List(Blob):
         return endof(self._seg, p, self._offset-8)
 
     def _get_slice(self):
+        """
+        Return the bytes of the list, or None if it is not compact
+        """
         # XXX: investigate whether it is faster to user memoryview for
         # comparing the memory without doing a full copy
         start = self._offset
         end = self._get_end()
+        if end == -1:
+            return None
         return self._seg.buf[start:end]
 
     def _equals(self, other):
@@ -91,9 +96,17 @@ class List(Blob):
             return list(self) == other
         if self.__class__ is not other.__class__:
             return False
-        return (self._item_count == other._item_count and
-                self._item_type.get_type() == other._item_type.get_type() and
-                self._get_slice() == other._get_slice())
+        if (self._item_count != other._item_count or
+            self._item_type.get_type() != other._item_type.get_type()):
+            return False
+        # fast path: the two lists are compact and have the same bytes. If they
+        # don't, the items can still be equal, because the same list can be
+        # encoded in many ways
+        if self._size_tag == other._size_tag:
+            slice_ = self._get_slice()
+            if slice_ is not None and slice_ == other._get_slice():
+                return True
+        return list(self) == list(other)
 
     def shortrepr(self):
         parts = [self._item_type.item_repr(item) for item in self]
@@ -369,7 +382,10 @@ class ListItemType(ItemType):
         self.size_tag = ptr.LIST_SIZE_PTR
 
     def get_type(self):
-        return ('list', self.inner_item_type)
+        return ('list', self.inner_item_type.get_type())
+
+    def can_compare(self):
+        return self.inner_item_type.can_compare()
 
     def read_item(self, lst, i):
         offset = lst._offset + (i*8)
-- 
2.43.0


From 0073d1333031587ba32149853cc01ae9b421e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 10/30] fix: the hash of a null unicode key field must be the
 hash of None

---
 capnpy/struct_.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capnpy/struct_.py b/capnpy/struct_.py
index 82c2d27..a43e576 100644
--- a/capnpy/struct_.py
+++ b/capnpy/struct_.py
@@ -255,7 +255,9 @@ class Struct(Blob):
     def _hash_text_unicode(self, offset, default_=hash(None)):
         # XXX: this is not a "fast hash" at all, it creates an unicode and the
         # computes the hash on it
-        u = self._read_text_unicode(offset, default_=b'')
+        u = self._read_text_unicode(offset)
+        if u is None:
+            return default_
         return hash(u)
 
     def _read_data(self, offset, default_=None, additional_size=0):
-- 
2.43.0


From 620213c237f9f2b7b3e17e7d2b8297730b522ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 11/30] fix: lists which compare equal must not be hashable by
 identity in pure Python mode

---
 capnpy/blob.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capnpy/blob.py b/capnpy/blob.py
index b9c9fab..8072ee3 100644
--- a/capnpy/blob.py
+++ b/capnpy/blob.py
@@ -112,5 +112,8 @@ try:
     Blob.__le__ = Blob.__dict__['_cmp_error']
     Blob.__gt__ = Blob.__dict__['_cmp_error']
     Blob.__ge__ = Blob.__dict__['_cmp_error']
+    # same as in PYX mode: what defines __eq__ is not hashable, unless it
+    # defines also __hash__ as Struct does
+    Blob.__hash__ = None
 except TypeError:
     pass
-- 
2.43.0


From 2df82e6651ab08987cb14eca973168d8bbabb70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 12/30] fix: fields called pos or builder must not clash with
 the local variables of the constructor

---
 capnpy/compiler/structor.py | 51 ++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/capnpy/compiler/structor.py b/capnpy/compiler/structor.py
index fc84d4f..caa07e3 100644
--- a/capnpy/compiler/structor.py
+++ b/capnpy/compiler/structor.py
@@ -34,12 +34,15 @@ class Structor(object):
         ## generate a constructor which looks like this
         ## @staticmethod
         ## def __new(x=0, y=0, z=None):
-        ##     builder = _SegmentBuilder()
-        ##     pos = builder.allocate(24)
-        ##     builder.write_int64(pos + 0, x)
-        ##     builder.write_int64(pos + 8, y)
-        ##     builder.alloc_text(pos + 16, z)
-        ##     return builder.as_string()
+        ##     _builder = _SegmentBuilder()
+        ##     _pos = _builder.allocate(24)
+        ##     _builder.write_int64(_pos + 0, x)
+        ##     _builder.write_int64(_pos + 8, y)
+        ##     _builder.alloc_text(_pos + 16, z)
+        ##     return _builder.as_string()
+        #
+        # the names of the local variables start with an underscore so that
+        # they cannot clash with the name of a field
         #
         # the parameters have the same order as fields
         code = self.m.code
@@ -50,15 +53,15 @@ class Structor(object):
         code.w('@staticmethod')
         with code.cdef_('__new', self.params) as ns:
             ns.length = (self.data_size + self.ptrs_size)*8
-            ns.cdef_var('_SegmentBuilder', 'builder')
-            ns.cdef_var('long', 'pos')
-            ns.w('builder = _SegmentBuilder()')
-            ns.w('pos = builder.allocate({length})')
+            ns.cdef_var('_SegmentBuilder', '_builder')
+            ns.cdef_var('long', '_pos')
+            ns.w('_builder = _SegmentBuilder()')
+            ns.w('_pos = _builder.allocate({length})')
             for union in self.fieldtree.all_unions():
                 ns.w('{union}__curtag = None', union=union.varname)
             for node in self.fieldtree.children:
                 self.handle_node(node)
-            ns.w('return builder.as_string()')
+            ns.w('return _builder.as_string()')
 
     def handle_node(self, node):
         if node.f.is_part_of_union():
@@ -71,7 +74,7 @@ class Structor(object):
             ns.ifmt  = 'ord(%r)' % Types.int16.fmt
             with ns.block('if {varname} is not _undefined:'):
                 ns.w('{union}__curtag = _check_tag({union}__curtag, {tagname!r})')
-                ns.w('builder.write_int16({offset}, {tagval})')
+                ns.w('_builder.write_int16({offset}, {tagval})')
                 self._handle_node(node)
         else:
             self._handle_node(node)
@@ -106,8 +109,8 @@ class Structor(object):
         # def __init__(self, position, ...):
         #     ...
         #     position_x, position_y = position
-        #     builder.write_...(..., position_x)
-        #     builder.write_...(..., position_y)
+        #     _builder.write_...(..., position_x)
+        #     _builder.write_...(..., position_y)
         #     ...
         #
         # 1. unpack the tuple into various indepented variables
@@ -149,31 +152,31 @@ class Structor(object):
             self.handle_node(child)
 
     def handle_text_bytes(self, node):
-        self.m.code.w('builder.alloc_text(pos + {offset}, {arg})',
+        self.m.code.w('_builder.alloc_text(_pos + {offset}, {arg})',
                       arg=node.varname, offset=self.slot_offset(node.f))
 
     def handle_text_unicode(self, node):
         ns = self.m.code.new_scope()
         ns.arg = node.varname
         ns.offset = self.slot_offset(node.f)
-        ns.w('builder.alloc_text(pos + {offset}, _encode_maybe({arg}))')
+        ns.w('_builder.alloc_text(_pos + {offset}, _encode_maybe({arg}))')
 
     def handle_data(self, node):
-        self.m.code.w('builder.alloc_data(pos + {offset}, {arg})',
+        self.m.code.w('_builder.alloc_data(_pos + {offset}, {arg})',
                       arg=node.varname, offset=self.slot_offset(node.f))
 
     def handle_struct(self, node):
         ## @staticmethod
         ## def __new(x=0, y=<some struct>):
-        ##     builder = _SegmentBuilder()
-        ##     pos = builder.allocate(16)
+        ##     _builder = _SegmentBuilder()
+        ##     _pos = _builder.allocate(16)
         ##     ...
-        ##     builder.copy_from_struct(pos+8, SomeStruct, y)
+        ##     _builder.copy_from_struct(_pos+8, SomeStruct, y)
         ns = self.m.code.new_scope()
         ns.fname = node.varname
         ns.offset = self.slot_offset(node.f)
         ns.structname = node.f.slot.type.runtime_name(self.m)
-        ns.w('builder.copy_from_struct(pos + {offset}, {structname}, {fname})')
+        ns.w('_builder.copy_from_struct(_pos + {offset}, {structname}, {fname})')
 
     def handle_list(self, node):
         options = self.m.options(node.f)
@@ -182,7 +185,7 @@ class Structor(object):
         ns.offset = self.slot_offset(node.f)
         t = node.f.slot.type.list.elementType
         ns.list_item_type = t.list_item_type(self.m, options)
-        ns.w('builder.copy_from_list(pos + {offset}, {list_item_type}, {fname})')
+        ns.w('_builder.copy_from_list(_pos + {offset}, {list_item_type}, {fname})')
 
     def handle_primitive(self, node):
         ns = self.m.code.new_scope()
@@ -193,7 +196,7 @@ class Structor(object):
         #
         ns.type = node.f.slot.get_typename()
         ns.offset = self.slot_offset(node.f)
-        ns.w('builder.write_{type}(pos + {offset}, {arg})')
+        ns.w('_builder.write_{type}(_pos + {offset}, {arg})')
 
     def handle_bool(self, node):
         ns = self.m.code.new_scope()
@@ -202,4 +205,4 @@ class Structor(object):
         if node.f.slot.hadExplicitDefault:
             ns.default_ = node.f.slot.defaultValue.as_pyobj()
             ns.w('{arg} ^= {default_}')
-        ns.w('builder.write_bool({byteoffset}, {bitoffset}, {arg})')
+        ns.w('_builder.write_bool({byteoffset}, {bitoffset}, {arg})')
-- 
2.43.0


From fce5cf2dda688ca7251f8835e22f0999ff28eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:46 +0000
Subject: [PATCH 13/30] fix: hashing a Text must not read outside the message

---
 capnpy/_hash.py           | 2 ++
 capnpy/_hash.pyx          | 4 ++--
 capnpy/segment/segment.py | 9 +++++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/capnpy/_hash.py b/capnpy/_hash.py
index 69f3870..2865cc1 100644
--- a/capnpy/_hash.py
+++ b/capnpy/_hash.py
@@ -3,6 +3,8 @@ longhash = hash
 __tuplehash_for_tests = hash
 
 def strhash(s, start, size):
+    if start < 0 or size < 0:
+        return hash(b'')
     return hash(s[start:start+size])
 
 
diff --git a/capnpy/_hash.pyx b/capnpy/_hash.pyx
index 0ba3521..7b3e2bb 100644
--- a/capnpy/_hash.pyx
+++ b/capnpy/_hash.pyx
@@ -23,9 +23,9 @@ cdef int PY3 = PY_MAJOR_VERSION == 3
 
 cpdef long strhash(bytes a, long start, long size):
     cdef long maxlen = len(a)
-    if start >= maxlen or size == 0:
+    if start < 0 or start >= maxlen or size <= 0:
         return 0
-    if size > maxlen:
+    if size > maxlen-start:
         size = maxlen-start
 
     cdef const unsigned char* p = a
diff --git a/capnpy/segment/segment.py b/capnpy/segment/segment.py
index 632fd4c..862e2de 100644
--- a/capnpy/segment/segment.py
+++ b/capnpy/segment/segment.py
@@ -47,6 +47,11 @@ class Segment(BaseSegment):
         assert ptr.list_size_tag(p) == ptr.LIST_SIZE_8
         start = ptr.deref(p, offset)
         end = start + ptr.list_item_count(p) + additional_size
+        # the slice must not wrap around
+        if start < 0:
+            raise IndexError('Offset out of bounds: %d' % start)
+        if end < start:
+            end = start # a Text without even the trailing '\0'
         return self.buf[start:end]
 
     def hash_str(self, p, offset, default_, additional_size):
@@ -56,6 +61,10 @@ class Segment(BaseSegment):
         assert ptr.list_size_tag(p) == ptr.LIST_SIZE_8
         start = ptr.deref(p, offset)
         size = ptr.list_item_count(p) + additional_size
+        if start < 0:
+            raise IndexError('Offset out of bounds: %d' % start)
+        if size < 0:
+            size = 0
         return _hash.strhash(self.buf, start, size)
 
     def _print(self, **kwds):
-- 
2.43.0


From 046e1dcf98b2f5c5bac94fdd0bd21916387d051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 14/30] fix: copying a malformed message must not crash, loop
 or fill the memory

check for negative offsets, for lists whose items are longer than the list, for
cycles (which overflowed the C stack) and for exponentially growing copies
---
 capnpy/segment/_copy_pointer.h  |  3 +-
 capnpy/segment/_copy_pointer.py | 54 +++++++++++++++++++++++++--------
 capnpy/segment/builder.pxd      |  3 ++
 capnpy/segment/builder.py       | 10 ++++++
 capnpy/segment/builder.pyx      | 13 ++++++++
 capnpy/segment/endof.pxd        | 12 +++++---
 capnpy/segment/endof.py         | 31 +++++++++++--------
 7 files changed, 95 insertions(+), 31 deletions(-)

diff --git a/capnpy/segment/_copy_pointer.h b/capnpy/segment/_copy_pointer.h
index 1bc687c..42b14df 100644
--- a/capnpy/segment/_copy_pointer.h
+++ b/capnpy/segment/_copy_pointer.h
@@ -7,7 +7,8 @@ static PyObject* RAISE_OUT_OF_BOUNDS(Py_ssize_t, Py_ssize_t);
     (Py_INCREF(Py_None), Py_None);                                      \
     {                                                                   \
         /* _PyString_GET_SIZE is included from _util.h */               \
-        if ((offset)+(size) > (_PyString_GET_SIZE(src->buf))) {         \
+        if ((offset) < 0 || (size) < 0 ||                               \
+            (offset)+(size) > (_PyString_GET_SIZE(src->buf))) {         \
             /* raise and return error */                                \
             return RAISE_OUT_OF_BOUNDS(size, offset);                   \
         }                                                               \
diff --git a/capnpy/segment/_copy_pointer.py b/capnpy/segment/_copy_pointer.py
index 63c3c41..9eed275 100644
--- a/capnpy/segment/_copy_pointer.py
+++ b/capnpy/segment/_copy_pointer.py
@@ -28,7 +28,7 @@ if not cython.compiled:
     # this code runs only if we are in pure-python mode. If we are in PYX
     # mode, the equivalent functions are defined in _copy_pointer.pyx
     from capnpy import ptr
-    from capnpy.segment.builder import SegmentBuilder
+    from capnpy.segment.builder import SegmentBuilder, MAX_COPY_DEPTH
     from capnpy.segment.base import BaseSegment
     if PY3: long = int
 
@@ -38,7 +38,7 @@ if not cython.compiled:
     # it. However, we can trick Cython by calling it _check_bounds and
     # 'rename' it later by modifying globals(). Bah.
     def _check_bounds(src, size, offset):
-        if offset+size > len(src.buf):
+        if offset < 0 or size < 0 or offset+size > len(src.buf):
             raise IndexError('Offset out of bounds: %d' % (offset+size))
 
     def _read_int64_fast(src, offset):
@@ -64,26 +64,46 @@ if not cython.compiled:
 ##@cython.returns(long)
 ##@cython.except_(-1)
 @cython.locals(src=BaseSegment, p=long, src_pos=long, dst=SegmentBuilder, dst_pos=long,
-               kind=long)
+               kind=long, item_size=long)
 def copy_pointer(src, p, src_pos, dst, dst_pos):
     """
     Copy from: BaseSegment src, pointer p living at the src_pos offset
            to: SegmentBuilder dst at position dst_pos
     """
     kind = ptr.kind(p)
+    if kind == ptr.FAR:
+        src_pos, p = src.read_far_ptr(src_pos)
+        kind = ptr.kind(p)
+        if kind == ptr.FAR:
+            raise ValueError('Malformed message: FAR pointer to a FAR pointer')
+    #
+    # a malformed message can contain cycles: make sure not to overflow the C
+    # stack. There is no need to restore copy_depth in case of exceptions,
+    # because it is reset by the next copy_from_pointer/copy_inline_struct
+    dst.copy_depth += 1
+    if dst.copy_depth > MAX_COPY_DEPTH:
+        raise ValueError('Malformed message: pointers are nested too deeply')
     if kind == ptr.STRUCT:
-        return _copy_struct(src, p, src_pos, dst, dst_pos)
+        _copy_struct(src, p, src_pos, dst, dst_pos)
     elif kind == ptr.LIST:
         item_size = ptr.list_size_tag(p)
         if item_size == ptr.LIST_SIZE_COMPOSITE:
-            return _copy_list_composite(src, p, src_pos, dst, dst_pos)
+            _copy_list_composite(src, p, src_pos, dst, dst_pos)
         elif item_size == ptr.LIST_SIZE_PTR:
-            return _copy_list_ptr(src, p, src_pos, dst, dst_pos)
+            _copy_list_ptr(src, p, src_pos, dst, dst_pos)
         else:
-            return _copy_list_primitive(src, p, src_pos, dst, dst_pos)
-    elif kind == ptr.FAR:
-        src_pos, p = src.read_far_ptr(src_pos)
-        return copy_pointer(src, p, src_pos, dst, dst_pos)
+            _copy_list_primitive(src, p, src_pos, dst, dst_pos)
+    dst.copy_depth -= 1
+
+
+@cython.cfunc
+@cython.locals(dst=SegmentBuilder, length=long)
+def _check_copy_size(dst, length):
+    # the objects which are pointed to more than once are copied more than
+    # once: make sure that the copy of a (malformed) message does not become
+    # too big
+    if dst.get_length() + length > dst.copy_limit:
+        raise ValueError('Malformed message: the copy would be too big')
 
 
 @cython.cfunc
@@ -114,8 +134,9 @@ def _copy_struct(src, p, src_pos, dst, dst_pos):
         dst.write_int64(dst_pos, ptr.new_struct(-1, 0, 0))
         return
     ds = data_size*8
+    check_bounds(src, ds + ptrs_size*8, src_pos)
+    _check_copy_size(dst, ds + ptrs_size*8)
     dst_pos = dst.alloc_struct(dst_pos, data_size, ptrs_size)
-    check_bounds(src, ds, src_pos)
     dst.write_slice(dst_pos, src, src_pos, ds) # copy data section
     _copy_many_ptrs(ptrs_size, src, src_pos+ds, dst, dst_pos+ds)
 
@@ -166,8 +187,9 @@ def _copy_list_primitive(src, p, src_pos, dst, dst_pos):
     else:
         body_length = count * ptr.list_item_length(size_tag)
     #
-    dst_pos = dst.alloc_list(dst_pos, size_tag, count, body_length)
     check_bounds(src, body_length, src_pos)
+    _check_copy_size(dst, body_length)
+    dst_pos = dst.alloc_list(dst_pos, size_tag, count, body_length)
     dst.write_slice(dst_pos, src, src_pos, body_length)
 
 
@@ -180,8 +202,9 @@ def _copy_list_ptr(src, p, src_pos, dst, dst_pos):
     src_pos = ptr.deref(p, src_pos)
     count = ptr.list_item_count(p)
     body_length = count*8
-    dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_PTR, count, body_length)
     check_bounds(src, body_length, src_pos)
+    _check_copy_size(dst, body_length)
+    dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_PTR, count, body_length)
     _copy_many_ptrs(count, src, src_pos, dst, dst_pos)
 
 
@@ -204,12 +227,17 @@ def _copy_list_composite(src, p, src_pos, dst, dst_pos):
     count = ptr.offset(tag)
     data_size = ptr.struct_data_size(tag)
     ptrs_size = ptr.struct_ptrs_size(tag)
+    if count < 0 or count*(data_size+ptrs_size) > total_words:
+        raise ValueError('Malformed message: the items are longer than the list')
     #
     # allocate the list and copy the whole body at once
+    _check_copy_size(dst, body_length)
     dst_pos = dst.alloc_list(dst_pos, ptr.LIST_SIZE_COMPOSITE, total_words, body_length)
     dst.write_slice(dst_pos, src, src_pos, body_length)
     #
     # iterate over the elements, fix the pointers and copy the content
+    if ptrs_size == 0:
+        return
     i = 0
     item_length = (data_size+ptrs_size) * 8
     ptrs_section_offset = 0
diff --git a/capnpy/segment/builder.pxd b/capnpy/segment/builder.pxd
index 3374ff0..c4592b8 100644
--- a/capnpy/segment/builder.pxd
+++ b/capnpy/segment/builder.pxd
@@ -13,8 +13,11 @@ cdef class SegmentBuilder(object):
     cdef readonly Py_ssize_t end     # index of the current end position of
                                      # cbuf; the next allocation will start at
                                      # this position
+    cdef long copy_depth             # see copy_pointer
+    cdef Py_ssize_t copy_limit       # see _check_copy_size
 
     cdef void _resize(self, Py_ssize_t minlen)
+    cdef _start_copy(self, BaseSegment src)
     cpdef Py_ssize_t get_length(self)
     cpdef as_string(self)
 
diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index d1c3777..8522ad4 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -5,6 +5,10 @@ from capnpy import ptr
 from capnpy.packing import mychr
 from capnpy.printer import print_buffer
 
+# see builder.pyx
+MAX_COPY_DEPTH = 10000
+MAX_COPY_GROWTH = 8*1024*1024
+
 class SegmentBuilder(object):
 
     def __init__(self, length=None):
@@ -114,7 +118,12 @@ class SegmentBuilder(object):
                             (structcls.__class__.__name__, value))
         self.copy_from_pointer(dst_pos, value._seg, value._as_pointer(0), 0)
 
+    def _start_copy(self, src):
+        self.copy_depth = 0
+        self.copy_limit = len(self.buf) + 2*len(src.buf) + MAX_COPY_GROWTH
+
     def copy_from_pointer(self, dst_pos, src, p, src_pos):
+        self._start_copy(src)
         return copy_pointer(src, p, src_pos, self, dst_pos)
 
     def copy_inline_struct(self, dst_pos, data_size, ptrs_size, src, p, src_pos):
@@ -126,6 +135,7 @@ class SegmentBuilder(object):
              the struct directly into dst_pos, where there is room for a
              struct of the given data_size and ptrs_size
         """
+        self._start_copy(src)
         return _copy_struct_inline(src, p, src_pos, self, dst_pos, data_size, ptrs_size)
 
     def copy_from_list(self, pos, item_type, lst):
diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index cdd9631..09abf92 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -17,6 +17,12 @@ cdef extern from "_util.h":
     cdef bytes _PyString_FromStringAndSize(char *v, Py_ssize_t len)
 
 
+# maximum nesting of the objects which are copied by copy_pointer, and maximum
+# size of the extra memory which can be used to copy the same objects again and
+# again: they are well above what is needed by any sane message
+cdef long MAX_COPY_DEPTH = 10000
+cdef Py_ssize_t MAX_COPY_GROWTH = 8*1024*1024
+
 cdef long round_to_word(long pos):
     return (pos + (8 - 1)) & -8  # Round up to 8-byte boundary
 
@@ -180,8 +186,14 @@ cdef class SegmentBuilder(object):
                             (structcls.__class__.__name__, value))
         self.copy_from_pointer(dst_pos, value._seg, value._as_pointer(0), 0)
 
+    cdef _start_copy(self, BaseSegment src):
+        self.copy_depth = 0
+        self.copy_limit = (self.end + 2*_PyString_GET_SIZE(src.buf) +
+                           MAX_COPY_GROWTH)
+
     cpdef copy_from_pointer(self, Py_ssize_t dst_pos, BaseSegment src, long p,
                             Py_ssize_t src_pos):
+        self._start_copy(src)
         return copy_pointer(src, p, src_pos, self, dst_pos)
 
     cpdef copy_inline_struct(self, Py_ssize_t dst_pos, long data_size, long ptrs_size,
@@ -194,6 +206,7 @@ cdef class SegmentBuilder(object):
              the struct directly into dst_pos, where there is room for a
              struct of the given data_size and ptrs_size
         """
+        self._start_copy(src)
         return _copy_struct_inline(src, p, src_pos, self, dst_pos, data_size, ptrs_size)
 
     cpdef copy_from_list(self, Py_ssize_t pos, item_type, lst):
diff --git a/capnpy/segment/endof.pxd b/capnpy/segment/endof.pxd
index 547b944..aebe138 100644
--- a/capnpy/segment/endof.pxd
+++ b/capnpy/segment/endof.pxd
@@ -2,23 +2,25 @@ import cython
 from capnpy cimport ptr
 from capnpy.segment.segment cimport Segment
 
-cpdef long endof(Segment seg, long p, long offset) except -2
+cdef long MAX_DEPTH
+
+cpdef long endof(Segment seg, long p, long offset, long depth=*) except -2
 
 @cython.locals(i=long, p_offset=long, p=long)
 cdef long _endof_ptrs(Segment seg, long offset, long ptrs_size,
-                     long current_end)
+                     long current_end, long depth)
 
 @cython.locals(end=long)
 cdef long _endof_struct(Segment seg, long p, long offset,
-                       long data_size, long ptrs_size)
+                       long data_size, long ptrs_size, long depth)
 
 @cython.locals(item_size=long, i=long)
 cdef long _endof_list_composite(Segment seg, long p, long offset,
-                               long count, long data_size, long ptrs_size)
+                               long count, long data_size, long ptrs_size, long depth)
 
 @cython.locals(count=long, end=long)
 cdef long _endof_list_ptr(Segment seg, long p, long offset,
-                         long count)
+                         long count, long depth)
 
 cdef long _endof_list_primitive(Segment seg, long p, long offset,
                                long item_size, long count)
diff --git a/capnpy/segment/endof.py b/capnpy/segment/endof.py
index 6494cb4..dae1817 100644
--- a/capnpy/segment/endof.py
+++ b/capnpy/segment/endof.py
@@ -1,6 +1,9 @@
 from capnpy import ptr
 
-def endof(seg, p, offset):
+# objects which are nested more than this are considered not compact
+MAX_DEPTH = 5000
+
+def endof(seg, p, offset, depth=0):
     """
     Check whether the given object is compact, and in that case compute its
     end boundary. If it's not compact, return -1.
@@ -15,24 +18,28 @@ def endof(seg, p, offset):
 
       4. there are no FAR pointers
     """
+    if depth > MAX_DEPTH:
+        return -1
     kind = ptr.kind(p)
     offset = ptr.deref(p, offset)
     if kind == ptr.STRUCT:
         data_size = ptr.struct_data_size(p)
         ptrs_size = ptr.struct_ptrs_size(p)
-        return _endof_struct(seg, p, offset, data_size, ptrs_size)
+        return _endof_struct(seg, p, offset, data_size, ptrs_size, depth)
     elif kind == ptr.LIST:
         item_size = ptr.list_size_tag(p)
         count = ptr.list_item_count(p)
         if item_size == ptr.LIST_SIZE_COMPOSITE:
             tag = seg.read_ptr(offset)
             count = ptr.offset(tag)
+            if count < 0:
+                return -1 # malformed list
             data_size = ptr.struct_data_size(tag)
             ptrs_size = ptr.struct_ptrs_size(tag)
             return _endof_list_composite(seg, p, offset,
-                                         count, data_size, ptrs_size)
+                                         count, data_size, ptrs_size, depth)
         elif item_size == ptr.LIST_SIZE_PTR:
-            return _endof_list_ptr(seg, p, offset, count)
+            return _endof_list_ptr(seg, p, offset, count, depth)
         elif item_size == ptr.LIST_SIZE_BIT:
             return _endof_list_bit(seg, p, offset, count)
         else:
@@ -42,7 +49,7 @@ def endof(seg, p, offset):
     else:
         assert False, 'unknown ptr kind'
 
-def _endof_ptrs(seg, offset, ptrs_size, current_end):
+def _endof_ptrs(seg, offset, ptrs_size, current_end, depth):
     i = 0
     while i < ptrs_size:
         p_offset = offset + i*8
@@ -53,16 +60,16 @@ def _endof_ptrs(seg, offset, ptrs_size, current_end):
         new_start = ptr.deref(p, p_offset)
         if new_start != current_end:
             return -1
-        current_end = endof(seg, p, p_offset)
+        current_end = endof(seg, p, p_offset, depth+1)
     #
     return current_end
 
-def _endof_struct(seg, p, offset, data_size, ptrs_size):
+def _endof_struct(seg, p, offset, data_size, ptrs_size, depth):
     offset += data_size*8
     current_end = offset + (ptrs_size*8)
-    return _endof_ptrs(seg, offset, ptrs_size, current_end)
+    return _endof_ptrs(seg, offset, ptrs_size, current_end, depth)
 
-def _endof_list_composite(seg, p, offset, count, data_size, ptrs_size):
+def _endof_list_composite(seg, p, offset, count, data_size, ptrs_size, depth):
     item_size = (data_size+ptrs_size)*8
     offset += 8 # skip the tag
     end = offset + (item_size)*count
@@ -72,16 +79,16 @@ def _endof_list_composite(seg, p, offset, count, data_size, ptrs_size):
     i = 0
     while i < count:
         item_offset = offset + (item_size)*i + (data_size*8)
-        end = _endof_ptrs(seg, item_offset, ptrs_size, end)
+        end = _endof_ptrs(seg, item_offset, ptrs_size, end, depth)
         if end == -1:
             return -1
         i += 1
     #
     return end
 
-def _endof_list_ptr(seg, p, offset, count):
+def _endof_list_ptr(seg, p, offset, count, depth):
     end = offset + 8*count
-    return _endof_ptrs(seg, offset, count, end)
+    return _endof_ptrs(seg, offset, count, end, depth)
 
 def _endof_list_primitive(seg, p, offset, item_size, count):
     item_size = ptr.list_item_length(item_size)
-- 
2.43.0


From fa83053f3e347b7f35e25abc344c9f3a616ab54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 15/30] fix: a list with a negative number of items is
 malformed

---
 capnpy/list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/capnpy/list.py b/capnpy/list.py
index 4c2f1af..3c017ec 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -43,6 +43,8 @@ class List(Blob):
             tag = self._seg.read_ptr(self._offset)
             self._tag = tag
             self._item_count = ptr.offset(tag)
+            if self._item_count < 0:
+                raise ValueError('Malformed message: negative number of items')
             self._item_length = (ptr.struct_data_size(tag)+ptr.struct_ptrs_size(tag))*8
             self._item_offset = 8
         else:
-- 
2.43.0


From 209df6579d34e5a4fd953fe1fbb35788ffb12d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 16/30] fix: which() of an union with tag 0xffff must not crash
 the interpreter

---
 capnpy/compiler/struct_.py | 2 +-
 capnpy/struct_.py          | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 432003c..542b99d 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -133,7 +133,7 @@ class Node__Struct:
             # are already fast
             ns.ww("""
                 cpdef long __which__(self) except -1:
-                    return self._read_int16({tag_offset})
+                    return self._read_int16({tag_offset}) & 0xffff
                 cpdef which(self):
                     return {compile_name}._new(self.__which__())
             """)
diff --git a/capnpy/struct_.py b/capnpy/struct_.py
index a43e576..e5e7259 100644
--- a/capnpy/struct_.py
+++ b/capnpy/struct_.py
@@ -167,7 +167,9 @@ class Struct(Blob):
     def __which__(self):
         if self.__tag_offset__ is None:
             raise TypeError("Cannot call which() on a non-union type")
-        return self._read_int16(self.__tag_offset__)
+        # the tag is unsigned: in particular, it is never -1, which is reserved
+        # to signal exceptions when compiled by Cython
+        return self._read_int16(self.__tag_offset__) & 0xffff
 
     def _as_pointer(self, offset):
         """
-- 
2.43.0


From fe6f33740a216dd660a9fd550937c7248850e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:30 +0000
Subject: [PATCH 17/30] fix: printing or hashing a message with cycles must not
 overflow the C stack

---
 capnpy/compiler/request.py |  2 ++
 capnpy/compiler/struct_.py |  4 +++-
 capnpy/struct_.py          |  4 ++--
 capnpy/util.py             | 11 +++++++++++
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/capnpy/compiler/request.py b/capnpy/compiler/request.py
index 2167290..5ecadd1 100644
--- a/capnpy/compiler/request.py
+++ b/capnpy/compiler/request.py
@@ -69,6 +69,8 @@ class RequestedFile:
         m.w("from capnpy.util import text_bytes_repr as _text_bytes_repr")
         m.w("from capnpy.util import text_unicode_repr as _text_unicode_repr")
         m.w("from capnpy.util import data_repr as _data_repr")
+        m.w("from capnpy.util import struct_repr as _struct_repr")
+        m.w("from capnpy.util import hash_key as _hash_key")
         m.w("from capnpy.util import float32_repr as _float32_repr")
         m.w("from capnpy.util import float64_repr as _float64_repr")
         m.w("from capnpy.util import extend_module_maybe as _extend_module_maybe")
diff --git a/capnpy/compiler/struct_.py b/capnpy/compiler/struct_.py
index 542b99d..d0ad443 100644
--- a/capnpy/compiler/struct_.py
+++ b/capnpy/compiler/struct_.py
@@ -265,7 +265,7 @@ class Node__Struct:
         elif f.is_data():
             return ns.format('_data_repr(self.get_{pyname}())')
         elif f.is_struct() or f.is_list():
-            return ns.format('self.get_{pyname}().shortrepr()')
+            return ns.format('_struct_repr(self.get_{pyname}())')
         elif f.is_group():
             return ns.format('self.{pyname}.shortrepr()')
         else:
@@ -349,6 +349,8 @@ class Node__Struct:
         elif t.is_uint64():
             # this can be assimilated to a Python <long>
             return '_hash.longhash'
+        elif t.is_struct():
+            return '_hash_key'
         else:
             # no fast hash, use the "slow" one
             return 'hash'
diff --git a/capnpy/struct_.py b/capnpy/struct_.py
index e5e7259..41193d6 100644
--- a/capnpy/struct_.py
+++ b/capnpy/struct_.py
@@ -9,7 +9,7 @@ from capnpy.list import List
 from capnpy.segment.segment import Segment, MultiSegment
 from capnpy.segment.endof import endof
 from capnpy.segment.builder import SegmentBuilder
-from capnpy.util import magic_setattr, decode_maybe
+from capnpy.util import magic_setattr, decode_maybe, hash_key
 
 class Undefined(object):
     def __repr__(self):
@@ -319,7 +319,7 @@ class Struct(Blob):
                         "Use the $Py.key annotation to enable it")
 
     def __hash__(self):
-        return hash(self._key())
+        return hash_key(self._key())
 
     def _equals(self, other):
         if isinstance(other, Struct) or isinstance(other, tuple):
diff --git a/capnpy/util.py b/capnpy/util.py
index 9969389..8edf4ec 100644
--- a/capnpy/util.py
+++ b/capnpy/util.py
@@ -105,6 +105,17 @@ def data_repr(s):
     s = s.replace('"', r'\"')
     return u'"%s"' % s[1:-1]
 
+def struct_repr(obj):
+    # this is used for the structs and lists which are inside a struct. In PYX
+    # mode obj.shortrepr() is written in C: we need to go through a Python
+    # function to get a RecursionError instead of overflowing the C stack in
+    # case of malformed messages which contain cycles
+    return obj.shortrepr()
+
+def hash_key(key):
+    # same as above, for the structs which are part of the key of a struct
+    return hash(key)
+
 
 try:
     from capnpy.floatrepr import float32_repr, float64_repr
-- 
2.43.0


From 109fe1f6a639a4a5d96ed3da33f0503438038c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 18/30] fix: a failing allocation while growing the builder
 must not corrupt the memory

---
 capnpy/segment/builder.pxd |  2 +-
 capnpy/segment/builder.pyx | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/capnpy/segment/builder.pxd b/capnpy/segment/builder.pxd
index c4592b8..2db25e1 100644
--- a/capnpy/segment/builder.pxd
+++ b/capnpy/segment/builder.pxd
@@ -16,7 +16,7 @@ cdef class SegmentBuilder(object):
     cdef long copy_depth             # see copy_pointer
     cdef Py_ssize_t copy_limit       # see _check_copy_size
 
-    cdef void _resize(self, Py_ssize_t minlen)
+    cdef int _resize(self, Py_ssize_t minlen) except -1
     cdef _start_copy(self, BaseSegment src)
     cpdef Py_ssize_t get_length(self)
     cpdef as_string(self)
diff --git a/capnpy/segment/builder.pyx b/capnpy/segment/builder.pyx
index 09abf92..23bdbdc 100644
--- a/capnpy/segment/builder.pyx
+++ b/capnpy/segment/builder.pyx
@@ -8,7 +8,7 @@ from capnpy.struct_ cimport Struct
 from capnpy.list cimport List, ItemType, StructItemType
 
 cdef extern from "Python.h":
-    int PyByteArray_Resize(object o, Py_ssize_t len)
+    int PyByteArray_Resize(object o, Py_ssize_t len) except -1
     char* PyByteArray_AS_STRING(object o)
 
 cdef extern from "_util.h":
@@ -35,7 +35,7 @@ cdef class SegmentBuilder(object):
         self.cbuf = PyByteArray_AS_STRING(self.buf)
         self.end = 0
 
-    cdef void _resize(self, Py_ssize_t minlen):
+    cdef int _resize(self, Py_ssize_t minlen) except -1:
         # exponential growth of the buffer. By using this formula, we grow
         # faster at the beginning (where the constant plays a major role) and
         # slower when the buffer it's already big (where length >> 1 plays a
@@ -53,6 +53,7 @@ cdef class SegmentBuilder(object):
         ##     print '        %s --> %s' % (curlen, newlen)
         memset(self.cbuf + curlen, 0, newlen - curlen)
         self.length = newlen
+        return 0
 
     cpdef Py_ssize_t get_length(self):
         return self.end
@@ -131,9 +132,10 @@ cdef class SegmentBuilder(object):
         position of the newly allocated space.
         """
         cdef Py_ssize_t result = self.end
-        self.end += length
-        if self.end > self.length:
-            self._resize(self.end)
+        cdef Py_ssize_t end = result + length
+        if end > self.length:
+            self._resize(end)
+        self.end = end
         return result
 
     cpdef Py_ssize_t alloc_struct(self, Py_ssize_t pos, long data_size, long ptrs_size):
-- 
2.43.0


From 9f2129e67ce1975f7ff3982abc4f207459af3c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:42 +0000
Subject: [PATCH 19/30] fix: printing lists with null texts or binary data must
 not fail

---
 capnpy/list.py | 5 ++++-
 capnpy/util.py | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/capnpy/list.py b/capnpy/list.py
index 3c017ec..445bfd1 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -7,7 +7,8 @@ from capnpy.type import Types, BuiltinType
 from capnpy.blob import Blob, PYX
 from capnpy import ptr
 from capnpy.util import (float32_repr, float64_repr, decode_maybe,
-                         encode_maybe, text_bytes_repr, text_unicode_repr)
+                         encode_maybe, text_bytes_repr, text_unicode_repr,
+                         data_repr)
 from capnpy.segment.endof import endof
 
 class List(Blob):
@@ -348,6 +349,8 @@ class TextItemType(ItemType):
         return lst._seg.read_str(p, offset, None, self.additional_size)
 
     def item_repr(self, item):
+        if self.additional_size == 0:
+            return data_repr(item)
         return text_bytes_repr(item)
 
     def write_item(self, builder, pos, item):
diff --git a/capnpy/util.py b/capnpy/util.py
index 8edf4ec..7a2a9d2 100644
--- a/capnpy/util.py
+++ b/capnpy/util.py
@@ -89,11 +89,15 @@ def text_bytes_repr(s):
     return text_unicode_repr(decode_maybe(s))
 
 def text_unicode_repr(s):
+    if s is None:
+        s = u'' # null item of a list
     s = s.replace('"', r'\"')
     s = s.replace("'", r"\'")
     return u'"%s"' % s
 
 def data_repr(s):
+    if s is None:
+        s = b'' # null item of a list
     s = repr(s).lstrip('b')
 
     if six.PY2:
-- 
2.43.0


From 064b0f858a22b8d363f6e7489e15e3bbffed2dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 20/30] fix: capnpy decode must finish normally at the end of
 the file

---
 capnpy/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/capnpy/__main__.py b/capnpy/__main__.py
index 812f9f8..c4dad15 100644
--- a/capnpy/__main__.py
+++ b/capnpy/__main__.py
@@ -57,7 +57,8 @@ def decode(args, options):
         while True:
             try:
                 obj = load(f, cls)
-            except ValueError:
+            except (EOFError, ValueError):
+                # end of the stream, or truncated message
                 break
             print(obj.shortrepr())
             i += 1
-- 
2.43.0


From 67dd6f3d1cd9240fec9fb7c66cc4cf3e70447831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 21/30] fix: the textual form of a Text must escape backslashes
 and control characters

---
 capnpy/util.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/capnpy/util.py b/capnpy/util.py
index 7a2a9d2..50fcdb7 100644
--- a/capnpy/util.py
+++ b/capnpy/util.py
@@ -1,3 +1,4 @@
+import re
 import sys
 import py
 import six
@@ -85,14 +86,22 @@ def check_version(modname, version):
                'Please recompile.').format(v1=version, v2=capnpy.__version__)
         raise ImportError(msg)
 
+# the characters which are escaped by the capnp tool
+SPECIAL_CHARS = re.compile(u'[\x00-\x1f\x7f"\'\\\\]')
+ESCAPES = {'\a': r'\a', '\b': r'\b', '\f': r'\f', '\n': r'\n', '\r': r'\r',
+           '\t': r'\t', '\v': r'\v', '"': r'\"', "'": r"\'", '\\': r'\\'}
+
+def _escape(m):
+    ch = m.group(0)
+    return ESCAPES.get(ch) or '\\%03o' % ord(ch)
+
 def text_bytes_repr(s):
     return text_unicode_repr(decode_maybe(s))
 
 def text_unicode_repr(s):
     if s is None:
         s = u'' # null item of a list
-    s = s.replace('"', r'\"')
-    s = s.replace("'", r"\'")
+    s = SPECIAL_CHARS.sub(_escape, s)
     return u'"%s"' % s
 
 def data_repr(s):
-- 
2.43.0


From e2a96ae6f9990050ed2800bd7934ff6da6a46ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 22/30] fix: the textual form of a list of enums must show the
 names of the items

---
 capnpy/list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capnpy/list.py b/capnpy/list.py
index 445bfd1..77387cc 100644
--- a/capnpy/list.py
+++ b/capnpy/list.py
@@ -287,6 +287,9 @@ class EnumItemType(PrimitiveItemType):
         value = PrimitiveItemType.read_item(self, lst, i)
         return self.enumcls(value)
 
+    def item_repr(self, item):
+        return item.name
+
 
 class StructItemType(ItemType):
 
-- 
2.43.0


From 0db325ba69d983a144a43e711fd82444c8a370ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 23/30] fix: texts and data must be bytes in pure Python mode
 too

---
 capnpy/segment/builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index 8522ad4..d5bcca4 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -98,6 +98,10 @@ class SegmentBuilder(object):
         if s is None:
             self.write_int64(pos, 0)
             return -1
+        if not isinstance(s, bytes):
+            # same as in builder.pyx. In particular, a bytearray could be
+            # resized by another thread while we are copying it
+            raise TypeError("Expected bytes, got %s" % s.__class__.__name__)
         n = len(s)
         nn = n + trailing_zero
         result = self.alloc_list(pos, ptr.LIST_SIZE_8, nn, nn)
-- 
2.43.0


From c20789fb507bb9db67fc8a4dbd507b3a5005fdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 24/30] fix: objects loaded from a memoryview must not change
 when the memory is reused

---
 capnpy/segment/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/capnpy/segment/base.py b/capnpy/segment/base.py
index 78f32e3..2b7ddcf 100644
--- a/capnpy/segment/base.py
+++ b/capnpy/segment/base.py
@@ -33,6 +33,10 @@ class BaseSegment(object):
 
     def __init__(self, buf):
         assert buf is not None
+        if not isinstance(buf, bytes):
+            # e.g. a memoryview: make a copy, else the content of the objects
+            # would change as soon as the underlying memory is reused
+            buf = memoryview(buf).tobytes()
         self.buf = buf
 
     def read_primitive(self, offset, ifmt):
-- 
2.43.0


From 1015ed268c0cec039aefb0488a69a30a1b2f5dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 25/30] fix: BufferedSocket.write must copy mutable data

---
 capnpy/buffered.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/capnpy/buffered.py b/capnpy/buffered.py
index 5c2bddb..e4c030f 100644
--- a/capnpy/buffered.py
+++ b/capnpy/buffered.py
@@ -125,6 +125,10 @@ class BufferedSocket(BufferedStream):
         return self.sock.recv(self.bufsize)
 
     def write(self, data):
+        if not isinstance(data, bytes):
+            # e.g. a bytearray: make a copy, as it might be modified before we
+            # flush it
+            data = memoryview(data).tobytes()
         self.wbuf.append(data)
 
     def flush(self):
-- 
2.43.0


From fdd7aa04e80d975a98d9508a6754dcd14020393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 26/30] fix: data written by another thread during a flush must
 not be lost

---
 capnpy/buffered.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/capnpy/buffered.py b/capnpy/buffered.py
index e4c030f..f44b7e2 100644
--- a/capnpy/buffered.py
+++ b/capnpy/buffered.py
@@ -132,13 +132,15 @@ class BufferedSocket(BufferedStream):
         self.wbuf.append(data)
 
     def flush(self):
-        # more data can be written while we are blocked inside sendall()
-        wbuf = self.wbuf
-        self.wbuf = []
+        # more data can be written while we are blocked inside sendall(), or
+        # by another thread at any time: hence, never replace self.wbuf, only
+        # add and remove items atomically
+        wbuf = self.wbuf[:]
+        del self.wbuf[:len(wbuf)]
         try:
             self.sock.sendall(b''.join(wbuf))
         except:
-            self.wbuf = wbuf + self.wbuf
+            self.wbuf[:0] = wbuf
             raise
 
     def close(self):
-- 
2.43.0


From 70a333f2776e12f4ee8080d4c3fb483ea87ebe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 27/30] fix: the number of segments in a message header must
 not wrap around

---
 capnpy/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/capnpy/message.py b/capnpy/message.py
index 0f8d621..ed02234 100644
--- a/capnpy/message.py
+++ b/capnpy/message.py
@@ -58,7 +58,9 @@ def _load_message(f):
         raise EOFError("No message to load")
     elif length < 4:
         raise ValueError("Malformed header: expected 4 bytes, got %d" % len(buf))
-    n = unpack_uint32(buf, 0) + 1
+    # don't do "unpack_uint32(...) + 1": in Cython it would be a 32 bit addition
+    n = unpack_uint32(buf, 0)
+    n += 1
     if n == 1:
         capnp_buf = _load_buffer_single_segment(f) # fast path
     else:
-- 
2.43.0


From 7a04ef40d280b1bce4949d86c774635c3f74a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 28/30] fix: dumps(None) must raise instead of crashing

---
 capnpy/message.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/capnpy/message.py b/capnpy/message.py
index ed02234..74a038b 100644
--- a/capnpy/message.py
+++ b/capnpy/message.py
@@ -147,6 +147,9 @@ def dumps(obj, fastpath=True):
     fast path check makes it ~2x slower. If you are sure that the object is
     not compact, you can disable the check by passing ``fastpath=False``.
     """
+    if obj is None:
+        # e.g. the result of loading a message whose root pointer is NULL
+        raise TypeError("Cannot dump None")
     if fastpath:
         # try the fast path: if the object is compact, we can dump the
         # object with a fast memcpy
-- 
2.43.0


From 6ddd29e7b4067899b70768b04a249f43d7093e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 29/30] fix: a true value which is not a bool must not set
 other bits in pure Python mode

---
 capnpy/segment/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capnpy/segment/builder.py b/capnpy/segment/builder.py
index d5bcca4..9fcad5f 100644
--- a/capnpy/segment/builder.py
+++ b/capnpy/segment/builder.py
@@ -58,7 +58,7 @@ class SegmentBuilder(object):
 
     def write_bool(self, byteoffset, bitoffset, value):
         current = struct.unpack_from('B', self.buf, byteoffset)[0]
-        current |= (value << bitoffset)
+        current |= (bool(value) << bitoffset)
         struct.pack_into('B', self.buf, byteoffset, current)
 
     def write_slice(self, i, src, start, n):
-- 
2.43.0


From ce995a59b7b8a3447c4828dc7e1184e18e947602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 30/30] fix: pointers with the highest bit set must not
 overflow in pure Python mode

---
 capnpy/ptr.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/capnpy/ptr.py b/capnpy/ptr.py
index a0d9145..74b2a90 100644
--- a/capnpy/ptr.py
+++ b/capnpy/ptr.py
@@ -78,13 +78,19 @@ def deref(ptr, ofs):
 ##
 ## =================================================================
 
+def as_int64(p):
+    # pointers are signed, like the ones which are read from the messages
+    if p >= 1<<63:
+        p -= 1<<64
+    return p
+
 def new_struct(offset, data_size, ptrs_size):
     p = 0
     p |= ptrs_size << 48
     p |= (data_size << 32 & 0xffff00000000)
     p |= (offset << 2 & 0xfffffffc)
     p |= STRUCT
-    return p
+    return as_int64(p)
 
 def struct_data_size(ptr):
     return ptr>>32 & 0xffff
@@ -122,7 +128,7 @@ def new_list(ptr_offset, size_tag, item_count):
     p |= (size_tag << 32 & 0x700000000)
     p |= (ptr_offset << 2 & 0xfffffffc)
     p |= LIST
-    return p
+    return as_int64(p)
 
 def list_size_tag(ptr):
     return ptr>>32 & 0x7
-- 
2.43.0

