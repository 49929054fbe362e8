From e079efc675cace0f6e8d51416e678995c15beb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 01/87] fix: BitView.to_bytearray leaked bits past the end of a
 view that stops inside a byte

---
 src/infi/instruct/buffer/io_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index e2ce9b3..7f5df3a 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -62,8 +62,8 @@ class BitView(abc.Sequence):
         return "".join(str(n) for n in reversed(result))
 
     def to_bytearray(self):
-        if int(self.start) == self.start:
-            return self.buffer[int(self.start):int(math.ceil(self.stop))]
+        if int(self.start) == self.start and int(self.stop) == self.stop:
+            return bytearray(self.buffer[int(self.start):int(self.stop)])
         else:
             return bytearray(list(self))  # very inefficient.
 
-- 
2.43.0


From e13073a4bcc981d03d023b5080e15d8454ce87c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 02/87] fix: inserting or zero-filling a partial byte kept
 stale bits and did not shift short tails

---
 src/infi/instruct/buffer/io_buffer.py | 33 +++++++++------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 7f5df3a..313f072 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -212,28 +212,17 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
     def _insert_zeros(self, start, stop):
         assert start >= 0 and start <= stop, "start={0!r}, stop={1!r}".format(start, stop)
         assert start <= self.stop
-        start_byte, stop_byte = int(math.ceil(start)), int(math.floor(stop))
-        whole_byte_delta = stop_byte - start_byte
-
-        # If we can insert whole bytes to the buffer, we'll do that first.
-        if whole_byte_delta >= 1:
-            self.buffer[start_byte:start_byte] = bytearray(whole_byte_delta)
-            self.stop += whole_byte_delta
-            stop -= whole_byte_delta
-
-        if stop > start:
-            assert stop - start <= 2, "start={0}, stop={1}".format(start, stop)
-            bit_len_frac = stop - start
-            while int(math.ceil(self.stop + bit_len_frac)) > len(self.buffer):
-                self.buffer.append(0)
-
-            if start < self.stop:
-                # Inserting in the middle, so we copy from end to start.
-                ofs = self.stop + bit_len_frac - 1
-                while ofs >= start:
-                    self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs - bit_len_frac, 8))
-                    ofs -= 1
-            self.stop += bit_len_frac
+        delta = stop - start
+        if start == int(start) and delta == int(delta):
+            # shortcut: we can insert whole bytes to the buffer
+            self.buffer[int(start):int(start)] = bytearray(int(delta))
+        else:
+            tail = self._get_range(start, self.stop)
+            old_stop_byte, new_stop_byte = int(math.ceil(self.stop)), int(math.ceil(self.stop + delta))
+            self.buffer[old_stop_byte:old_stop_byte] = bytearray(new_stop_byte - old_stop_byte)
+            self._copy_to_range(start, bytearray(int(math.ceil(delta))), delta)
+            self._copy_to_range(stop, tail, tail.length())
+        self.stop += delta
 
     def _set_byte_bits(self, ofs, bit_len, value):
         byte_ofs, bit_ofs = float_to_byte_bit_pair(ofs)
-- 
2.43.0


From 5516c9f044c73f04117c99a488b35cd0e22743ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 03/87] fix: assigning a negative int to a range of bits
 silently stored wrong bits

---
 src/infi/instruct/buffer/io_buffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 313f072..6737ff4 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -247,6 +247,8 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
             value_len = len(value)
         elif isinstance(value, integer_types):
             # Short circuit: make bit ranges accept int values by their bit length.
+            if value < 0:
+                raise ValueError("trying to assign negative int {0} to a range of bits".format(value))
             bit_length = max(1, value.bit_length())
             if bit_length > int_value_len * 8:
                 # Safety measure for short circuit: if user is assigning an int with more bits than the range of
-- 
2.43.0


From 69b9a0ff70b90ae1caf687ccb5a6034daf0f69ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 04/87] fix: assigning an int to a range of bits kept old bits
 above the int's highest byte

---
 src/infi/instruct/buffer/io_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 6737ff4..02938eb 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -259,8 +259,8 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
             for n in range(0, bit_length, 8):
                 l.append(value % 256)
                 value //= 256
-            value = l
             value_len = max(float(bit_length) / 8, int_value_len)
+            value = l + [0] * (int(math.ceil(value_len)) - len(l))
         else:
             raise TypeError("value must be iterable or int")
         return value, value_len
-- 
2.43.0


From 90fddc49c9843410c1070c7499416c752958dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 05/87] fix: items that are not bytes corrupted neighbouring
 bits when assigned to unaligned ranges

---
 src/infi/instruct/buffer/io_buffer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 02938eb..afe4b73 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -240,8 +240,6 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
         value_len = 0
         if isinstance(value, BitView):
             value_len = value.length()
-        elif isinstance(value, abc.Sized):
-            value_len = len(value)
         elif isinstance(value, abc.Iterable):
             value = bytearray(value)
             value_len = len(value)
-- 
2.43.0


From bae68ef576508c5af9e743768889926ee6a35a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 06/87] fix: extending or assigning a bit-aware byte array with
 itself corrupted it

---
 src/infi/instruct/buffer/io_buffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index afe4b73..c63c8f4 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -140,6 +140,7 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
     def extend(self, other):
         if isinstance(other, BitView):
             offset = self.stop
+            other = other[:]  # a copy, since other may be this array
             self._insert_zeros(offset, offset + other.length())
             self._copy_to_range(offset, other, other.length())
         else:
@@ -239,6 +240,7 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
     def _value_to_value_and_length(self, value, int_value_len=1):
         value_len = 0
         if isinstance(value, BitView):
+            value = value[:]  # a copy, since value may be this array
             value_len = value.length()
         elif isinstance(value, abc.Iterable):
             value = bytearray(value)
-- 
2.43.0


From 382b40278c0326a340180f3016f299d99cdde7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 07/87] fix: indexing the last partial byte corrupted it and
 indexing past a partial byte was accepted

---
 src/infi/instruct/buffer/io_buffer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index c63c8f4..309775c 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -99,7 +99,9 @@ class BitView(abc.Sequence):
             assert start <= stop and start >= 0, "start={0!r}, stop={1!r}".format(start, stop)
         elif isinstance(key, integer_types + (float,)):
             start = self._translate_offset(key)
-            stop = start + 1
+            if start >= self.stop:
+                raise IndexError("index {0!r} is out of range".format(key))
+            stop = min(start + 1, self.stop)
         else:
             raise TypeError("index must be int, float or a slice")
         return start, stop
-- 
2.43.0


From d17d85e2b9c43e9138dda75a46913f7bd1439282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 08/87] fix: bit slices of positions with several ranges, and
 open bit slices, addressed wrong bits or failed

---
 src/infi/instruct/buffer/reference/range.py | 49 ++++++++++-----------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 3bf00cb..212c38f 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -144,35 +144,32 @@ class BitSliceRangeReference(BitRangeReference):
         range_list = self.parent_range_ref.deref(ctx)
         assert len(range_list) >= 1
 
-        bit_range = SequentialRange(float(self.start.deref(ctx)) / 8, float(self.stop.deref(ctx)) / 8)
+        start, stop = self.start.deref(ctx), self.stop.deref(ctx)
+        bit_range = SequentialRange(float(start) / 8 if start is not None else 0,
+                                    float(stop) / 8 if stop is not None else None)
 
-        i, sum_length = range_list.find_relative_container_index(bit_range.start)
-        if i is None:
-            raise ValueError("Bit offset {0} is out of range for range sequence {1!r}".format(
-                int(bit_range.start * 8), range_list))
-
-        if bit_range.is_open():
-            subrange_start = range_list[i].start + bit_range.start - sum_length
-            return SequentialRangeList([SequentialRange(subrange_start, range_list[i].stop)] + range_list[i + 1:])
-
-        bit_range_remaining_len = bit_range.byte_length()
+        # Take the part of the bit range that is in each range of the parent.
         result = []
-        for i in range(i, len(range_list)):
-            r = range_list[i]
-            subrange_start = r.start + bit_range.start - sum_length
-            if r.is_open() or (r.stop - subrange_start) >= bit_range_remaining_len:
-                subrange_stop = subrange_start + bit_range_remaining_len
-            else:
-                subrange_stop = r.stop
-
-            result.append(SequentialRange(subrange_start, subrange_stop))
-
-            bit_range_remaining_len -= (subrange_stop - subrange_start)
-            if bit_range_remaining_len == 0:
+        range_offset = 0
+        for r in range_list:
+            subrange_start = r.start + max(bit_range.start - range_offset, 0)
+            subrange_stop = r.stop
+            if not bit_range.is_open():
+                bit_range_stop = r.start + max(bit_range.stop - range_offset, 0)
+                subrange_stop = bit_range_stop if r.is_open() else min(bit_range_stop, r.stop)
+            if subrange_stop is None or subrange_start < subrange_stop:
+                result.append(SequentialRange(subrange_start, subrange_stop))
+            if r.is_open():
                 break
-
-        if bit_range_remaining_len > 0:
-            raise ValueError("Bit range {0!r} is out of range for parent range {1!r}".format(bit_range, range_list))
+            range_offset += r.byte_length()
+        else:
+            if bit_range.start > range_offset or (not bit_range.is_open() and bit_range.stop > range_offset):
+                raise ValueError("Bit range {0!r} is out of range for parent range {1!r}".format(bit_range, range_list))
+
+        if not result:
+            # An empty bit range still has a position.
+            offset = range_list.byte_offset(bit_range.start)
+            result.append(SequentialRange(offset, offset))
 
         return SequentialRangeList(result)
 
-- 
2.43.0


From d4dda57a5f48cfd3c2c151c7921b220a680d6575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 09/87] fix: a bit index at the boundary of a position's ranges
 addressed a bit outside the position

---
 src/infi/instruct/buffer/range.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 312fe5e..2a8b177 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -182,10 +182,10 @@ class SequentialRangeList(list, SequentialRangeMixin):
     def find_relative_container_index(self, point):
         sum_length = 0
         for i in range(len(self)):
-            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) <= 0):
+            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) < 0):
                 return i, sum_length
             sum_length += self[i].byte_length()
-        return None
+        return None, sum_length
 
     def __add__(self, other):
         return SequentialRangeList(super(SequentialRangeList, self).__add__(other))
-- 
2.43.0


From fd5a64cb896fc02d2ec4adb109140f7988607662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 10/87] fix: an empty range inside another range was reported
 as an overlap

---
 src/infi/instruct/buffer/range.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 2a8b177..f32c496 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -87,6 +87,8 @@ class SequentialRange(SequentialRangeMixin):
         :returns: True if there's an overlap (non-empty intersection) between two ranges
         :rtype: bool
         """
+        if self.start == self.stop or other.start == other.stop:
+            return False  # an empty range doesn't intersect with anything
         a, b = (self, other) if self.start <= other.start else (other, self)
         a_imag_stop = a.to_closed(sys.maxsize).stop
         return a_imag_stop > b.start
@@ -138,7 +140,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
         :returns: True if one or more range in the list overlaps with another
         :rtype: bool
         """
-        sorted_list = sorted(self)
+        sorted_list = sorted(r for r in self if r.start != r.stop)
         for i in range(0, len(sorted_list) - 1):
             if sorted_list[i].overlaps(sorted_list[i + 1]):
                 return True
-- 
2.43.0


From 5aa464b2bed05296b3415e9b73738b6015ea6bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 11/87] fix: packing failed when the open range of a position
 was not its last range

---
 src/infi/instruct/buffer/field_reference_builder.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 48fc8be..49badfb 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -26,13 +26,9 @@ class PackAbsolutePositionReference(Reference):
             # We need the serialization result of this field to set the range. Note that we already checked if the
             # position has overlapping ranges, so there may be only a single open range.
             packed_field = self.field.pack_ref.deref(ctx)
-            current_length = 0
-            absolute_position_list = []
-            for pos in position_list:
-                abs_pos = pos.to_closed(pos.start + len(packed_field) - current_length)
-                absolute_position_list.append(abs_pos)
-                current_length += abs_pos.byte_length()
-            return absolute_position_list
+            closed_length = sum(pos.byte_length() for pos in position_list if not pos.is_open())
+            return SequentialRangeList(pos.to_closed(pos.start + len(packed_field) - closed_length)
+                                       for pos in position_list)
         else:
             return position_list
 
-- 
2.43.0


From cdde7f417b895c53ec2f4776e224485e20b94bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 12/87] fix: bit slices with a computed bound could not be
 defined

---
 src/infi/instruct/buffer/reference/range.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 212c38f..3b983cd 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -132,9 +132,12 @@ class BitNumericRangeReference(BitRangeReference):
 class BitSliceRangeReference(BitRangeReference):
     def __init__(self, parent_range_ref, slic):
         assert slic.step in (1, None)
-        assert slic.start is None or slic.start >= 0
-        assert slic.stop is None or slic.stop >= 0
-        assert (slic.start is None or slic.stop is None) or (slic.start <= slic.stop)
+        assert slic.start is None or Reference.is_numeric_ref(slic.start) or slic.start >= 0
+        assert slic.stop is None or Reference.is_numeric_ref(slic.stop) or slic.stop >= 0
+        assert ((slic.start is None or slic.stop is None)
+                or Reference.is_numeric_ref(slic.start)
+                or Reference.is_numeric_ref(slic.stop)
+                or (slic.start <= slic.stop))
 
         super(BitSliceRangeReference, self).__init__(parent_range_ref)
         self.start = Reference.to_ref(slic.start)
-- 
2.43.0


From d147e390f48e7439b8c3178c2a215efc285d0418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 13/87] fix: big endian integers of 3, 5, 6, 7 and over 8 bytes
 were packed and unpacked in little endian order

---
 src/infi/instruct/buffer/serialize.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 0194088..40c161a 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -52,10 +52,17 @@ ENDIAN_NAME_TO_FORMAT = {'unspecified': '@', 'native': '=', 'big': '>', 'little'
 #
 
 
+def is_big_endian_bit_int(byte_size, endian='native', **kwargs):
+    # Byte order has a meaning only for whole bytes, other sizes start from the least significant bit.
+    return int(byte_size) == byte_size and (byteorder if endian in ('native', 'unspecified') else endian) == 'big'
+
+
 def pack_bit_int(value, byte_size, **kwargs):
     assert byte_size is not None
     result = BitAwareByteArray(bytearray(int(math.ceil(byte_size))), 0, byte_size)
     result[0:] = value
+    if is_big_endian_bit_int(byte_size, **kwargs):
+        result = BitAwareByteArray(bytearray(reversed(result)))
     return result
 
 
@@ -90,8 +97,8 @@ def pack_int(value, **kwargs):
 
 def unpack_bit_int(buffer, byte_size, **kwargs):
     result = 0
-    l = reversed(buffer[0:byte_size]) if kwargs.get("endian", "big") else buffer[0:byte_size]
-    for b in l:
+    l = buffer[0:byte_size]
+    for b in (l if is_big_endian_bit_int(byte_size, **kwargs) else reversed(l)):
         result *= 256
         result += b
     return result, byte_size
-- 
2.43.0


From d342ecf8a05900805011399f84233a3ab807aa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 14/87] fix: 8-byte floats could not be unpacked

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 40c161a..2474ce2 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -172,7 +172,7 @@ def unpack_float(buffer, **kwargs):
 
 STRUCT_FLOAT_UNPACKERS = {
     4: keep_kwargs_partial(unpack_struct_float, format_char='f'),
-    8: keep_kwargs_partial(unpack_struct_float, format_char='q')
+    8: keep_kwargs_partial(unpack_struct_float, format_char='d')
 }
 
 
-- 
2.43.0


From 03ed69cd8e606ad5fed1e70cc27c88f7e74aca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:38 +0000
Subject: [PATCH 15/87] fix: values that are not integers were stored as raw
 bytes in integer fields of a non-standard size

---
 src/infi/instruct/buffer/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 2474ce2..9741e3d 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -1,4 +1,5 @@
 import math
+import operator
 import struct
 import json
 from sys import byteorder
@@ -60,7 +61,7 @@ def is_big_endian_bit_int(byte_size, endian='native', **kwargs):
 def pack_bit_int(value, byte_size, **kwargs):
     assert byte_size is not None
     result = BitAwareByteArray(bytearray(int(math.ceil(byte_size))), 0, byte_size)
-    result[0:] = value
+    result[0:] = operator.index(value)
     if is_big_endian_bit_int(byte_size, **kwargs):
         result = BitAwareByteArray(bytearray(reversed(result)))
     return result
-- 
2.43.0


From b59d6ebe9a7da95d1366be40bcd9fcd0921bd4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 16/87] fix: str_type and str_type_factory defaults failed in
 Python 3

---
 src/infi/instruct/buffer/macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 9159fa0..04660dc 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -67,7 +67,7 @@ self_ref = SelfProxy()
 input_buffer_length = InputBufferLengthReference()
 
 
-def str_type_factory(encoding='ascii', padding=' ', strip='\x00', justify='left', byte_size=None):
+def str_type_factory(encoding='ascii', padding=b' ', strip=b'\x00', justify='left', byte_size=None):
     kwargs = dict(encoding=encoding, padding=padding, strip=strip, justify=justify)
     if byte_size:
         kwargs['byte_size'] = byte_size
-- 
2.43.0


From 4ae5540b14ed75590a187d81304b81648aac781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 17/87] fix: unpacking a list of fixed size strings returned
 only its first element

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 9741e3d..0983d39 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -224,7 +224,7 @@ def unpack_str(buffer, **kwargs):
         else:  # center
             value = value.strip(strip).strip(padding)
     value = value.decode(args['encoding'])
-    return value, len(buffer)
+    return value, len(buffer) if byte_size is None else byte_size
 
 
 def pack_json(value, **kwargs):
-- 
2.43.0


From 809781d7ded13b33bf24a338060ac0bf0d0d7025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 18/87] fix: buffer_field with byte_size could not be unpacked

---
 src/infi/instruct/buffer/macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 04660dc..9bb7803 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -276,7 +276,7 @@ def buffer_field(type,
                                     default=default)
     marshal_kwargs = dict(type=type)
     if byte_size:
-        marshal_kwargs = dict(byte_size=byte_size)
+        marshal_kwargs['byte_size'] = byte_size
     builder.set_packer(pack_buffer, **marshal_kwargs)
     unpack = unpack_selector_decorator(unpack_selector) if unpack_selector else unpack_buffer
     builder.set_unpacker(unpack, **marshal_kwargs)
-- 
2.43.0


From aa995dab64c691a6153bc2d8068211672eb3909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 19/87] fix: lists of buffers that end inside a byte were
 unpacked from wrong offsets

---
 src/infi/instruct/buffer/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 0983d39..f82fb3b 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -305,6 +305,7 @@ def unpack_list(buffer, elem_unpacker, **kwargs):
         unpacker_kwargs = copy_and_remove_kwargs(kwargs, ('buffer', 'n', 'index', 'container'))
         item, item_len = elem_unpacker(buffer[offset:byte_size], index=index, n=n, container=result, **unpacker_kwargs)
         result.append(item)
-        offset += item_len
+        # Buffers are packed to whole bytes even if their last field ends inside a byte.
+        offset += math.ceil(item_len) if isinstance(type(item), BufferType) else item_len
         index += 1
     return result, offset
-- 
2.43.0


From 9bf291c4b191a65b27f5c941eb78ec87e28fe6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 20/87] fix: the value of set_after_unpack was never set on the
 object

---
 src/infi/instruct/buffer/field_reference_builder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 49badfb..d8749a7 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -223,11 +223,13 @@ class FieldReferenceBuilder(object):
         if self.set_after_unpack is not None:
             if not isinstance(self.set_after_unpack, Reference):
                 unpack_value_ref = FuncCallReference(self.numeric, self.set_after_unpack, field_unpack_ref)
+            else:
+                unpack_value_ref = self.set_after_unpack
         else:
-            unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref, self.field.attr_name_ref,
-                                                   field_unpack_ref)
+            unpack_value_ref = field_unpack_ref
 
-        self.field.unpack_value_ref = unpack_value_ref
+        self.field.unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref,
+                                                          self.field.attr_name_ref, unpack_value_ref)
 
     def set_field_unpack_after(self):
         if self.unpack_after is None:
-- 
2.43.0


From 6dda2824fa515548f2de3c04805f390b982eaa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 21/87] fix: the size of a buffer class did not include
 inherited fields

---
 src/infi/instruct/buffer/buffer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 895710a..92b7ac5 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -62,8 +62,9 @@ class BufferType(type):
                 attr.init(attr_name)
                 fields.append(attr)
 
-        setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs else cls.calc_byte_size(name, fields))
         setattr(new_cls, '__fields__', fields)
+        setattr(new_cls, 'byte_size', (attrs['byte_size'] if 'byte_size' in attrs
+                                       else cls.calc_byte_size(name, new_cls._all_fields())))
         return new_cls
 
     @classmethod
@@ -150,13 +151,14 @@ class Buffer(object):
         Returns this instance's size. If the size has to be calculated it may require packing some of the fields.
         """
         if ctx is None:
-            ctx = PackContext(self, type(self).__fields__)
+            ctx = PackContext(self, self._all_fields())
         return TotalSizeReference().deref(ctx)
 
-    def _all_fields(self):
+    @classmethod
+    def _all_fields(cls):
         fields = []
-        for cls in type(self).mro():
-            cls_fields = getattr(cls, '__fields__', [])
+        for base_cls in cls.mro():
+            cls_fields = getattr(base_cls, '__fields__', [])
             fields.extend(cls_fields)
         return fields
 
-- 
2.43.0


From c182fa77c8e9c32144931aceb840f59b1ba2090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 22/87] fix: a buffer class that redefines an inherited field
 still packed and unpacked the original field

---
 src/infi/instruct/buffer/buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 92b7ac5..7e8a9be 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -159,7 +159,8 @@ class Buffer(object):
         fields = []
         for base_cls in cls.mro():
             cls_fields = getattr(base_cls, '__fields__', [])
-            fields.extend(cls_fields)
+            names = set(field.attr_name() for field in fields)
+            fields.extend(field for field in cls_fields if field.attr_name() not in names)
         return fields
 
     def _all_field_names(self):
-- 
2.43.0


From f3fd36b2017abbc17587915f3f2da5fd7734df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 23/87] fix: repr of a buffer did not show inherited fields

---
 src/infi/instruct/buffer/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 7e8a9be..bf292a6 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -167,6 +167,6 @@ class Buffer(object):
         return set(field.attr_name() for field in self._all_fields())
 
     def __repr__(self):
-        fields = type(self).__fields__
+        fields = self._all_fields()
         repr_fields = ["{0}={1!r}".format(field.attr_name(), getattr(self, field.attr_name())) for field in fields]
         return "{0}.{1}({2})".format(type(self).__module__, type(self).__name__, ", ".join(repr_fields))
-- 
2.43.0


From 4733cf0a5b4932f99153b02f7d0e8fffc5d0b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 24/87] fix: mutable defaults of buffer fields were shared
 between instances

---
 src/infi/instruct/buffer/buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index bf292a6..f6cfe6a 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -1,3 +1,4 @@
+import copy
 import math
 import itertools
 from six import add_metaclass
@@ -98,7 +99,7 @@ class Buffer(object):
         # Set to default all fields that don't have a value (we know that since they're still FieldReference objects)
         for field in self._all_fields():
             if isinstance(getattr(self, field.attr_name()), FieldReference):
-                setattr(self, field.attr_name(), field.default)
+                setattr(self, field.attr_name(), copy.deepcopy(field.default))
 
     def pack(self):
         """Packs the object and returns a buffer representing the packed object."""
-- 
2.43.0


From feebe5169c34d660e001b9205b4b4fd22e92e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 25/87] fix: total_size of a packed buffer counted fields that
 pack_if excludes

---
 src/infi/instruct/buffer/reference/total_size.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 160d9dc..a5b97d8 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -16,7 +16,8 @@ class TotalSizeReference(Reference):
             return size
 
         if ctx.is_pack():
-            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields]
+            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields
+                     if field.pack_if.deref(ctx)]
             positions = SequentialRangeList(itertools.chain(*lists))
             result = positions.max_stop()  # total_size calculation
         else:
-- 
2.43.0


From 2f0ac905700883def54efb90e85158f429413820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 26/87] fix: the size of an unpacked buffer was wrong if the
 last range of a position is not the highest

---
 src/infi/instruct/buffer/reference/total_size.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index a5b97d8..1289e97 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -3,6 +3,7 @@ import itertools
 from infi.instruct.buffer.range import SequentialRangeList
 
 from .reference import Reference
+from .after_field import AfterFieldReference
 
 
 class TotalSizeReference(Reference):
@@ -22,8 +23,8 @@ class TotalSizeReference(Reference):
             result = positions.max_stop()  # total_size calculation
         else:
             # For each field we do the following and then take the maximum:
-            #   We fetch the field's unpack size from unpack_ref (should already be cached).
-            #   We then fetch the field's absolute position and calculate the byte offset from that.
+            #   We fetch the field's absolute position and calculate the highest byte offset from that, using the
+            #   field's unpack size (should already be cached) if the position is open.
             result = max(self._unpack_position_list_for_field(ctx, field) for field in ctx.fields)
 
         assert result is not None
@@ -31,9 +32,7 @@ class TotalSizeReference(Reference):
 
     def _unpack_position_list_for_field(self, ctx, field):
         if field.unpack_if.deref(ctx):
-            _, size = field.unpack_ref.deref(ctx)
-            result = field.unpack_absolute_position_ref.deref(ctx).byte_offset(size)
-            return result
+            return AfterFieldReference(field).deref(ctx)
         else:
             return 0
 
-- 
2.43.0


From 7507c02b8426c6c74e01b89452ce3e863e240a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 27/87] fix: unpacking truncated data was accepted by integer,
 bytearray, list and bit fields

---
 src/infi/instruct/buffer/io_buffer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 309775c..ee800cf 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -2,6 +2,8 @@ import math
 from .._compat import is_string_or_bytes, range, PY2, abc
 from six import integer_types
 
+from ..errors import NotEnoughDataError
+
 
 def float_to_byte_bit_pair(n):
     return (int(n), int((n - int(n)) * 8))
@@ -276,6 +278,10 @@ class InputBuffer(object):
             self.buffer = BitView(buffer)
 
     def get(self, range_list):
+        for range in range_list:
+            if not range.is_open() and range.stop > self.buffer.length():
+                raise NotEnoughDataError(range.stop, self.buffer.length())
+
         if len(range_list) == 1:
             # Shortcut: if it's a simple range we can just return a subset of the bit view.
             range = range_list[0]
-- 
2.43.0


From c50d39c95d719b547df5ce4388efe4f248f0a4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 28/87] fix: a position after a field that pack_if or unpack_if
 excludes depended on the excluded field's value

---
 src/infi/instruct/buffer/reference/after_field.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/after_field.py b/src/infi/instruct/buffer/reference/after_field.py
index 99196ff..efbbe43 100644
--- a/src/infi/instruct/buffer/reference/after_field.py
+++ b/src/infi/instruct/buffer/reference/after_field.py
@@ -10,7 +10,9 @@ class AfterFieldReference(Reference):
 
     def evaluate(self, ctx):
         offset = None
-        if ctx.is_pack():
+        if self._is_skipped_and_open(ctx):
+            offset = self._position_ref(ctx).deref(ctx).sorted().byte_offset(0)
+        elif ctx.is_pack():
             offset = SequentialRangeList(self.field_ref.pack_absolute_position_ref.deref(ctx)).max_stop()
         else:
             # This is a bit more tricky, since unpack_absolute_position_ref returns the length for the rest of the
@@ -26,5 +28,16 @@ class AfterFieldReference(Reference):
                 offset = self.field_ref.unpack_absolute_position_ref.deref(ctx).max_stop()
         return offset
 
+    def _is_skipped_and_open(self, ctx):
+        # A field that's not packed or unpacked has no size, so if its position is open it ends where it starts.
+        should_process_ref = self.field_ref.pack_if if ctx.is_pack() else self.field_ref.unpack_if
+        return not should_process_ref.deref(ctx) and self._position_ref(ctx).deref(ctx).is_open()
+
+    def _position_ref(self, ctx):
+        if ctx.is_pack():
+            return self.field_ref.pack_absolute_position_ref.pack_position_ref
+        else:
+            return self.field_ref.unpack_absolute_position_ref.unpack_position_ref
+
     def __safe_repr__(self):
         return "after({0})".format(self.field_ref.attr_name_ref.deref(Context()))
-- 
2.43.0


From 3d7507bc3e134dd1975e86b20ab9b7b394072609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 29/87] fix: the struct adapter failed for buffers that end
 inside a byte and accepted short reads

---
 src/infi/instruct/buffer/compat.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/compat.py b/src/infi/instruct/buffer/compat.py
index aa8ebea..1f2c7bf 100644
--- a/src/infi/instruct/buffer/compat.py
+++ b/src/infi/instruct/buffer/compat.py
@@ -1,4 +1,8 @@
+import math
+
 from .._compat import PY2
+from ..errors import NotEnoughDataError
+
 
 class StructTypeAdapter(object):
     def __init__(self, buffer_type):
@@ -18,7 +22,10 @@ class StructTypeAdapter(object):
 
     def create_from_stream(self, stream, context=None, *args, **kwargs):
         if self.buffer_type.byte_size is not None:
-            packed_data = stream.read(self.buffer_type.byte_size)
+            byte_size = int(math.ceil(self.buffer_type.byte_size))
+            packed_data = stream.read(byte_size)
+            if len(packed_data) < byte_size:
+                raise NotEnoughDataError(expected=byte_size, actually_read=len(packed_data))
             result = self.buffer_type()
             result.unpack(packed_data)
             return result
-- 
2.43.0


From 62e3f3f94eb54d62f2555174e4ba476882fb1c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 30/87] fix: floats too big for their type raised OverflowError
 instead of InstructError

---
 src/infi/instruct/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/numeric.py b/src/infi/instruct/numeric.py
index c7af8e3..3afb589 100644
--- a/src/infi/instruct/numeric.py
+++ b/src/infi/instruct/numeric.py
@@ -29,7 +29,7 @@ class NumericMarshal(FixedSizer, Marshal):
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         try:
             stream.write(struct.pack(self.format_string, obj))
-        except struct.error:
+        except (struct.error, OverflowError):
             raise chain_exceptions(InstructError("Packing error occurred"))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From 557ac5d50b4b3d08bd19342185a0f2cdf5719f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 31/87] fix: structs with numeric fields could not be parsed
 with arguments for their constructor

---
 src/infi/instruct/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/numeric.py b/src/infi/instruct/numeric.py
index 3afb589..d57c5cb 100644
--- a/src/infi/instruct/numeric.py
+++ b/src/infi/instruct/numeric.py
@@ -17,7 +17,7 @@ class NumericMarshal(FixedSizer, Marshal):
         self.type = type
         self.size = struct.calcsize(format_string)
 
-    def create_from_stream(self, stream, context=EMPTY_CONTEXT):
+    def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         packed_value = stream.read(self.size)
         if len(packed_value) < self.size:
             raise NotEnoughDataError(expected=self.size, actually_read=len(packed_value))
-- 
2.43.0


From 7db08d88d54480593a13555247eebc6f44b151e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 32/87] fix: truncated byte padding was accepted

---
 src/infi/instruct/padding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/padding.py b/src/infi/instruct/padding.py
index 31c4c09..f278b2d 100644
--- a/src/infi/instruct/padding.py
+++ b/src/infi/instruct/padding.py
@@ -1,4 +1,5 @@
 from .base import FixedSizer, Marshal, EMPTY_CONTEXT
+from .errors import NotEnoughDataError
 
 class BytePaddingMarshal(FixedSizer, Marshal):
     def __init__(self, size, char=b"\x00"):
@@ -11,7 +12,9 @@ class BytePaddingMarshal(FixedSizer, Marshal):
         stream.write(self.char * self.size)
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        stream.read(self.size)
+        data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "<%d bytes padding>" % (self.size,)
-- 
2.43.0


From 0e9f47960dd1081123d979ef6f46f5a9a668fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 33/87] fix: fixed size strings and buffers did not pad on the
 left and wrote more bytes than their size

---
 src/infi/instruct/string.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 21e88a5..a9e41fa 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -1,6 +1,5 @@
 from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax
 from .errors import InstructError, InvalidValueError
-from ._compat import pad
 
 PADDING_DIRECTION_NONE  = 0
 PADDING_DIRECTION_RIGHT = 1
@@ -25,9 +24,9 @@ def _pad(obj, size, dir, padding):
         return obj
 
     if dir == PADDING_DIRECTION_RIGHT or dir == PADDING_DIRECTION_BOTH:
-        return obj + padding[0] * pad_len
+        return obj + padding[0:1] * pad_len
     elif dir == PADDING_DIRECTION_LEFT:
-        return (padding[0] * pad_len) + obj
+        return (padding[0:1] * pad_len) + obj
     else:
         # PADDING_DIRECTION_NONE
         raise InvalidValueError("no padding specified but item length %d is smaller than required length %d (item=%s)" %
@@ -69,9 +68,7 @@ class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         stripped_obj = _strip(obj, self.padding_direction, self.padding)
-        stream.write(stripped_obj)
-        if len(stripped_obj) < self.size:
-            stream.write(pad(self.padding[0], (self.size - len(stripped_obj))))
+        stream.write(_pad(stripped_obj, self.size, self.padding_direction, self.padding))
 
 class VarSizeBufferMarshal(VarSizeStringMarshal):
     def __init__(self, size_marshal):
-- 
2.43.0


From 3aa04de253fdeb284051bd9af134ed49ecb6e100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 34/87] fix: the default padding of VarSizeString failed in
 Python 3

---
 src/infi/instruct/string_macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/string_macros.py b/src/infi/instruct/string_macros.py
index 3309aca..0b68149 100644
--- a/src/infi/instruct/string_macros.py
+++ b/src/infi/instruct/string_macros.py
@@ -6,7 +6,7 @@ def PaddedString(name, size, padding=b"\x00", padding_direction=PADDING_DIRECTIO
         assert len(default) <= size
     return Field(name, PaddedStringMarshal(size, padding, padding_direction), default)
 
-def VarSizeString(name, size_marshal, padding="\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
+def VarSizeString(name, size_marshal, padding=b"\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
     return Field(name, VarSizeStringMarshal(size_marshal, padding, padding_direction), default)
 
 # Backward compatibility
-- 
2.43.0


From 04d1850599a69a3fddc2efcedd18b80da658f49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 35/87] fix: a negative length read all the data that's left in
 the stream

---
 src/infi/instruct/array.py  | 3 +++
 src/infi/instruct/string.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index ca176ba..1ac51ce 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,4 +1,5 @@
 from ._compat import range
+from .errors import InstructError
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
 
 class ArrayBase(object):
@@ -23,6 +24,8 @@ class VarSizeArrayMarshal(ArrayBase, Marshal):
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         size = self.size_marshal.create_from_stream(stream, context, *args, **kwargs)
+        if size < 0:
+            raise InstructError("expected the number of elements but read a negative number %d" % (size,))
         obj = []
         for i in range(size):
             obj.append(self.element_marshal.create_from_stream(stream, context, *args, **kwargs))
diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index a9e41fa..d75daca 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -41,6 +41,8 @@ class VarSizeStringMarshal(Marshal):
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         buffer_len = self.size_marshal.create_from_stream(stream, context)
+        if buffer_len < 0:
+            raise InstructError("Expected a length but read a negative number %d" % (buffer_len,))
         obj = stream.read(buffer_len)
         if len(obj) < buffer_len:
             raise InstructError("Expected to read %d bytes from stream but read only %d" % (buffer_len, len(obj)))
-- 
2.43.0


From 0f86b4adff7f82e6a1bcc9c2f92819588d321572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 36/87] fix: fixed size arrays wrote any number of elements

---
 src/infi/instruct/array.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 1ac51ce..5713457 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,5 +1,5 @@
 from ._compat import range
-from .errors import InstructError
+from .errors import InstructError, InvalidValueError
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
 
 class ArrayBase(object):
@@ -44,6 +44,11 @@ class FixedSizeArrayMarshal(VarSizeArrayMarshal):
         super(FixedSizeArrayMarshal, self).__init__(ConstReader(size), element_marshal)
         self.size = size
 
+    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
+        if len(obj) != self.size:
+            raise InvalidValueError("array is expected to have %d elements but instead got %d" % (self.size, len(obj)))
+        super(FixedSizeArrayMarshal, self).write_to_stream(obj, stream, context)
+
     def min_max_sizeof(self):
         element_min_max = self.element_marshal.min_max_sizeof()
         return MinMax(element_min_max.min * self.size, element_min_max.max * self.size)
-- 
2.43.0


From da3331df14a84c0a1dc8802cf5d3a5d396ed5e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 37/87] fix: SumSizeArray could not be parsed from streams that
 don't support tell

---
 src/infi/instruct/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 5713457..d58bff3 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -67,7 +67,7 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
             element_size = stream.tell() if has_tell else 0
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
-            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(elemen)
+            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(element)
             total_bytes -= element_size
         assert total_bytes == 0
         return obj
-- 
2.43.0


From 036153ccf04134a773bf792ac875a123c3d774ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 38/87] fix: ReadAheadStream.write always failed

---
 src/infi/instruct/utils/read_ahead_stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/utils/read_ahead_stream.py b/src/infi/instruct/utils/read_ahead_stream.py
index b569d41..404d64f 100644
--- a/src/infi/instruct/utils/read_ahead_stream.py
+++ b/src/infi/instruct/utils/read_ahead_stream.py
@@ -29,6 +29,6 @@ class ReadAheadStream(object):
     def write(self, buf):
         if len(self.buffer) > 0:
             raise IOError("cannot write while there are still bytes in the read-ahead buffer")
-        if self.read_ahead:
+        if self.read_ahead_mode:
             raise IOError("cannot write while in read-ahead mode")
         return self.stream.write(buf)
-- 
2.43.0


From 8a7812684ffa180fdc0774df3f734267b4d98662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 39/87] fix: StructSelector ignored its mapping

---
 src/infi/instruct/struct/selector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index 8d913ca..d6d6d1f 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -12,9 +12,9 @@ class StructSelectorMarshal(Marshal):
         self.mapping = {}
         self.default = default
 
-        for key, struct in self.mapping:
-            if not isinstance(struct, Struct):
-                raise ValueError("mapping key %s must be a subclass of Struct" % key)
+        for key, struct in mapping.items():
+            if not (isinstance(struct, type) and issubclass(struct, Struct)):
+                raise ValueError("mapping key %s must be a subclass of Struct" % (key,))
             self.mapping[key] = struct
 
         structs = values_list(mapping) + ([self.default] if self.default is not None else [])
-- 
2.43.0


From 9cc7a2a74b47b1e59aed027c6ebaf53651f4f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 40/87] fix: the size bounds of StructSelector were the sum of
 the sizes of its structs

---
 src/infi/instruct/struct/selector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index d6d6d1f..a8fdefc 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -1,4 +1,4 @@
-from ..base import Marshal, MinMax, ZERO_MIN_MAX, UNBOUNDED_MIN_MAX, EMPTY_CONTEXT
+from ..base import Marshal, MinMax, UNBOUNDED_MIN_MAX, EMPTY_CONTEXT
 from ..errors import InstructError
 from ..utils.read_ahead_stream import ReadAheadStream
 from .._compat import values_list
@@ -19,7 +19,8 @@ class StructSelectorMarshal(Marshal):
 
         structs = values_list(mapping) + ([self.default] if self.default is not None else [])
 
-        self.min_max_size = sum([struct.min_max_sizeof() for struct in structs], ZERO_MIN_MAX)
+        min_maxes = [struct.min_max_sizeof() for struct in structs]
+        self.min_max_size = MinMax(min(min_max.min for min_max in min_maxes), max(min_max.max for min_max in min_maxes))
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         type(obj).write_to_stream(obj, stream, context)
-- 
2.43.0


From 610902e21af83dbed4bf932ede633234de7b0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 41/87] fix: wrong error when a struct selected by function
 doesn't use the read-ahead bytes

---
 src/infi/instruct/struct/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index a8fdefc..a1d8178 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -75,7 +75,7 @@ class FuncStructSelectorMarshal(Marshal):
         result = reader.create_from_stream(rstream, context, *args, **kwargs)
         if not rstream.is_read_ahead_empty():
             raise InstructError("deserialized object %s but still have bytes in read-ahead buffer" %
-                                (result.to_repr(context),))
+                                (self.to_repr(result, context),))
         return result
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From 1160e4b95d9b212d23c7cc2a22d542fba6f1c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 42/87] fix: strings and arrays with a length from another
 field were reported as having no size

---
 src/infi/instruct/array.py  | 5 ++---
 src/infi/instruct/base.py   | 8 ++++++++
 src/infi/instruct/string.py | 4 ++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index d58bff3..f84dcc8 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,14 +1,13 @@
 from ._compat import range
 from .errors import InstructError, InvalidValueError
-from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
+from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer, max_value_by_size
 
 class ArrayBase(object):
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "[ " + ", ".join([self.element_marshal.to_repr(element, context) for element in obj]) + " ]"
 
     def _approx_max_elements_by_size_bits(self):
-        size_min_max = self.size_marshal.min_max_sizeof()
-        return (1 << (size_min_max.max * 8)) - 1
+        return max_value_by_size(self.size_marshal)
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
diff --git a/src/infi/instruct/base.py b/src/infi/instruct/base.py
index df34e2a..a14ce77 100644
--- a/src/infi/instruct/base.py
+++ b/src/infi/instruct/base.py
@@ -89,6 +89,14 @@ class MinMax(collections.namedtuple('MinMax', 'min max')):
 UNBOUNDED_MIN_MAX = MinMax(0, sys.maxsize)
 ZERO_MIN_MAX = MinMax(0, 0)
 
+def max_value_by_size(size_marshal):
+    """
+    :returns: the maximum length a marshal that's used to read a length may return, according to its size.
+    """
+    size = size_marshal.min_max_sizeof().max
+    # Marshals with no size don't read their value from the stream, so the value isn't bounded by their size.
+    return (1 << (size * 8)) - 1 if 0 < size < 8 else sys.maxsize
+
 class MarshalBase(object):
     def sizeof(self, obj):
         raise NotImplementedError()
diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index d75daca..31d855e 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -1,4 +1,4 @@
-from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax
+from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax, max_value_by_size
 from .errors import InstructError, InvalidValueError
 
 PADDING_DIRECTION_NONE  = 0
@@ -61,7 +61,7 @@ class VarSizeStringMarshal(Marshal):
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
-        return MinMax(size_min_max.min, size_min_max.max + (1 << (size_min_max.max * 8)) - 1)
+        return MinMax(size_min_max.min, size_min_max.max + max_value_by_size(self.size_marshal))
 
 class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
     def __init__(self, size, padding=b'\x00', padding_direction=PADDING_DIRECTION_RIGHT):
-- 
2.43.0


From 7cc3ce7f7a51e6d372637a48eb779f9ec43f161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 43/87] fix: Struct.sizeof(obj) failed and the size of a
 derived object was computed by its base class fields

---
 src/infi/instruct/struct/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 7e08aab..28c2281 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -186,6 +186,7 @@ class Struct(object):
 
     @classmethod
     def sizeof(cls, obj):
+        cls = type(obj) if isinstance(obj, Struct) else cls
         return cls._container_.sizeof(obj)
 
     @classmethod
-- 
2.43.0


From 94f3ea68443260eb40baec4429bbf075deb9519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 44/87] fix: references to fields in nested structs and in
 structs with _context_ used the wrong struct

---
 src/infi/instruct/struct/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 28c2281..5e30e3c 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -221,8 +221,9 @@ class Struct(object):
         if hasattr(cls, '_context_'):
             new_context = WritableContext(cls._context_.copy())
         else:
-            new_context = WritableContext(dict(struct=obj))
+            new_context = WritableContext()
         new_context.update(context.get_dict())
+        new_context.put('struct', obj)
         return new_context
 
     def to_bytes(self):
-- 
2.43.0


From 9b1e43ae68a638b209169b32a9cf907edf5e42ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 45/87] fix: mutable default values of struct fields were
 shared between instances

---
 src/infi/instruct/struct/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 5e30e3c..4bbc1ba 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -1,3 +1,4 @@
+import copy
 from array import array
 from .._compat import StringIO, PY2
 from six import add_metaclass
@@ -5,9 +6,6 @@ from six import add_metaclass
 from ..base import MarshalBase, WritableContext, EMPTY_CONTEXT, ZERO_MIN_MAX
 from ..errors import StructNotWellDefinedError
 
-def copy_if_supported(obj):
-    return obj.copy() if hasattr(obj, 'copy') else obj
-
 class FieldMarshal(MarshalBase):
     def prepare_class(self, cls):
         pass
@@ -64,7 +62,7 @@ class Field(FieldBase):
         if self.name in kwargs:
             setattr(obj, self.name, kwargs.pop(self.name))
         elif not hasattr(obj, self.name):
-            setattr(obj, self.name, copy_if_supported(self.default))
+            setattr(obj, self.name, copy.deepcopy(self.default))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "%s=%s" % (self.name, super(Field, self).to_repr(obj, context))
-- 
2.43.0


From 8520efe3a53f72c6d7e6a317c5dd49727b616b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 46/87] fix: keyword-only arguments of a struct's constructor
 that are also field names were lost

---
 src/infi/instruct/struct/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 4bbc1ba..07d9c0b 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -153,7 +153,9 @@ class StructType(type):
                 # This solves STORAGEMODEL-146, because ASI defines Read10Command(logical_block_address, ...)
                 # and logical_block_address is also a field in the struct, so in this scenario instruct will
                 # "eat" the arg and we need to put it back.
-                for arg in user_init.__code__.co_varnames[0:user_init.__code__.co_argcount]:
+                code = user_init.__code__
+                arg_count = code.co_argcount + getattr(code, 'co_kwonlyargcount', 0)
+                for arg in code.co_varnames[0:arg_count]:
                     if arg in orig_kwargs:
                         kwargs[arg] = orig_kwargs[arg]
                 user_init(self, *args, **kwargs)
-- 
2.43.0


From 81a9d794515e72bb42632dff9f0c478f6994a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 47/87] fix: repr of a struct failed if some of its fields were
 not set

---
 src/infi/instruct/struct/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 07d9c0b..aacfac1 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -65,7 +65,8 @@ class Field(FieldBase):
             setattr(obj, self.name, copy.deepcopy(self.default))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-        return "%s=%s" % (self.name, super(Field, self).to_repr(obj, context))
+        value_repr = super(Field, self).to_repr(obj, context) if self.get_value(obj) is not None else "<not set>"
+        return "%s=%s" % (self.name, value_repr)
 
     def get_value(self, obj):
         return getattr(obj, self.name, self.default)
-- 
2.43.0


From edc37024349a6cd70fdc6f85bba19a67800acc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 48/87] fix: bit fields silently dropped the high bits of
 values that don't fit

---
 src/infi/instruct/struct/bit.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/bit.py b/src/infi/instruct/struct/bit.py
index c8e62a8..53b0f8b 100644
--- a/src/infi/instruct/struct/bit.py
+++ b/src/infi/instruct/struct/bit.py
@@ -1,8 +1,12 @@
 from . import FieldListContainer
 from ..base import FixedSizer, Marshal, MinMax, EMPTY_CONTEXT
-from ..errors import InstructError, BitFieldNotInByteBoundry, FieldTypeNotSupportedError
+from ..errors import InstructError, BitFieldNotInByteBoundry, FieldTypeNotSupportedError, InvalidValueError
 from ..utils.bitstringio import BitStringIO
 
+def check_bit_value(value, size):
+    if value < 0 or value >= (1 << size):
+        raise InvalidValueError("value %d doesn't fit in %d bits" % (value, size))
+
 class BitMarshal(FixedSizer, Marshal):
     def __init__(self, size):
         super(BitMarshal, self).__init__()
@@ -12,6 +16,7 @@ class BitMarshal(FixedSizer, Marshal):
         return stream.read(self.size)
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
+        check_bit_value(obj, self.size)
         stream.write(obj, self.size)
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
@@ -68,6 +73,7 @@ class PositionalBitMarshal(FixedSizer, Marshal):
         return value
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
+        check_bit_value(obj, self.size)
         for s in self.slices:
             stream.seek(s.start)
             slice_size = s.stop - s.start
-- 
2.43.0


From 32868fd522c33ffa21dc5407f39ec9b9fd33067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 49/87] fix: writing over bits in a bit stream kept old bits
 that were set

---
 src/infi/instruct/utils/bitstringio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/utils/bitstringio.py b/src/infi/instruct/utils/bitstringio.py
index f81f2af..bd9bd6c 100644
--- a/src/infi/instruct/utils/bitstringio.py
+++ b/src/infi/instruct/utils/bitstringio.py
@@ -22,14 +22,14 @@ class BitStringIO(object):
         if bit_i != 0:
             chunk_to_write = min(8 - bit_i, bits_to_write)
             bitmask = (1 << chunk_to_write) - 1
-            self.value[byte_i] |= (value & bitmask) << bit_i
+            self.value[byte_i] = (self.value[byte_i] & ~(bitmask << bit_i)) | ((value & bitmask) << bit_i)
             byte_i += 1
             bits_written = chunk_to_write
 
         for n in range(bits_written, bits_to_write, 8):
             chunk_to_write = min(8, bits_to_write - n)
             bitmask = (1 << chunk_to_write) - 1
-            self.value[byte_i] |= (value >> n) & bitmask
+            self.value[byte_i] = (self.value[byte_i] & ~bitmask) | ((value >> n) & bitmask)
             byte_i += 1
 
         self.position += bits_to_write
-- 
2.43.0


From 53bd5271596aaa113b015df1aef9b4588021f19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 50/87] fix: a failed seek moved the bit stream outside its
 bits

---
 src/infi/instruct/utils/bitstringio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/utils/bitstringio.py b/src/infi/instruct/utils/bitstringio.py
index bd9bd6c..80bf718 100644
--- a/src/infi/instruct/utils/bitstringio.py
+++ b/src/infi/instruct/utils/bitstringio.py
@@ -59,5 +59,5 @@ class BitStringIO(object):
         return result
 
     def seek(self, position):
+        assert position >= 0 and ((position // 8) < len(self.value))
         self.position = position
-        assert self.position >= 0 and ((self.position // 8) < len(self.value))
-- 
2.43.0


From 0461652deb170abed9721828327de417890e12d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 51/87] fix: constant fields of a struct type could not be
 parsed

---
 src/infi/instruct/struct/const.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/struct/const.py b/src/infi/instruct/struct/const.py
index 07dbad5..691ad64 100644
--- a/src/infi/instruct/struct/const.py
+++ b/src/infi/instruct/struct/const.py
@@ -1,4 +1,4 @@
-from . import Field
+from . import Field, Struct
 from ..base import EMPTY_CONTEXT
 from ..errors import InstructError
 
@@ -17,11 +17,17 @@ class ConstField(Field):
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         value = self.marshal.create_from_stream(stream, context, *args, **kwargs)
-        if value != self.value:
+        if not self._is_const_value(value):
             raise InstructError("constant field %s of class %s should have the value %s but instead got %s" %
                                 (self.name, type(obj), self.marshal.to_repr(self.value, context),
                                  self.marshal.to_repr(value, context)))
 
+    def _is_const_value(self, value):
+        if isinstance(value, Struct):
+            # Structs are equal if they have the same type and their fields serialize to the same bytes.
+            return type(value) == type(self.value) and value.to_bytes() == self.value.to_bytes()
+        return value == self.value
+
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "%s (const)" % super(ConstField, self).to_repr(obj, context)
 
@@ -35,6 +41,6 @@ class ConstField(Field):
         return self.value
 
     def __set__(self, obj, value):
-        if value != self.value:
+        if not self._is_const_value(value):
             raise InstructError("trying to set a new value (%s) to const field %s of class %s" %
                                 (value, self.name, type(obj)))
-- 
2.43.0


From bb6717e3b75934a5221820e50b4d71c2dd081d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 52/87] fix: lazy fields had no default values

---
 src/infi/instruct/struct/lazy.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 0a820c2..a013866 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -5,17 +5,13 @@ from ..base import FixedSizer, EMPTY_CONTEXT
 
 class LazyField(Field):
     def __init__(self, container, field):
-        super(LazyField, self).__init__(field.name, field.default, field.marshal)
+        super(LazyField, self).__init__(field.name, field.marshal, field.default)
         self.container = container
         self.field = field
 
     def prepare_class(self, cls):
         setattr(cls, self.field.name, self)
 
-    def prepare_instance(self, obj, args, kwargs):
-        if self.name in kwargs:
-            setattr(obj, self.name, kwargs.pop(self.name))
-
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.field.write_fields(obj, stream, context)
 
@@ -27,8 +23,13 @@ class LazyField(Field):
         instance.__dict__[self.name] = value
 
     def __get__(self, instance, owner):
+        if instance is None:
+            return self
         self.container.instantiate_if_needed(instance)
-        return instance.__dict__[self.name]
+        try:
+            return instance.__dict__[self.name]
+        except KeyError:
+            raise AttributeError(self.name)
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         if self.container.is_instantiated(obj):
-- 
2.43.0


From b14503dcac316d5fe3836e21c716cefcba73e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 53/87] fix: bit fields inside Lazy were None until another
 lazy field was accessed

---
 src/infi/instruct/struct/lazy.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index a013866..49c65d8 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -1,3 +1,5 @@
+import copy
+
 from .._compat import StringIO
 
 from . import FieldBase, Field, FieldListContainer
@@ -48,16 +50,23 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
         for field in fields:
             if not field.is_fixed_size():
                 raise ValueError("%s must be a fixed-size field inside a lazy container" % (field,))
-            if isinstance(field, Field):
-                new_fields.append(LazyField(self, field))
-            else:
-                new_fields.append(field)
+            new_fields.append(self._create_lazy_field(field))
 
         super(LazyFieldListContainer, self).__init__(new_fields)
 
         self.size = sum([field.min_max_sizeof().min for field in self.fields])
         self.lazy_key = "_lazy_container_%s" % id(self)
 
+    def _create_lazy_field(self, field):
+        if isinstance(field, Field):
+            return LazyField(self, field)
+        elif isinstance(field, FieldListContainer):
+            # The fields in the container need to be lazy too, so accessing them will instantiate the whole container.
+            container = copy.copy(field)
+            container.fields = [self._create_lazy_field(inner_field) for inner_field in field.fields]
+            return container
+        return field
+
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.instantiate_if_needed(obj)
         super(LazyFieldListContainer, self).write_fields(obj, stream)
-- 
2.43.0


From 36af3efd6996ba01fe9c2087fbb08af76c0173ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 54/87] fix: writing lazy fields ignored the context

---
 src/infi/instruct/struct/lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 49c65d8..7f586a0 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -69,7 +69,7 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
 
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.instantiate_if_needed(obj)
-        super(LazyFieldListContainer, self).write_fields(obj, stream)
+        super(LazyFieldListContainer, self).write_fields(obj, stream, context)
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         data = stream.read(self.size)
-- 
2.43.0


From 6fe5d4a223536a156191d344125ac62a09080056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 55/87] fix: truncated lazy fields were accepted

---
 src/infi/instruct/struct/lazy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 7f586a0..69e291b 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -4,6 +4,7 @@ from .._compat import StringIO
 
 from . import FieldBase, Field, FieldListContainer
 from ..base import FixedSizer, EMPTY_CONTEXT
+from ..errors import NotEnoughDataError
 
 class LazyField(Field):
     def __init__(self, container, field):
@@ -73,6 +74,8 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
         setattr(obj, self.lazy_key, dict(data=data, context=context, args=args, kwargs=kwargs))
 
     def is_instantiated(self, obj):
-- 
2.43.0


From f704ad68955149655c423bb5179dd94b76e883b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 56/87] fix: lazy fields that failed to parse had default
 values when accessed again

---
 src/infi/instruct/struct/lazy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 69e291b..4e23f65 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -91,5 +91,9 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
         # We first delete the lazy key so it'll return "instantiated" when the field descriptors are called.
         delattr(obj, self.lazy_key)
 
-        super(LazyFieldListContainer, self).read_fields(obj, stream, params['context'], *params['args'],
-                                                        **params['kwargs'])
+        try:
+            super(LazyFieldListContainer, self).read_fields(obj, stream, params['context'], *params['args'],
+                                                            **params['kwargs'])
+        except:
+            setattr(obj, self.lazy_key, params)
+            raise
-- 
2.43.0


From 9d0bdf6bc6d3db6474270fd1d6e1aaeb4641d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 57/87] fix: constant fields inside Lazy accepted other values
 and failed when read

---
 src/infi/instruct/struct/lazy.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 4e23f65..6b2baeb 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -15,6 +15,9 @@ class LazyField(Field):
     def prepare_class(self, cls):
         setattr(cls, self.field.name, self)
 
+    def prepare_instance(self, obj, args, kwargs):
+        self.field.prepare_instance(obj, args, kwargs)
+
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.field.write_fields(obj, stream, context)
 
@@ -23,12 +26,17 @@ class LazyField(Field):
 
     def __set__(self, instance, value):
         self.container.instantiate_if_needed(instance)
-        instance.__dict__[self.name] = value
+        if hasattr(self.field, '__set__'):
+            self.field.__set__(instance, value)
+        else:
+            instance.__dict__[self.name] = value
 
     def __get__(self, instance, owner):
         if instance is None:
             return self
         self.container.instantiate_if_needed(instance)
+        if hasattr(self.field, '__get__'):
+            return self.field.__get__(instance, owner)
         try:
             return instance.__dict__[self.name]
         except KeyError:
-- 
2.43.0


From b43744e02c72add2eefae22b0026f3dc334839ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 58/87] fix: repr of a struct with unparsed lazy fields did not
 show their names

---
 src/infi/instruct/struct/lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 6b2baeb..2864bf2 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -45,7 +45,7 @@ class LazyField(Field):
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         if self.container.is_instantiated(obj):
             return self.field.to_repr(obj, context)
-        return "<lazy>"
+        return "%s=<lazy>" % self.name
 
     def sizeof(self, obj):
         return self.field.sizeof(obj)
-- 
2.43.0


From c6195c8534d3337c4f6bc0c85b94b85049a513a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 59/87] fix: parsing a SumSizeArray whose elements have no size
 never ended

---
 src/infi/instruct/array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index f84dcc8..de69178 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -67,6 +67,8 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
             element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(element)
+            if element_size == 0:
+                raise InstructError("array element has no size, so %d bytes can't be filled" % (total_bytes,))
             total_bytes -= element_size
         assert total_bytes == 0
         return obj
-- 
2.43.0


From 49f76d1161674dba8ffe85cf8ff4e157a7a74f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 60/87] fix: errors showed 'repr error' instead of the
 references that caused them

---
 src/infi/instruct/buffer/field_reference_builder.py | 2 +-
 src/infi/instruct/buffer/reference/func_call.py     | 2 +-
 src/infi/instruct/buffer/reference/range.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index d8749a7..76076f9 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -33,7 +33,7 @@ class PackAbsolutePositionReference(Reference):
             return position_list
 
     def __safe_repr__(self):
-        return "pack_abs_position({0!r}, {1!r})".format(self.field, self.position_list)
+        return "pack_abs_position({0!r}, {1!r})".format(self.field, self.pack_position_ref)
 
 
 class UnpackAbsolutePositionReference(Reference):
diff --git a/src/infi/instruct/buffer/reference/func_call.py b/src/infi/instruct/buffer/reference/func_call.py
index 6499902..5f12390 100644
--- a/src/infi/instruct/buffer/reference/func_call.py
+++ b/src/infi/instruct/buffer/reference/func_call.py
@@ -28,7 +28,7 @@ class FuncCallReference(Reference):
         # Small hacks to make repr look better:
         if isinstance(self.func_ref, ObjectReference) \
                 and isinstance(self.func_ref.obj, (types.FunctionType, types.MethodType)):
-            func_ref_repr = self.func_ref.obj.func_name
+            func_ref_repr = self.func_ref.obj.__name__
         else:
             func_ref_repr = safe_repr(self.func_ref)
         return "{0}({1}))".format(func_ref_repr, self._args_and_kwargs_repr())
diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 3b983cd..ec516ba 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -37,7 +37,7 @@ class ListRangeReference(RangeReference):
         return SequentialRangeList(reduce(operator.add, [ref.deref(ctx) for ref in self.list]))
 
     def __safe_repr__(self):
-        return "[{0}]".format(", ".join(safe_repr(o for o in self.list)))
+        return "[{0}]".format(", ".join(safe_repr(o) for o in self.list))
 
 
 class BitContainer(object):
-- 
2.43.0


From 337bee0030c2a177a554c5e43ca90b5a442bcbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 61/87] fix: text fields in bit positions of whole bytes could
 not be packed

---
 src/infi/instruct/buffer/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index f82fb3b..ce0e499 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -24,7 +24,8 @@ def kwargs_int_byte_size(kwargs):
     byte_size = kwargs.get("byte_size", None)
     assert byte_size is None or ((byte_size >= 0) and (int(byte_size) == byte_size)), \
         "size can be unknown (None) or a non-negative integer but instead got {0}".format(byte_size)
-    return byte_size
+    # The size of bit positions is a float even if they're whole bytes.
+    return int(byte_size) if byte_size is not None else None
 
 
 def assert_enum_argument(name, value, enum):
-- 
2.43.0


From 3fd5dc19dbe265f8cd091b809afdbbae1950ed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 62/87] fix: errors showed 'repr error' instead of positions
 after a field

---
 src/infi/instruct/buffer/reference/after_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/after_field.py b/src/infi/instruct/buffer/reference/after_field.py
index efbbe43..5fa03e6 100644
--- a/src/infi/instruct/buffer/reference/after_field.py
+++ b/src/infi/instruct/buffer/reference/after_field.py
@@ -40,4 +40,4 @@ class AfterFieldReference(Reference):
             return self.field_ref.unpack_absolute_position_ref.unpack_position_ref
 
     def __safe_repr__(self):
-        return "after({0})".format(self.field_ref.attr_name_ref.deref(Context()))
+        return "after({0})".format(self.field_ref.attr_name())
-- 
2.43.0


From 9d69ddc688936921e0ec5a5bd7816e8ea5f38655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 63/87] fix: the total size of a record was a float that could
 not be packed if a position follows bit fields

---
 src/infi/instruct/buffer/range.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index f32c496..4dbf0c8 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -5,6 +5,14 @@ from .._compat import range
 BIT = 0.125
 
 
+def _whole_bytes_to_int(n):
+    """
+    :returns: n as an int if it's a whole number of bytes, so sizes don't become floats because they follow bit ranges.
+    :rtype: int or float or None
+    """
+    return int(n) if isinstance(n, float) and n == int(n) else n
+
+
 class SequentialRangeMixin(object):
     """Common interface between SquentialRange and SequentialRangeList"""
 
@@ -34,8 +42,8 @@ class SequentialRange(SequentialRangeMixin):
         :param stop: range stop (can be None for open range). If not None, must be >= start.
         :type stop: int, float or None
         """
-        self.start = start if start is not None else 0
-        self.stop = stop
+        self.start = _whole_bytes_to_int(start) if start is not None else 0
+        self.stop = _whole_bytes_to_int(stop)
 
         assert self.start >= 0, "start={0!r}".format(self.start)
         if self.stop is not None:
-- 
2.43.0


From 97a6ed0aebe4b7a70f7ee45d38811a681ccaac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 64/87] fix: 4-byte integers of an unspecified byte order were
 packed as 8 bytes and cut

---
 src/infi/instruct/buffer/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index ce0e499..b572def 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -46,7 +46,8 @@ class UnpackError(InstructError):
         super(UnpackError, self).__init__(UnpackError.MESSAGE.format(unpack_ref=unpack_ref, buffer=buffer))
 
 
-ENDIAN_NAME_TO_FORMAT = {'unspecified': '@', 'native': '=', 'big': '>', 'little': '<'}
+# Note that '@' would also use the platform's sizes, e.g. 'l' may be 8 bytes.
+ENDIAN_NAME_TO_FORMAT = {'unspecified': '=', 'native': '=', 'big': '>', 'little': '<'}
 
 
 #
-- 
2.43.0


From f5ae1893bb30c7ad22aec4ccb8e9f406e570ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 65/87] fix: a closed position after a conditional field
 depended on the condition, which could be a cycle

---
 src/infi/instruct/buffer/reference/after_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/after_field.py b/src/infi/instruct/buffer/reference/after_field.py
index 5fa03e6..1d03722 100644
--- a/src/infi/instruct/buffer/reference/after_field.py
+++ b/src/infi/instruct/buffer/reference/after_field.py
@@ -31,7 +31,7 @@ class AfterFieldReference(Reference):
     def _is_skipped_and_open(self, ctx):
         # A field that's not packed or unpacked has no size, so if its position is open it ends where it starts.
         should_process_ref = self.field_ref.pack_if if ctx.is_pack() else self.field_ref.unpack_if
-        return not should_process_ref.deref(ctx) and self._position_ref(ctx).deref(ctx).is_open()
+        return self._position_ref(ctx).deref(ctx).is_open() and not should_process_ref.deref(ctx)
 
     def _position_ref(self, ctx):
         if ctx.is_pack():
-- 
2.43.0


From 55386b2eb2eb3db14409de694c86e8f3c9ac720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 66/87] fix: out of range 64-bit unsigned integers raised
 ValueError instead of InstructError in PyPy

---
 src/infi/instruct/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/numeric.py b/src/infi/instruct/numeric.py
index d57c5cb..f1db8e7 100644
--- a/src/infi/instruct/numeric.py
+++ b/src/infi/instruct/numeric.py
@@ -29,7 +29,7 @@ class NumericMarshal(FixedSizer, Marshal):
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         try:
             stream.write(struct.pack(self.format_string, obj))
-        except (struct.error, OverflowError):
+        except (struct.error, OverflowError, ValueError):
             raise chain_exceptions(InstructError("Packing error occurred"))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From a3bd07e5da6403f000574fbd7c57750c58354fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 67/87] fix: MinMax clipped only the minimum from below and the
 maximum from above

---
 src/infi/instruct/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/base.py b/src/infi/instruct/base.py
index a14ce77..7e6dc81 100644
--- a/src/infi/instruct/base.py
+++ b/src/infi/instruct/base.py
@@ -72,7 +72,8 @@ class MinMax(collections.namedtuple('MinMax', 'min max')):
             min_val = min_val_or_tuple
 
         assert min_val <= max_val
-        return super(MinMax, cls).__new__(cls, max(0, min_val), min(max_val, sys.maxsize))
+        min_val, max_val = [min(max(0, value), sys.maxsize) for value in (min_val, max_val)]
+        return super(MinMax, cls).__new__(cls, min_val, max_val)
 
     def __add__(self, min_max):
         return MinMax(min_max.min + self.min, min_max.max + self.max)
-- 
2.43.0


From d6fbdb8e4e4ce4bedd740648d4e3301be5009749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 68/87] fix: the size of a length-prefixed string was computed
 with the string as the value of its prefix

---
 src/infi/instruct/string.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 31d855e..a853138 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -57,7 +57,8 @@ class VarSizeStringMarshal(Marshal):
         return repr(obj)
 
     def sizeof(self, obj):
-        return self.size_marshal.sizeof(obj) + len(_strip(obj, self.padding_direction, self.padding))
+        size = len(_strip(obj, self.padding_direction, self.padding))
+        return self.size_marshal.sizeof(size) + size
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
-- 
2.43.0


From 2f17313920a116a84b190382711e8f8848d0e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 69/87] fix: byte-counted arrays miscounted or failed on
 streams that cannot tell their position

---
 src/infi/instruct/array.py                 | 10 +++++++---
 src/infi/instruct/utils/counting_stream.py | 16 ++++++++++++++++
 2 files changed, 23 insertions(+), 3 deletions(-)
 create mode 100644 src/infi/instruct/utils/counting_stream.py

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index de69178..11dc9bd 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,6 +1,7 @@
 from ._compat import range
 from .errors import InstructError, InvalidValueError
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer, max_value_by_size
+from .utils.counting_stream import CountingStream
 
 class ArrayBase(object):
     def to_repr(self, obj, context=EMPTY_CONTEXT):
@@ -61,12 +62,15 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         obj = []
         total_bytes = self.size_marshal.create_from_stream(stream, context)
-        has_tell = hasattr(stream, 'tell')
+        try:
+            stream.tell()
+        except (AttributeError, IOError):
+            stream = CountingStream(stream)
         while total_bytes > 0:
-            element_size = stream.tell() if has_tell else 0
+            start = stream.tell()
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
-            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(element)
+            element_size = stream.tell() - start
             if element_size == 0:
                 raise InstructError("array element has no size, so %d bytes can't be filled" % (total_bytes,))
             total_bytes -= element_size
diff --git a/src/infi/instruct/utils/counting_stream.py b/src/infi/instruct/utils/counting_stream.py
new file mode 100644
index 0000000..b7a300f
--- /dev/null
+++ b/src/infi/instruct/utils/counting_stream.py
@@ -0,0 +1,16 @@
+class CountingStream(object):
+    """Counts the bytes read from a stream that cannot tell its position (e.g. a pipe or a socket)."""
+    def __init__(self, stream):
+        self.stream = stream
+        self.position = 0
+
+    def read(self, size):
+        res = self.stream.read(size)
+        self.position += len(res)
+        return res
+
+    def tell(self):
+        return self.position
+
+    def __getattr__(self, name):
+        return getattr(self.stream, name)
-- 
2.43.0


From e8dfd592ad2dc061ceef0d4517486dc462a55dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 70/87] fix: records silently lost the fields of a mixin that
 was already used by another record

---
 src/infi/instruct/buffer/buffer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index f6cfe6a..8a87866 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -59,9 +59,13 @@ class BufferType(type):
         fields = []
         for attr_name in dir(new_cls):
             attr = getattr(new_cls, attr_name)
-            if isinstance(attr, FieldReference) and not attr.is_initialized():
-                attr.init(attr_name)
-                fields.append(attr)
+            if isinstance(attr, FieldReference):
+                if not attr.is_initialized():
+                    attr.init(attr_name)
+                    fields.append(attr)
+                elif attr.attr_name() == attr_name and not any(attr is field for field in new_cls._all_fields()):
+                    # The field was declared in a mixin that's already in use by another class.
+                    fields.append(attr)
 
         setattr(new_cls, '__fields__', fields)
         setattr(new_cls, 'byte_size', (attrs['byte_size'] if 'byte_size' in attrs
-- 
2.43.0


From c9a6dcaaf4881432886bda5b0377161a67e94a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 71/87] fix: arguments named as fields did not reach the
 constructor of a base class

---
 src/infi/instruct/struct/__init__.py | 29 ++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index aacfac1..4f4a67f 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -147,21 +147,34 @@ class StructType(type):
             if type(self) == new_cls:
                 # Only do our magic if we're the bottom-most class.
                 new_cls._container_.prepare_instance(self, args, kwargs)
-            if user_init is None:
-                super(new_cls, self).__init__(*args, **kwargs)
-            else:
-                # Add arguments back if the user code wants them.
-                # This solves STORAGEMODEL-146, because ASI defines Read10Command(logical_block_address, ...)
-                # and logical_block_address is also a field in the struct, so in this scenario instruct will
-                # "eat" the arg and we need to put it back.
-                code = user_init.__code__
+            # Add arguments back if the user code wants them.
+            # This solves STORAGEMODEL-146, because ASI defines Read10Command(logical_block_address, ...)
+            # and logical_block_address is also a field in the struct, so in this scenario instruct will
+            # "eat" the arg and we need to put it back.
+            code = getattr(user_init or cls._find_base_user_init(type(self), new_cls), '__code__', None)
+            if code is not None:
                 arg_count = code.co_argcount + getattr(code, 'co_kwonlyargcount', 0)
                 for arg in code.co_varnames[0:arg_count]:
                     if arg in orig_kwargs:
                         kwargs[arg] = orig_kwargs[arg]
+            if user_init is None:
+                super(new_cls, self).__init__(*args, **kwargs)
+            else:
                 user_init(self, *args, **kwargs)
+        __instance_init__._user_init_ = user_init
         return __instance_init__
 
+    @classmethod
+    def _find_base_user_init(cls, instance_cls, struct_cls):
+        """:returns: the constructor that's called next by the constructor of a struct that has no user constructor."""
+        mro = instance_cls.__mro__
+        for base in mro[mro.index(struct_cls) + 1:]:
+            init = base.__dict__.get('__init__', None)
+            user_init = getattr(init, '_user_init_', init)
+            if user_init is not None:
+                return user_init
+        return None
+
 
 @add_metaclass(StructType)
 class Struct(object):
-- 
2.43.0


From 320c93a0f75bb4a2dd5b93f81b7c6438e81a2cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 72/87] fix: structs named Struct and records named Buffer were
 not defined properly

---
 src/infi/instruct/buffer/buffer.py   | 2 +-
 src/infi/instruct/struct/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 8a87866..a6ba2ab 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -50,7 +50,7 @@ class BufferType(type):
     """
     def __new__(cls, name, bases, attrs):
         # If we initialize our own class don't do any modifications.
-        if name == "Buffer":
+        if not any(isinstance(base, BufferType) for base in bases):
             return super(BufferType, cls).__new__(cls, name, bases, attrs)
 
         new_cls = super(BufferType, cls).__new__(cls, name, bases, attrs)
diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 4f4a67f..7ca5db5 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -110,7 +110,7 @@ class FieldListContainer(FieldMarshal):
 class StructType(type):
     def __new__(cls, name, bases, attrs):
         # If we initialize our own class don't do any modifications.
-        if name == "Struct":
+        if not any(isinstance(base, StructType) for base in bases):
             return super(StructType, cls).__new__(cls, name, bases, attrs)
 
         # We want to first put our own __init__ method that will initialize all the fields passed by kwargs and then
-- 
2.43.0


From 4b8622dbfb01632a9b495fe8604754255eddb1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 73/87] fix: unpacking misplaced the end of a field in several
 parts of which one is open

---
 src/infi/instruct/buffer/reference/after_field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/reference/after_field.py b/src/infi/instruct/buffer/reference/after_field.py
index 1d03722..6a70fd8 100644
--- a/src/infi/instruct/buffer/reference/after_field.py
+++ b/src/infi/instruct/buffer/reference/after_field.py
@@ -22,8 +22,9 @@ class AfterFieldReference(Reference):
                 # Since all reference results are cached, we can ask the unpack result again w/o performance problems.
                 _, byte_size = self.field_ref.unpack_ref.deref(ctx)
                 position_list = self.field_ref.unpack_absolute_position_ref.unpack_position_ref.deref(ctx)
-                # Since we want the "highest" byte, we need to sort the ranges.
-                offset = position_list.sorted().byte_offset(byte_size)
+                # The open range holds what's left after the closed ranges, like it does when packing.
+                open_size = max(byte_size - sum(r.byte_length() for r in position_list if not r.is_open()), 0)
+                offset = SequentialRangeList(r.to_closed(r.start + open_size) for r in position_list).max_stop()
             else:
                 offset = self.field_ref.unpack_absolute_position_ref.deref(ctx).max_stop()
         return offset
-- 
2.43.0


From acd28a8cd2da11a62b3ac03ddeea34861943ade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 74/87] fix: a counted list in a closed position silently had
 less elements than declared

---
 src/infi/instruct/buffer/field_reference_builder.py | 12 ++++++++++++
 src/infi/instruct/buffer/macros.py                  |  4 ++--
 src/infi/instruct/buffer/serialize.py               |  6 ++++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 76076f9..7f32973 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -95,6 +95,18 @@ class FieldUnpackerReference(Reference):
         return "field_unpack({0})".format(self.unpacker_ref._func_repr())
 
 
+class IsOpenPositionReference(Reference):
+    def __init__(self, position_ref):
+        super(IsOpenPositionReference, self).__init__(False)
+        self.position_ref = position_ref
+
+    def evaluate(self, ctx):
+        return self.position_ref.is_open(ctx)
+
+    def __safe_repr__(self):
+        return "is_open({0!r})".format(self.position_ref)
+
+
 class SequentialRangeListByteLengthReference(FuncCallReference):
     def __init__(self, arg):
         super(SequentialRangeListByteLengthReference, self).__init__(True, SequentialRangeList.byte_length, arg)
diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 9bb7803..6917f13 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -5,7 +5,7 @@ from infi.instruct.utils.safe_repr import safe_repr
 from .reference import (Reference, ContextGetAttrReference, FuncCallReference, LengthFuncCallReference,
                         TotalSizeReference, AfterFieldReference, FieldOrAttrReference, SelfProxy, ByteRangeFactory,
                         NumericCastReference, InputBufferLengthReference, MinFuncCallReference, MaxFuncCallReference)
-from .field_reference_builder import FieldReferenceBuilder
+from .field_reference_builder import FieldReferenceBuilder, IsOpenPositionReference
 
 from .buffer import BufferType
 
@@ -307,7 +307,7 @@ def list_field(type, n=None, unpack_selector=None,
                                     unpack_after=unpack_after,
                                     default=default)
 
-    shared_kwargs = dict(n=n)
+    shared_kwargs = dict(n=n, is_open=IsOpenPositionReference(builder.field.unpack_absolute_position_ref))
 
     if isinstance(type, tuple):
         elem_packer, elem_unpacker = type
diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index b572def..8d3817c 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -299,12 +299,14 @@ def unpack_list(buffer, elem_unpacker, **kwargs):
     n = kwargs.get('n', None)
     assert n is None or isinstance(n, (int, long)), "n must be either an integer or None but instead got {0!r}".format(n)
     byte_size = kwargs_fractional_byte_size(kwargs)
+    # Only a list in an open position may have less elements than declared.
+    is_n_exact = n is not None and not kwargs.get('is_open', True)
 
     result = []
     offset = 0
     index = 0
-    while offset < buffer.length() and (n is None or index < n):
-        unpacker_kwargs = copy_and_remove_kwargs(kwargs, ('buffer', 'n', 'index', 'container'))
+    while (is_n_exact or offset < buffer.length()) and (n is None or index < n):
+        unpacker_kwargs = copy_and_remove_kwargs(kwargs, ('buffer', 'n', 'index', 'container', 'is_open'))
         item, item_len = elem_unpacker(buffer[offset:byte_size], index=index, n=n, container=result, **unpacker_kwargs)
         result.append(item)
         # Buffers are packed to whole bytes even if their last field ends inside a byte.
-- 
2.43.0


From b888f6af762dbc1b0a086390b386e62868e42de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 75/87] fix: a field after an open position overlapped a buffer
 there that ends inside a byte

---
 src/infi/instruct/buffer/reference/after_field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/after_field.py b/src/infi/instruct/buffer/reference/after_field.py
index 6a70fd8..8beb8cf 100644
--- a/src/infi/instruct/buffer/reference/after_field.py
+++ b/src/infi/instruct/buffer/reference/after_field.py
@@ -1,3 +1,5 @@
+import math
+
 from infi.instruct.buffer.range import SequentialRangeList
 
 from .reference import Reference
@@ -23,7 +25,8 @@ class AfterFieldReference(Reference):
                 _, byte_size = self.field_ref.unpack_ref.deref(ctx)
                 position_list = self.field_ref.unpack_absolute_position_ref.unpack_position_ref.deref(ctx)
                 # The open range holds what's left after the closed ranges, like it does when packing.
-                open_size = max(byte_size - sum(r.byte_length() for r in position_list if not r.is_open()), 0)
+                # It always packs to whole bytes.
+                open_size = max(math.ceil(byte_size) - sum(r.byte_length() for r in position_list if not r.is_open()), 0)
                 offset = SequentialRangeList(r.to_closed(r.start + open_size) for r in position_list).max_stop()
             else:
                 offset = self.field_ref.unpack_absolute_position_ref.deref(ctx).max_stop()
-- 
2.43.0


From 81768395cd8b35d501d7866b8e69f59d591cacd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 76/87] fix: conditional fields were read for other fields and
 before the fields they come after

---
 src/infi/instruct/buffer/buffer.py          |  8 +-------
 src/infi/instruct/buffer/reference/field.py | 10 ++++++++++
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index a6ba2ab..86d8cda 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -139,13 +139,7 @@ class Buffer(object):
 
         for field in fields:
             try:
-                if field.unpack_if.deref(ctx):
-                    # TODO: get rid of unpack_after once we use dependencies as we should.
-                    for prev_field in field.unpack_after:
-                        prev_field.unpack_value_ref.deref(ctx)
-                    field.unpack_value_ref.deref(ctx)
-                else:
-                    setattr(self, field.attr_name(), None)
+                field.deref(ctx)
             except:
                 raise chain_exceptions(InstructBufferError("Unpack error occurred", ctx, type(self), field.attr_name()))
 
diff --git a/src/infi/instruct/buffer/reference/field.py b/src/infi/instruct/buffer/reference/field.py
index 22d4110..6879701 100644
--- a/src/infi/instruct/buffer/reference/field.py
+++ b/src/infi/instruct/buffer/reference/field.py
@@ -33,7 +33,17 @@ class FieldReference(Reference):
         if ctx.is_pack():
             return self.pack_value_ref.deref(ctx)
         else:
+            return self._unpack(ctx)
+
+    def _unpack(self, ctx):
+        # TODO: get rid of unpack_after once we use dependencies as we should.
+        for prev_field in self.unpack_after:
+            prev_field.deref(ctx)
+        if self.unpack_if.deref(ctx):
             return self.unpack_value_ref.deref(ctx)
+        # A skipped field has no value, also for the fields that refer to it.
+        setattr(ctx.obj, self.attr_name(), None)
+        return None
 
     def __safe_repr__(self):
         return "field_ref({0!r})".format(self.attr_name_ref.obj)
-- 
2.43.0


From 96e55f9ac521b58a8e89502e101458e12859f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 77/87] fix: repr of a struct failed if a field held a value of
 another type

---
 src/infi/instruct/struct/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 7ca5db5..8d0e7b4 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -65,7 +65,15 @@ class Field(FieldBase):
             setattr(obj, self.name, copy.deepcopy(self.default))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-        value_repr = super(Field, self).to_repr(obj, context) if self.get_value(obj) is not None else "<not set>"
+        value = self.get_value(obj)
+        if value is None:
+            value_repr = "<not set>"
+        else:
+            try:
+                value_repr = super(Field, self).to_repr(obj, context)
+            except (TypeError, ValueError, AttributeError):
+                # The value is not one of this field's type.
+                value_repr = repr(value)
         return "%s=%s" % (self.name, value_repr)
 
     def get_value(self, obj):
-- 
2.43.0


From 4bec9111039c81fbaabe80ad0acb58006a7c1b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 78/87] undo 03ed69c: pack_int already rejects values without
 bit_length

---
 src/infi/instruct/buffer/serialize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 8d3817c..01f0a74 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -1,5 +1,4 @@
 import math
-import operator
 import struct
 import json
 from sys import byteorder
@@ -63,7 +62,7 @@ def is_big_endian_bit_int(byte_size, endian='native', **kwargs):
 def pack_bit_int(value, byte_size, **kwargs):
     assert byte_size is not None
     result = BitAwareByteArray(bytearray(int(math.ceil(byte_size))), 0, byte_size)
-    result[0:] = operator.index(value)
+    result[0:] = value
     if is_big_endian_bit_int(byte_size, **kwargs):
         result = BitAwareByteArray(bytearray(reversed(result)))
     return result
-- 
2.43.0


From 065ac0ac676e500a7d02ce2b386c885b40935999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 79/87] fix: the error of a pack_if that fails did not name the
 field

---
 src/infi/instruct/buffer/buffer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 86d8cda..9990c79 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -111,12 +111,12 @@ class Buffer(object):
         ctx = PackContext(self, fields)
 
         for field in fields:
-            if field.pack_if.deref(ctx):
-                try:
+            try:
+                if field.pack_if.deref(ctx):
                     ctx.output_buffer.set(field.pack_ref.deref(ctx), field.pack_absolute_position_ref.deref(ctx))
-                except:
-                    raise chain_exceptions(InstructBufferError("Pack error occured", ctx, type(self),
-                                                               field.attr_name()))
+            except:
+                raise chain_exceptions(InstructBufferError("Pack error occured", ctx, type(self),
+                                                           field.attr_name()))
 
         result = bytearray(ctx.output_buffer.get())
 
-- 
2.43.0


From e34d2dfee313015f03ca7d12bb0d98a0e3582ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 80/87] fix: a string written by a struct adapter could not be
 parsed by it

---
 src/infi/instruct/buffer/compat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/compat.py b/src/infi/instruct/buffer/compat.py
index 1f2c7bf..be63a01 100644
--- a/src/infi/instruct/buffer/compat.py
+++ b/src/infi/instruct/buffer/compat.py
@@ -38,7 +38,7 @@ class StructTypeAdapter(object):
         return len(obj.pack())
 
     def write_to_string(self, obj, context=None):
-        return obj.pack()
+        return bytes(obj.pack())
 
     def to_repr(self, obj, context=None):
         return repr(obj)
-- 
2.43.0


From 34aaa1dfd12a506995f09e3874527eeb3d495d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:36 +0000
Subject: [PATCH 81/87] fix: an unknown endian or sign was ignored by integers
 of other than 1, 2, 4 and 8 bytes

---
 src/infi/instruct/buffer/serialize.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 01f0a74..a81df3d 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -59,8 +59,16 @@ def is_big_endian_bit_int(byte_size, endian='native', **kwargs):
     return int(byte_size) == byte_size and (byteorder if endian in ('native', 'unspecified') else endian) == 'big'
 
 
+def int_args_from_kwargs(kwargs):
+    args = copy_defaults_and_override_with_kwargs(dict(sign='signed', endian='native'), kwargs)
+    assert_kwarg_enum(args, 'sign', ('signed', 'unsigned'))
+    assert_kwarg_enum(args, 'endian', ENDIAN_NAME_TO_FORMAT.keys())
+    return args
+
+
 def pack_bit_int(value, byte_size, **kwargs):
     assert byte_size is not None
+    int_args_from_kwargs(kwargs)
     result = BitAwareByteArray(bytearray(int(math.ceil(byte_size))), 0, byte_size)
     result[0:] = value
     if is_big_endian_bit_int(byte_size, **kwargs):
@@ -69,10 +77,8 @@ def pack_bit_int(value, byte_size, **kwargs):
 
 
 def format_from_struct_int_arguments(format_char, kwargs):
-    args = copy_defaults_and_override_with_kwargs(dict(sign='signed', endian='native'), kwargs)
+    args = int_args_from_kwargs(kwargs)
     assert_enum_argument('format_char', format_char, ('b', 'h', 'l', 'q'))
-    assert_kwarg_enum(args, 'sign', ('signed', 'unsigned'))
-    assert_kwarg_enum(args, 'endian', ENDIAN_NAME_TO_FORMAT.keys())
     format_char = format_char.lower() if args["sign"] == "signed" else format_char.upper()
     return "{0}{1}".format(ENDIAN_NAME_TO_FORMAT[args["endian"]], format_char)
 
@@ -98,6 +104,7 @@ def pack_int(value, **kwargs):
 
 
 def unpack_bit_int(buffer, byte_size, **kwargs):
+    int_args_from_kwargs(kwargs)
     result = 0
     l = buffer[0:byte_size]
     for b in (l if is_big_endian_bit_int(byte_size, **kwargs) else reversed(l)):
-- 
2.43.0


From 20ed6a7dd1290ed71b304498bfd4217da1079f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 82/87] fix: the negation of a reference that is not numeric
 was NotImplemented instead of an error

---
 src/infi/instruct/buffer/reference/reference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/reference.py b/src/infi/instruct/buffer/reference/reference.py
index cee4bc7..271e8bf 100644
--- a/src/infi/instruct/buffer/reference/reference.py
+++ b/src/infi/instruct/buffer/reference/reference.py
@@ -209,7 +209,8 @@ class Reference(object):
 
     def __neg__(self):
         if not self.is_numeric():
-            return NotImplemented
+            # Python does not handle NotImplemented in unary operators.
+            raise TypeError("bad operand type for unary -: {0!r}".format(self))
         return NumericUnaryExpression(self, operator.neg)
 
     # FIXME: add rest of the operators, including unary ones
-- 
2.43.0


From 460ce5a0541c7ef0782d360fa6938355116c3a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:59 +0000
Subject: [PATCH 83/87] fix: a negated reference had a truth value in Python 3

---
 src/infi/instruct/buffer/reference/reference.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/instruct/buffer/reference/reference.py b/src/infi/instruct/buffer/reference/reference.py
index 271e8bf..8fe9b59 100644
--- a/src/infi/instruct/buffer/reference/reference.py
+++ b/src/infi/instruct/buffer/reference/reference.py
@@ -267,6 +267,9 @@ class NumericUnaryExpression(Reference):
     def __nonzero__(self):
         raise NotImplementedError("not supported")
 
+    def __bool__(self):
+        raise NotImplementedError("not supported")
+
 
 class NumericBinaryExpression(Reference):
     """
-- 
2.43.0


From eeb25487ffaeb03f4871726c3776215acbfb173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:04 +0000
Subject: [PATCH 84/87] fix: a string with an empty padding was written with
 less bytes than its fixed size

---
 src/infi/instruct/string.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index a853138..4ee1b32 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -23,12 +23,12 @@ def _pad(obj, size, dir, padding):
     elif pad_len == 0:
         return obj
 
-    if dir == PADDING_DIRECTION_RIGHT or dir == PADDING_DIRECTION_BOTH:
+    if padding and (dir == PADDING_DIRECTION_RIGHT or dir == PADDING_DIRECTION_BOTH):
         return obj + padding[0:1] * pad_len
-    elif dir == PADDING_DIRECTION_LEFT:
+    elif padding and dir == PADDING_DIRECTION_LEFT:
         return (padding[0:1] * pad_len) + obj
     else:
-        # PADDING_DIRECTION_NONE
+        # PADDING_DIRECTION_NONE or there are no padding characters
         raise InvalidValueError("no padding specified but item length %d is smaller than required length %d (item=%s)" %
                                 (len(obj), size, obj))
 
-- 
2.43.0


From efe45602a0483eda80164a79b386214c6d8cf088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:07 +0000
Subject: [PATCH 85/87] fix: a list with a negative number of elements was
 unpacked as an empty list

---
 src/infi/instruct/buffer/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index a81df3d..4c34d52 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -303,7 +303,8 @@ def pack_list(list, elem_packer, **kwargs):
 
 def unpack_list(buffer, elem_unpacker, **kwargs):
     n = kwargs.get('n', None)
-    assert n is None or isinstance(n, (int, long)), "n must be either an integer or None but instead got {0!r}".format(n)
+    assert n is None or (isinstance(n, (int, long)) and n >= 0), \
+        "n must be either a non-negative integer or None but instead got {0!r}".format(n)
     byte_size = kwargs_fractional_byte_size(kwargs)
     # Only a list in an open position may have less elements than declared.
     is_n_exact = n is not None and not kwargs.get('is_open', True)
-- 
2.43.0


From 06c31ecda5e56b7417a24b8feadcf76f2912f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:36 +0000
Subject: [PATCH 86/87] fix: padding of a negative size was read to the end of
 the stream

---
 src/infi/instruct/padding.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/infi/instruct/padding.py b/src/infi/instruct/padding.py
index f278b2d..3759dbc 100644
--- a/src/infi/instruct/padding.py
+++ b/src/infi/instruct/padding.py
@@ -7,6 +7,7 @@ class BytePaddingMarshal(FixedSizer, Marshal):
         self.size = size
         self.char = char
         assert len(self.char) == 1
+        assert self.size >= 0  # reading a negative number of bytes reads everything
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         stream.write(self.char * self.size)
-- 
2.43.0


From 66cbf85a220995023d43ad6f9a8978faddf9e97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:18 +0000
Subject: [PATCH 87/87] fix: deleting bits from a bit array doesn't write after
 the end of its buffer

---
 src/infi/instruct/buffer/io_buffer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index ee800cf..e232775 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -208,7 +208,9 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
             ofs = start
             bit_len_frac = stop - start
             while (ofs + bit_len_frac) < self.stop:
-                self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs + bit_len_frac, 8))
+                # The last bits may be less than a byte, so there may be no next byte in the buffer.
+                bit_len = min(int((self.stop - ofs - bit_len_frac) * 8), 8)
+                self._set_byte_bits(ofs, bit_len, self._get_byte_bits(ofs + bit_len_frac, bit_len))
                 ofs += 1
             self.stop -= bit_len_frac
             if int(math.ceil(self.stop)) < len(self.buffer):
-- 
2.43.0

