From 48b3f92f9fdd7a6ea7865d1d30a21c0deade7503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:45 +0000
Subject: [PATCH 01/56] fix: count alignment markers of fixed members as zero
 bytes in get_byte_size

A fixed-size member followed by a dynamic alignment marker carries a negative
padding. The C++ full generator added that negative number to the size constant,
so get_byte_size() came out too small and encode() wrote past the buffer.
---
 prophyc/generators/cpp_full.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 7462e4f..492798d 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -437,7 +437,7 @@ def generate_struct_get_byte_size(node):
             if m.is_dynamic or m.greedy:
                 elems += ['{0}.size() * {1}'.format(m.name, _get_byte_size(m))]
             else:
-                bytes_ += m.byte_size + m.padding
+                bytes_ += m.byte_size + max(m.padding, 0)
         else:
             if m.is_dynamic or m.greedy:
                 elems += [
-- 
2.43.0


From 815476309a4a5e5669a776aad78c5a43d14c56dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:19 +0000
Subject: [PATCH 02/56] fix: pad the end of a dynamic struct whose last member
 is an optional

A dynamic struct got no trailing padding when its last member already had the
alignment of the struct. An optional may end off that alignment, for example u8*,
so the C++ full codec read and wrote such structs too short.
---
 prophyc/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 08234b8..716a39f 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -577,7 +577,7 @@ def evaluate_sizes(nodes, warn=null_warn):
             padding = (alignment - byte_size % alignment) % alignment
             byte_size += padding
             if any(is_member_dynamic(m) for m in node_.members):
-                prev_member.padding = (node_.members[-1].alignment < alignment) and (-alignment) or 0
+                prev_member.padding = (node_.members[-1].alignment < alignment) and (-alignment) or padding
             else:
                 prev_member.padding = padding
         node_.byte_size, node_.alignment = byte_size, alignment
-- 
2.43.0


From 52a11ee7af032f7d62c17d5691d0ba75d5cd9922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:45 +0000
Subject: [PATCH 03/56] fix: place optional fields at their own alignment in
 Python codec

An optional starts with a 4-byte flag and is aligned to at least 4. Encode,
decode and the struct size used the alignment of the value type instead, so
'u8 a; u8* b' was laid out differently than documented and than in C++.
---
 prophy/composite.py  | 12 ++++++++++--
 prophy/generators.py | 12 ++++++------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index bcf498d..55e2764 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -10,6 +10,14 @@ def distance_to_next_multiply(number, alignment):
     return (alignment - remainer) % alignment
 
 
+def wire_alignment(type_):
+    return type_._OPTIONAL_ALIGNMENT if type_._OPTIONAL else type_._ALIGNMENT
+
+
+def wire_size(type_):
+    return type_._OPTIONAL_SIZE if type_._OPTIONAL else type_._SIZE
+
+
 def field_to_string(name, type_, value):
     single_indent_level = " " * 2
 
@@ -60,7 +68,7 @@ class struct(_composite_base):
         data = b""
 
         for field in self._descriptor:
-            data += (self._get_padding(len(data), field.type._ALIGNMENT))
+            data += (self._get_padding(len(data), wire_alignment(field.type)))
             data += field.encode_fcn(self, field.type, getattr(self, field.name, None), endianness)
 
             if field.type._PARTIAL_ALIGNMENT:
@@ -78,7 +86,7 @@ class struct(_composite_base):
         start_pos = pos
 
         for field in self._descriptor:
-            pos += self._get_padding_size(pos, field.type._ALIGNMENT)
+            pos += self._get_padding_size(pos, wire_alignment(field.type))
             try:
                 pos += field.decode_fcn(self, field.name, field.type, data, pos, endianness, len_hints)
             except ProphyError as e:
diff --git a/prophy/generators.py b/prophy/generators.py
index 0b3f72c..047d78f 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -1,7 +1,7 @@
 import collections
 
 from .base_array import base_array
-from .composite import codec_kind, distance_to_next_multiply, struct_packed
+from .composite import codec_kind, distance_to_next_multiply, struct_packed, wire_alignment, wire_size
 from .descriptor import DescriptorField
 from .exception import ProphyError
 from .scalar import u32
@@ -201,25 +201,25 @@ class struct_generator(_composite_generator_base):
         cls._DYNAMIC = any(type_._DYNAMIC for type_ in cls._types())
         cls._OPTIONAL = False
         cls._PARTIAL_ALIGNMENT = None
-        cls._SIZE = sum((type_._OPTIONAL_SIZE if type_._OPTIONAL else type_._SIZE) for type_ in cls._types())
+        cls._SIZE = sum(wire_size(type_) for type_ in cls._types())
         cls._UNLIMITED = any(type_._UNLIMITED for type_ in cls._types())
         if not cls._descriptor:
             cls._ALIGNMENT = 1
         else:
-            cls._ALIGNMENT = max((t._OPTIONAL_ALIGNMENT if t._OPTIONAL else t._ALIGNMENT) for t in cls._types())
+            cls._ALIGNMENT = max(wire_alignment(t) for t in cls._types())
 
         alignment = 1
         for type_ in reversed(list(cls._types())):
             if issubclass(type_, (base_array, bytes)) and type_._DYNAMIC:
                 type_._PARTIAL_ALIGNMENT = alignment
                 alignment = 1
-            alignment = max(type_._ALIGNMENT, alignment)
+            alignment = max(wire_alignment(type_), alignment)
         if not issubclass(cls, struct_packed) and cls._descriptor:
 
             def get_padded_sizes():
                 types = list(cls._types())
-                sizes = [tp._SIZE for tp in types]
-                alignments = [tp._ALIGNMENT for tp in types[1:]] + [cls._ALIGNMENT]
+                sizes = [wire_size(tp) for tp in types]
+                alignments = [wire_alignment(tp) for tp in types[1:]] + [cls._ALIGNMENT]
                 offset = 0
 
                 for size, alignment in zip(sizes, alignments):
-- 
2.43.0


From 0383e6bfdc8b32b3ad9e32f2bc9f595affff2977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:14 +0000
Subject: [PATCH 04/56] fix: align the field after a nested dynamic struct to
 its block in Python codec

The documented format aligns the first field after any dynamic field to the
largest alignment of its block. The Python codec did so after arrays and bytes
but not after nested dynamic structs, unlike the C++ codec. The alignment is
kept per field, as one struct type may be nested in several places.
---
 prophy/composite.py  | 8 ++++----
 prophy/descriptor.py | 5 +++--
 prophy/generators.py | 9 ++++++---
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 55e2764..2f0f855 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -71,8 +71,8 @@ class struct(_composite_base):
             data += (self._get_padding(len(data), wire_alignment(field.type)))
             data += field.encode_fcn(self, field.type, getattr(self, field.name, None), endianness)
 
-            if field.type._PARTIAL_ALIGNMENT:
-                data += self._get_padding(len(data), field.type._PARTIAL_ALIGNMENT)
+            if field.partial_alignment:
+                data += self._get_padding(len(data), field.partial_alignment)
 
         data += self._get_padding(len(data), self._ALIGNMENT)
 
@@ -91,8 +91,8 @@ class struct(_composite_base):
                 pos += field.decode_fcn(self, field.name, field.type, data, pos, endianness, len_hints)
             except ProphyError as e:
                 raise ProphyError("{}: {}".format(self.__class__.__name__, e))
-            if field.type._PARTIAL_ALIGNMENT:
-                pos += self._get_padding_size(pos, field.type._PARTIAL_ALIGNMENT)
+            if field.partial_alignment:
+                pos += self._get_padding_size(pos, field.partial_alignment)
 
         pos += self._get_padding_size(pos, self._ALIGNMENT)
 
diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index 250d631..fc3d71e 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -11,16 +11,17 @@ FieldDescriptor.__repr__ = lambda self: "<{}, {!r}, {!r}>".format(*self)
 
 class DescriptorField(renew.Mold):
     _cls_namespace = "prophy.descriptor"
-    _extra_slots = "encode_fcn", "decode_fcn"
+    _extra_slots = "encode_fcn", "decode_fcn", "partial_alignment"
 
     def __init__(self, name, type, discriminator=None):
         self.name = name
         self.type = type
         self.discriminator = discriminator
-        # These two are set later in extend_descriptor
+        # These are set later in add_attributes and extend_descriptor
         # their value don't affect __eq__ & __ne__ result
         self.encode_fcn = None
         self.decode_fcn = None
+        self.partial_alignment = None
 
     def __repr__(self):
         is_union_descriptor = self.discriminator is not None
diff --git a/prophy/generators.py b/prophy/generators.py
index 047d78f..94de2db 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -209,9 +209,12 @@ class struct_generator(_composite_generator_base):
             cls._ALIGNMENT = max(wire_alignment(t) for t in cls._types())
 
         alignment = 1
-        for type_ in reversed(list(cls._types())):
-            if issubclass(type_, (base_array, bytes)) and type_._DYNAMIC:
-                type_._PARTIAL_ALIGNMENT = alignment
+        for field in reversed(cls._descriptor):
+            type_ = field.type
+            if type_._DYNAMIC:
+                field.partial_alignment = alignment
+                if issubclass(type_, (base_array, bytes)):
+                    type_._PARTIAL_ALIGNMENT = alignment
                 alignment = 1
             alignment = max(wire_alignment(type_), alignment)
         if not issubclass(cls, struct_packed) and cls._descriptor:
-- 
2.43.0


From 029af156b4a2a833beecf68cb6a3a503c7d905d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:49 +0000
Subject: [PATCH 05/56] fix: decode a present optional enum that has no
 enumerator equal to 1

Decoding stored True into the field before reading the value. An enum rejects
that unless one of its enumerators is 1, so valid messages failed to decode.
---
 prophy/descriptor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index fc3d71e..5faebe0 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -102,8 +102,9 @@ def decode_optional(parent, name, type_, data, pos, endianness, len_hints):
     value, _ = type_._optional_type._decode(data, pos, endianness)
     opt_alignment = type_._OPTIONAL_ALIGNMENT
     if value:
-        setattr(parent, name, True)
         sub_type = type_.__bases__[0]
+        if codec_kind.is_composite(sub_type):
+            setattr(parent, name, True)
         pos += opt_alignment
         return opt_alignment + type_._decode(parent, name, sub_type, data, pos, endianness, len_hints)
     else:
-- 
2.43.0


From 3d6fa4793f6c2de543806d88961dd452955c5b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:11 +0000
Subject: [PATCH 06/56] fix: use encoded alignment of optional structs holding
 limited arrays in C++

The optional codec took the alignment between flag and value from the C++ type.
A limited array is a std::vector there, which is 8-aligned whatever it holds, so
an optional of such a struct did not follow the wire format.
---
 prophy_cpp/include/prophy/detail/decoder.hpp | 12 +++++++++---
 prophy_cpp/include/prophy/detail/encoder.hpp | 12 +++++++++---
 prophyc/generators/cpp_full.py               | 19 +++++++++++++++++--
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 63120de..b0d5271 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -322,7 +322,7 @@ inline bool do_decode(T* x, size_t n, const uint8_t*& pos, const uint8_t* end)
     return decoder<E, T>::decode(x, n, pos, end);
 }
 
-template <endianness E, typename T>
+template <endianness E, size_t A, typename T>
 inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
 {
     uint32_t disc;
@@ -331,9 +331,9 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
         return false;
     }
     x = disc ? optional<T>(T()) : optional<T>();
-    if (alignment<T>::value > sizeof(uint32_t))
+    if (A > sizeof(uint32_t))
     {
-        if (!do_decode_advance(alignment<T>::value - sizeof(uint32_t), pos, end))
+        if (!do_decode_advance(A - sizeof(uint32_t), pos, end))
         {
             return false;
         }
@@ -346,6 +346,12 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
     return true;
 }
 
+template <endianness E, typename T>
+inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
+{
+    return do_decode<E, size_t(alignment<T>::value)>(x, pos, end);
+}
+
 template <endianness E, typename T>
 inline bool do_decode_in_place(T& x, const uint8_t* pos, const uint8_t* end)
 {
diff --git a/prophy_cpp/include/prophy/detail/encoder.hpp b/prophy_cpp/include/prophy/detail/encoder.hpp
index 73fd7df..e4661ad 100644
--- a/prophy_cpp/include/prophy/detail/encoder.hpp
+++ b/prophy_cpp/include/prophy/detail/encoder.hpp
@@ -237,13 +237,13 @@ inline uint8_t* do_encode(uint8_t* data, const T* x, size_t n)
     return encoder<E, T>::encode(data, x, n);
 }
 
-template <endianness E, typename T>
+template <endianness E, size_t A, typename T>
 inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
 {
     data = do_encode<E>(data, uint32_t(bool(x)));
-    if (alignment<T>::value > sizeof(uint32_t))
+    if (A > sizeof(uint32_t))
     {
-        data = data + alignment<T>::value - sizeof(uint32_t);
+        data = data + A - sizeof(uint32_t);
     }
     if (x)
     {
@@ -252,6 +252,12 @@ inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
     return data + codec_traits<T>::size;
 }
 
+template <endianness E, typename T>
+inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
+{
+    return do_encode<E, size_t(alignment<T>::value)>(data, x);
+}
+
 } // namespace detail
 } // namespace prophy
 
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 492798d..cc1197a 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -63,6 +63,21 @@ def _get_cpp_builtin_type(node):
     return BUILTIN2C[_get_leaf(node).type_name]
 
 
+def _holds_vector(node):
+    """Tells if C++ type of fixed-size node has std::vector (limited array) inside."""
+    members = getattr(_get_leaf(node), 'members', ())
+    return any(getattr(m, 'is_limited', False) or _holds_vector(m) for m in members
+               if not isinstance(m, model.EnumMember))
+
+
+def _get_optional_params(m):
+    """
+    Gets template parameters of optional codec functions. These take encoded alignment
+    of value from its C++ type, unless it's given. Vector spoils the alignment of that type.
+    """
+    return _holds_vector(m) and 'E, {0}'.format(_get_leaf(m).alignment) or 'E'
+
+
 def _to_literal(value):
     try:
         return '{}{}'.format(value, int(value, 0) > 0 and 'u' or '')
@@ -347,7 +362,7 @@ def generate_struct_encode(node):
         elif m.greedy:
             text += 'pos = do_encode<E>(pos, x.{0}.data(), x.{0}.size());\n'.format(m.name)
         elif m.optional:
-            text += 'pos = do_encode<E>(pos, x.{0});\n'.format(m.name)
+            text += 'pos = do_encode<{1}>(pos, x.{0});\n'.format(m.name, _get_optional_params(m))
         elif m.name in bound:
             b = bound[m.name]
             mcpptype = _get_cpp_builtin_type(m)
@@ -382,7 +397,7 @@ def generate_struct_decode(node):
         elif m.greedy:
             text.append('do_decode_greedy<E>(x.{0}, pos, end)'.format(m.name))
         elif m.optional:
-            text.append('do_decode<E>(x.{0}, pos, end)'.format(m.name))
+            text.append('do_decode<{1}>(x.{0}, pos, end)'.format(m.name, _get_optional_params(m)))
         elif m.name in bound:
             b = bound[m.name]
             mcpptype = _get_cpp_builtin_type(m)
-- 
2.43.0


From 08ddb996e011819cddd4293a372e9f5642a9f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:23 +0000
Subject: [PATCH 07/56] fix: check bounds when skipping the value of an unset
 optional in C++

The decoder moved past the value slot without comparing it with the end of input.
The remaining length of the next field then wrapped around and reads went out of
bounds on truncated messages.
---
 prophy_cpp/include/prophy/detail/decoder.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index b0d5271..489153d 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -342,8 +342,7 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
     {
         return decoder<E, T>::decode(*x, pos, end);
     }
-    pos = pos + codec_traits<T>::size;
-    return true;
+    return do_decode_advance(codec_traits<T>::size, pos, end);
 }
 
 template <endianness E, typename T>
-- 
2.43.0


From 58cf588be3e46d2b1c6d4d4d2fe5b71004f83e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:24 +0000
Subject: [PATCH 08/56] fix: do not allocate more array elements than the input
 can hold in C++

Decode resized the vector to whatever the counter said, so a few corrupted bytes
made it allocate gigabytes, and a negative counter made it throw length_error.
---
 prophy_cpp/include/prophy/detail/decoder.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 489153d..b2494d9 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -381,7 +381,9 @@ inline bool do_decode_resize(std::vector<T>& v, const uint8_t*& pos, const uint8
     {
         return false;
     }
-    v.resize(n);
+    enum { min_size = (codec_traits<T>::size > 0) ? codec_traits<T>::size : 1 };
+    size_t fitting = size_t(end - pos) / min_size;
+    v.resize((size_t(n) > fitting) ? (fitting + 1) : size_t(n)); // one too many makes decoding elements fail
     return true;
 }
 
-- 
2.43.0


From bfe9d7ad8555afe65f5659adb3934721496a780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:38 +0000
Subject: [PATCH 09/56] fix: do not count a broken last element of a greedy
 array as read in C++

When the last dynamic element of a greedy array was cut short, decode dropped it
but kept the read position behind it. A truncated message was then accepted and
encoded back to fewer bytes.
---
 prophy_cpp/include/prophy/detail/decoder.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index b2494d9..af8ce53 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -278,9 +278,11 @@ struct decoder_greedy<E, T, true>
         v.resize(0);
         while(true)
         {
+            const uint8_t* last = pos;
             v.push_back(T());
             if (!decoder<E, T>::decode(v.back(), pos, end))
             {
+                pos = last;
                 v.pop_back();
                 return true;
             }
-- 
2.43.0


From 3816baa880b8dedb6a36c6418e10e5e366035b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:04 +0000
Subject: [PATCH 10/56] fix: encode bytes fields that were never assigned

An unset dynamic, limited or greedy bytes field has the default "", a str
on Python 3. Padding it with a bytes fill raised TypeError, so a freshly
created message could not be encoded.
---
 prophy/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 2f0f855..47f78b5 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -220,7 +220,7 @@ def bytes_(**kwargs):
 
         @staticmethod
         def _encode(value):
-            return value.ljust(size, b'\x00')
+            return (value or b"").ljust(size, b'\x00')
 
         @staticmethod
         def _decode(data, pos, len_hint):
-- 
2.43.0


From 0c468e89c1cce6eaa2334eb5c7fc084dc8afa4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:15 +0000
Subject: [PATCH 11/56] fix: refuse float values too large for the field

An r32 field accepted any float and an r64 field any int. Values which
struct.pack cannot store were only found out when encoding, as an
OverflowError.
---
 prophy/scalar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prophy/scalar.py b/prophy/scalar.py
index afd157a..cb5e903 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -65,6 +65,10 @@ def float_decorator(size, id_):
         def check(value):
             if not isinstance(value, (float, int, long)):
                 raise ProphyError("not a float")
+            try:
+                cls._encode(value, "<")
+            except (OverflowError, struct.error):
+                raise ProphyError("value out of {}B float's bounds".format(size))
             return value
 
         cls._check = check
-- 
2.43.0


From 566eeb6304941b3c48068d3e4534bf331c740c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:19 +0000
Subject: [PATCH 12/56] fix: report a wrong copy_from argument as a ProphyError

copy_from() of something which is not a message raised a bare TypeError.
The new error is both a ProphyError and a TypeError, so existing handlers
keep working.
---
 prophy/composite_base.py | 3 ++-
 prophy/exception.py      | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/prophy/composite_base.py b/prophy/composite_base.py
index 7f129d4..29ff806 100644
--- a/prophy/composite_base.py
+++ b/prophy/composite_base.py
@@ -1,3 +1,4 @@
+from .exception import ProphyTypeError
 from .scalar import prophy_data_object
 
 
@@ -15,7 +16,7 @@ class _composite_base(prophy_data_object):
     @classmethod
     def validate_copy_from(cls, rhs):
         if not isinstance(rhs, cls):
-            raise TypeError("Parameter to copy_from must be instance of same class.")
+            raise ProphyTypeError("Parameter to copy_from must be instance of same class.")
 
     def _copy_implementation(self, other):
         " To be overrided in derived class "
diff --git a/prophy/exception.py b/prophy/exception.py
index c526882..90422be 100644
--- a/prophy/exception.py
+++ b/prophy/exception.py
@@ -1,2 +1,6 @@
 class ProphyError(Exception):
     pass
+
+
+class ProphyTypeError(ProphyError, TypeError):
+    pass
-- 
2.43.0


From fef32130c3bcef446b0bb8fb8a601dcf84dad293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:19 +0000
Subject: [PATCH 13/56] fix: make array slice assignment and extend follow list
 rules

Assigning to a slice ignored its step, so x[::2] = [1] replaced the whole
range and could change the length of a fixed array. An extend() which met
a wrong value half way kept the values before it, a generator could not be
passed to a limited array, and extending an array with itself never ended.
Values are now collected and checked before the array is touched, and the
slice is used as given.
---
 prophy/container.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/prophy/container.py b/prophy/container.py
index 8811bd4..9bd53f7 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -1,9 +1,17 @@
 from .base_array import base_array
 from .composite import struct, union
-from .exception import ProphyError
+from .exception import ProphyError, ProphyTypeError
 from .six import xrange
 
 
+def to_list(values):
+    try:
+        iterator = iter(values)
+    except TypeError:
+        raise ProphyTypeError("object of type '{}' has no len()".format(type(values).__name__))
+    return list(iterator)
+
+
 def decode_scalar_array(tp, data, pos, endianness, count):
     if count is None:
         items, remainder = divmod(len(data) - pos, tp._SIZE)
@@ -45,15 +53,16 @@ class fixed_scalar_array(base_array):
 
     def __setitem__(self, idx, value):
         if isinstance(idx, slice):
-            self.__setslice__(idx.start, idx.stop, value)
+            values = [self._TYPE._check(elem) for elem in to_list(value)]
+            if len(self._values[idx]) != len(values):
+                raise ProphyError("setting slice with different length collection")
+            self._values[idx] = values
         else:
             value = self._TYPE._check(value)
             self._values[idx] = value
 
     def __setslice__(self, start, stop, values):
-        if len(self._values[start:stop]) != len(values):
-            raise ProphyError("setting slice with different length collection")
-        self._values[start:stop] = map(self._TYPE._check, values)
+        self[slice(start, stop)] = values
 
     def __eq__(self, other):
         return scalar_array_eq(self, other)
@@ -87,24 +96,26 @@ class bound_scalar_array(base_array):
     def extend(self, values):
         if not values:
             return
+        values = [self._TYPE._check(elem) for elem in to_list(values)]
         if self._max_len and len(self) + len(values) > self._max_len:
             raise ProphyError("exceeded array limit")
-        self._values.extend(map(self._TYPE._check, values))
+        self._values.extend(values)
 
     def remove(self, elem):
         self._values.remove(elem)
 
     def __setitem__(self, idx, value):
         if isinstance(idx, slice):
-            self.__setslice__(idx.start, idx.stop, value)
+            values = [self._TYPE._check(elem) for elem in to_list(value)]
+            if self._max_len and len(self) + len(values) - len(self._values[idx]) > self._max_len:
+                raise ProphyError("exceeded array limit")
+            self._values[idx] = values
         else:
             value = self._TYPE._check(value)
             self._values[idx] = value
 
     def __setslice__(self, start, stop, values):
-        if self._max_len and len(self) + len(values) - len(self._values[start:stop]) > self._max_len:
-            raise ProphyError("exceeded array limit")
-        self._values[start:stop] = map(self._TYPE._check, values)
+        self[slice(start, stop)] = values
 
     def __delitem__(self, idx):
         del self._values[idx]
-- 
2.43.0


From 46bfe73faa35a63fa194fdea64c8ab78d4eaf05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:29 +0000
Subject: [PATCH 14/56] fix: leave composite arrays unchanged when add or
 extend is refused

add() appended the new element before applying its attributes, and extend()
appended copies one by one, so a refused call left part of its work behind.
An unknown attribute or one naming an array of composites raised
AttributeError or TypeError; it is now a ProphyError. Extending an array
with itself no longer runs forever.
---
 prophy/container.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/prophy/container.py b/prophy/container.py
index 9bd53f7..91644e6 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -167,24 +167,29 @@ class bound_composite_array(base_array):
             raise ProphyError("exceeded array limit")
 
         new_element = self._TYPE()
-        self._values.append(new_element)
         for name, value in attributes.items():
+            if not isinstance(getattr(self._TYPE, name, None), property):
+                raise ProphyError("{} has no field {}".format(self._TYPE.__name__, name))
             attr = getattr(new_element, name)
-            if isinstance(attr, base_array):
+            if isinstance(attr, (fixed_scalar_array, bound_scalar_array)):
                 attr[:] = value
             else:
                 setattr(new_element, name, value)
+        self._values.append(new_element)
         return new_element
 
     def extend(self, elem_seq):
+        elem_seq = to_list(elem_seq)
         if self._max_len and len(self) + len(elem_seq) > self._max_len:
             raise ProphyError("exceeded array limit")
 
         composite_cls = self._TYPE
+        new_elements = []
         for message in elem_seq:
             new_element = composite_cls()
             new_element.copy_from(message)
-            self._values.append(new_element)
+            new_elements.append(new_element)
+        self._values.extend(new_elements)
 
     def __delitem__(self, idx):
         del self._values[idx]
-- 
2.43.0


From d27e58b485583c389b037ce9dcf757b12408249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:57 +0000
Subject: [PATCH 15/56] fix: refuse array contents which the length field
 cannot hold

An array or bytes field with a u8 length field accepted any number of
elements. Such a message could not be encoded: struct.error was raised
when the length was written. The capacity of the length field now limits
the array as a declared size does.
---
 prophy/composite.py  | 3 ++-
 prophy/generators.py | 2 ++
 prophy/scalar.py     | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 47f78b5..3bd8734 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -197,6 +197,7 @@ def bytes_(**kwargs):
         raise ProphyError("unknown arguments to bytes field")
 
     class _bytes(bytes):
+        _max_len = size
         _SIZE = size
         _DYNAMIC = not size
         _UNLIMITED = not size and not bound
@@ -212,7 +213,7 @@ def bytes_(**kwargs):
         def _check(value):
             if not isinstance(value, bytes):
                 raise ProphyError("not a bytes")
-            if size and len(value) > size:
+            if _bytes._max_len and len(value) > _bytes._max_len:
                 raise ProphyError("too long")
             if size and not bound:
                 return value.ljust(size, b'\x00')
diff --git a/prophy/generators.py b/prophy/generators.py
index 94de2db..879c968 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -308,6 +308,8 @@ class struct_generator(_composite_generator_base):
         sizer_item = next(field for field in cls._descriptor if field.name == sizer_name)
         bound_shift = container_item.type._BOUND_SHIFT
         cls.validate_sizer_type(sizer_item, container_item)
+        sizer_limit = sizer_item.type._MAX - bound_shift
+        container_item.type._max_len = min(container_item.type._max_len or sizer_limit, sizer_limit)
 
         if sizer_item.type.__name__ == "container_len":
             sizer_item.type.add_bounded_container(container_item.name)
diff --git a/prophy/scalar.py b/prophy/scalar.py
index cb5e903..dfb65dd 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -51,6 +51,7 @@ def int_decorator(size, id_, min_, max_):
         cls._check = check
 
         cls._DEFAULT = 0
+        cls._MAX = max_
 
         return cls
 
-- 
2.43.0


From bbe82f539bdf95105c9b483009cb61bb9660a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:10 +0000
Subject: [PATCH 16/56] fix: copy optional composites and limited arrays of
 composites

copy_from() crashed on a message with a present optional struct or union,
and dropped the elements of a limited array of composites because the
array of the target was empty. It also refused to copy a plain message
into an optional field of the same type.
---
 prophy/composite.py      | 5 ++++-
 prophy/composite_base.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 3bd8734..9c9dbb7 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -109,7 +109,7 @@ class struct(_composite_base):
         lhs = getattr(self, name)
         if isinstance(rhs, base_array):
             if codec_kind.is_composite(rhs._TYPE):
-                if rhs._DYNAMIC:
+                if rhs._DYNAMIC or rhs._BOUND:
                     del lhs[:]
                     lhs.extend(rhs[:])
                 else:
@@ -118,6 +118,9 @@ class struct(_composite_base):
             else:
                 lhs[:] = rhs[:]
         elif codec_kind.is_composite(type(rhs)):
+            if lhs is None:
+                setattr(self, name, True)
+                lhs = getattr(self, name)
             lhs.copy_from(rhs)
         else:
             self._fields[name] = rhs
diff --git a/prophy/composite_base.py b/prophy/composite_base.py
index 29ff806..6fd9682 100644
--- a/prophy/composite_base.py
+++ b/prophy/composite_base.py
@@ -15,7 +15,7 @@ class _composite_base(prophy_data_object):
 
     @classmethod
     def validate_copy_from(cls, rhs):
-        if not isinstance(rhs, cls):
+        if not isinstance(rhs, cls.__bases__[0] if cls._OPTIONAL else cls):
             raise ProphyTypeError("Parameter to copy_from must be instance of same class.")
 
     def _copy_implementation(self, other):
-- 
2.43.0


From e7978530c2184ba93e6be1c27bdc2d9f9ff8c5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:18 +0000
Subject: [PATCH 17/56] fix: divide constants as integers

'/' in constant expressions produced a float, so a later use of the
constant ended in a ValueError, and large values in an OverflowError.
---
 prophyc/calc.py           | 2 +-
 prophyc/parsers/prophy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophyc/calc.py b/prophyc/calc.py
index 5b554c6..0e03b45 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -74,7 +74,7 @@ class Calc(object):
         elif p[2] == '*':
             p[0] = p[1] * p[3]
         elif p[2] == '/':
-            p[0] = p[1] / p[3]
+            p[0] = p[1] // p[3]
         elif p[2] == '<<':
             p[0] = p[1] << p[3]
         elif p[2] == '>>':
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 0ab25ad..dbc6505 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -415,7 +415,7 @@ class Parser(object):
             elif t[2] == '*':
                 t[0] = t[1] * t[3]
             elif t[2] == '/':
-                t[0] = t[1] / t[3]
+                t[0] = t[1] // t[3]
             elif t[2] == '<<':
                 t[0] = t[1] << t[3]
             elif t[2] == '>>':
-- 
2.43.0


From 38e64d40ab98cbdfc07df643048c8664aecd5547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:49 +0000
Subject: [PATCH 18/56] fix: report negative shifts and oversized numbers as
 schema errors

They surfaced as ValueError, OverflowError or MemoryError. Expression
results are limited to 4096 bits.
---
 prophyc/parsers/prophy.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index dbc6505..c96ca80 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -7,6 +7,10 @@ import ply.yacc as yacc
 from prophyc import file_processor, model, six
 
 
+MAX_VALUE_BITS = 4096
+"""Limit of constant expression results, keeps evaluation time and memory in bounds."""
+
+
 def get_column(input_, pos):
     return pos - input_.rfind('\n', 0, pos)
 
@@ -42,18 +46,15 @@ class Parser(object):
 
     def t_CONST16(self, t):
         r'0x[0-9a-fA-F]+'
-        t.value = int(t.value, 16)
-        return t
+        return self._make_number(t, 16)
 
     def t_CONST8(self, t):
         r'0[0-7]+'
-        t.value = int(t.value, 8)
-        return t
+        return self._make_number(t, 8)
 
     def t_CONST10(self, t):
         r'(([1-9]\d*)|0)'
-        t.value = int(t.value)
-        return t
+        return self._make_number(t, 10)
 
     t_LBRACKET = r'\['
     t_RBRACKET = r'\]'
@@ -114,6 +115,14 @@ class Parser(object):
         self.errors = []
         self.parse_error_prefix = parse_error_prefix
 
+    def _make_number(self, t, base):
+        if len(t.value) > MAX_VALUE_BITS // 4:
+            self._parser_error("number out of range", t.lexer.lineno, t.lexpos)
+            t.value = 0
+        else:
+            t.value = int(t.value, base)
+        return t
+
     def _parser_error(self, message, line, pos):
         self.errors.append(("{}:{}:{}".format(
             self.parse_error_prefix,
@@ -416,16 +425,22 @@ class Parser(object):
                 t[0] = t[1] * t[3]
             elif t[2] == '/':
                 t[0] = t[1] // t[3]
+            elif t[3] < 0:
+                self._parser_error('negative shift', t.lineno(1), t.lexpos(1))
+                t[0] = 0
             elif t[2] == '<<':
-                t[0] = t[1] << t[3]
+                t[0] = t[1] << min(t[3], MAX_VALUE_BITS)
             elif t[2] == '>>':
-                t[0] = t[1] >> t[3]
+                t[0] = t[1] >> min(t[3], MAX_VALUE_BITS)
         except ZeroDivisionError:
             self._parser_error(
                 'division by zero',
                 t.lineno(1), t.lexpos(1)
             )
             t[0] = 0
+        if abs(t[0]) >> MAX_VALUE_BITS:
+            self._parser_error('expression value out of range', t.lineno(1), t.lexpos(1))
+            t[0] = 0
         t.slice[0].lineno = t.lineno(1)
         t.slice[0].lexpos = t.lexpos(1)
 
-- 
2.43.0


From bb92fada7d2c9707cca9f5e9aff12c928d0ecbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:57 +0000
Subject: [PATCH 19/56] fix: report repeated enumerators and union arms as
 parse errors

Building the model node raised a ModelError, which nothing turned into
a located diagnostic.
---
 prophyc/model.py          |  9 ++++++---
 prophyc/parsers/prophy.py | 24 +++++++++++++++---------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 716a39f..21087fd 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -16,7 +16,7 @@ class ParseError(Exception):
 
 class ModelError(Exception):
     """ General error for model tree construction errors. """
-    pass
+    location = None
 
 
 class Kind:
@@ -632,8 +632,11 @@ class ModelParser(object):
         self.patcher = patcher
         self.emit = emit
 
-    def __call__(self, *parse_args):
-        nodes = self.parser.parse(*parse_args)
+    def __call__(self, content, path, process_file):
+        try:
+            nodes = self.parser.parse(content, path, process_file)
+        except ModelError as e:
+            raise ParseError([(e.location or path, str(e))])
         if self.patcher:
             self.patcher(nodes)
         nodes, _ = evaluate_model(nodes, self.emit.warn)
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index c96ca80..679afce 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -123,12 +123,11 @@ class Parser(object):
             t.value = int(t.value, base)
         return t
 
+    def _make_location(self, line, pos):
+        return "{}:{}:{}".format(self.parse_error_prefix, line, get_column(self.lexer.lexdata, pos))
+
     def _parser_error(self, message, line, pos):
-        self.errors.append(("{}:{}:{}".format(
-            self.parse_error_prefix,
-            line,
-            get_column(self.lexer.lexdata, pos)
-        ), message))
+        self.errors.append((self._make_location(line, pos), message))
 
     def _parser_check(self, condition, message, line, pos):
         if not condition:
@@ -220,9 +219,12 @@ class Parser(object):
 
     def p_enum_def(self, t):
         '''enum_def : ENUM unique_id enum_body SEMI'''
-        node = model.Enum(t[2], t[3])
-        self.typedecls[t[2]] = node
-        self.nodes.append(node)
+        try:
+            node = model.Enum(t[2], t[3])
+            self.typedecls[t[2]] = node
+            self.nodes.append(node)
+        except model.ModelError as e:
+            self._parser_error(str(e), t.lineno(1), t.lexpos(1))
 
     def p_enum_body(self, t):
         '''enum_body : LBRACE enum_member_list RBRACE'''
@@ -343,7 +345,11 @@ class Parser(object):
                 line, pos
             )
 
-        node = model.Union(t[2], [x for x, _, _ in t[3]])
+        try:
+            node = model.Union(t[2], [x for x, _, _ in t[3]])
+        except model.ModelError as e:
+            e.location = self._make_location(t.lineno(1), t.lexpos(1))
+            raise
         self.typedecls[t[2]] = node
         self.nodes.append(node)
 
-- 
2.43.0


From ba86694d7065e4e4fb198323ff8887aa5ff88b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:07 +0000
Subject: [PATCH 20/56] fix: do not take a directory for an included file

An empty include path or one naming a directory ended in IsADirectoryError.
---
 prophyc/file_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/file_processor.py b/prophyc/file_processor.py
index 1ab3f99..e85243b 100644
--- a/prophyc/file_processor.py
+++ b/prophyc/file_processor.py
@@ -16,7 +16,7 @@ class FileNotFoundError(Exception):
 def _get_first_existing_path(leaf, dirs):
     for directory in dirs:
         path = os.path.join(directory, leaf)
-        if os.path.exists(path):
+        if os.path.isfile(path):
             return path
 
 
-- 
2.43.0


From 8f8fbfdde4955b49c36c2897ee39eded75380fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:16 +0000
Subject: [PATCH 21/56] fix: report input files which are not utf-8 as parse
 errors

---
 prophyc/file_processor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prophyc/file_processor.py b/prophyc/file_processor.py
index e85243b..54a5aa5 100644
--- a/prophyc/file_processor.py
+++ b/prophyc/file_processor.py
@@ -2,6 +2,8 @@ import codecs
 import os
 from contextlib import contextmanager
 
+from . import model
+
 
 class CyclicIncludeError(Exception):
     def __init__(self, path):
@@ -81,7 +83,12 @@ class FileProcessor(object):
         self.files[abspath] = None
 
         with codecs.open(path, 'r', encoding='utf-8') as f:
-            content = f.read()
+            try:
+                content = f.read()
+            except UnicodeDecodeError as e:
+                line = e.object.count(b'\n', 0, e.start) + 1
+                column = e.start - e.object.rfind(b'\n', 0, e.start)
+                raise model.ParseError([("%s:%s:%s" % (path, line, column), "file is not utf-8 encoded")])
         result = self.process_content(content, path, lambda leaf: self.process_leaf(leaf))
         self.files[abspath] = result
         return result
-- 
2.43.0


From f14683b1a736ed9362ed82672984494a287aa6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:27 +0000
Subject: [PATCH 22/56] fix: report malformed patch files like other patch
 errors

A line with a single word raised ValueError and a file which is not utf-8
raised UnicodeDecodeError.
---
 prophyc/patch.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/prophyc/patch.py b/prophyc/patch.py
index e6ae894..68071a3 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -9,12 +9,17 @@ Action = namedtuple("Action", ["action", "params"])
 def parse(filename):
     patches = defaultdict(list)
     with codecs.open(filename, "r", encoding="utf-8") as f:
-        for line in f.readlines():
-            if line.strip():
-                words = line.split()
-                name, action = words[:2]
-                params = words[2:]
-                patches[name].append(Action(action, params))
+        try:
+            lines = f.readlines()
+        except UnicodeDecodeError:
+            raise Exception("Patch file is not utf-8 encoded: %s" % filename)
+
+    for line in lines:
+        words = line.split()
+        if len(words) == 1:
+            raise Exception("Patch has no action: %s" % words[0])
+        if words:
+            patches[words[0]].append(Action(words[1], words[2:]))
     return dict(patches)
 
 
-- 
2.43.0


From bdde12ec330f4c3b3069eebe4223e2aebe87d434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:01 +0000
Subject: [PATCH 23/56] fix: report malformed isar xml as a parse error with
 location

---
 prophyc/parsers/isar.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index 0567e94..e9a9945 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -193,14 +193,21 @@ class IsarParser(object):
     def __init__(self, warn=None):
         self.warn = warn
 
-    def parse(self, content, _, process_file):
+    def parse(self, content, path, process_file):
         # by default FileProcessor decodes files while opening in _process_file method,
         # but ElementTree doesn't like it. ElementTree handles the encoding on its own,
         # so it's OK to encode the data back into utf-8 before parsing
         content = content.encode('utf-8')
 
-        def collect():
+        try:
             root = ElementTree.fromstring(content)
+        except ElementTree.ParseError as e:
+            line, column = e.position
+            raise model.ParseError([("%s:%s:%s" % (path, line, column + 1), str(e))])
+        except (ValueError, LookupError) as e:  # unsupported or unknown encoding declaration
+            raise model.ParseError([("%s:1:1" % path, str(e))])
+
+        def collect():
             for xml_elem in root.iterfind('.//*[@href]'):
                 yield make_include(xml_elem, process_file, self.warn)
 
-- 
2.43.0


From 0eb61e23dc91f1f5107aafac5f6de02b9d073dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:21 +0000
Subject: [PATCH 24/56] fix: report isar elements which lack required
 attributes

Missing names, types or values and unknown primitive types surfaced as
TypeError, AttributeError, IndexError or KeyError, sometimes in the
generators. Repeated enum values escaped as ValueError.
---
 prophyc/parsers/isar.py | 49 +++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index e9a9945..3d08953 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -57,6 +57,18 @@ primitive_types = {"8 bit integer unsigned": "u8",
                    "64 bit float": "r64"}
 
 
+class IsarError(model.ModelError, ValueError):
+    """ Element of isar xml has no proper meaning. """
+
+
+def get_required(xml_elem, attribute):
+    value = xml_elem.get(attribute)
+    if not value:
+        raise IsarError("Missing attribute '{}' in element '{}'.".format(
+            attribute, " ".join([xml_elem.tag] + ['%s="%s"' % x for x in sorted(xml_elem.items())])))
+    return value
+
+
 def make_include(xml_elem, process_file, warn):
     if "include" in xml_elem.tag:
         path = xml_elem.get("href")
@@ -75,8 +87,8 @@ def get_docstr(xml_elem):
 
 def make_constant(xml_elem):
     return model.Constant(
-        xml_elem.get("name"),
-        expand_operators(xml_elem.get("value")),
+        get_required(xml_elem, "name"),
+        expand_operators(get_required(xml_elem, "value")),
         docstring=get_docstr(xml_elem)
     )
 
@@ -84,15 +96,18 @@ def make_constant(xml_elem):
 def make_typedef(xml_elem):
     if "type" in xml_elem.attrib:
         return model.Typedef(
-            xml_elem.get("name"),
-            xml_elem.get("type"),
+            get_required(xml_elem, "name"),
+            get_required(xml_elem, "type"),
             docstring=get_docstr(xml_elem)
         )
 
     elif "primitiveType" in xml_elem.attrib and xml_elem.get("name") not in primitive_types.values():
+        primitive_type = xml_elem.get("primitiveType")
+        if primitive_type not in primitive_types:
+            raise IsarError("Unknown primitive type '{}'.".format(primitive_type))
         return model.Typedef(
-            xml_elem.get("name"),
-            primitive_types[xml_elem.get("primitiveType")],
+            get_required(xml_elem, "name"),
+            primitive_types[primitive_type],
             docstring=get_docstr(xml_elem)
         )
 
@@ -102,13 +117,13 @@ def make_enum(xml_elem):
         values = set()
         for m in enum_obj.members:
             if m.value in values:
-                raise ValueError("Duplicate Enum value in '{}', value '{}'.".format(enum_obj.name, m.value))
+                raise IsarError("Duplicate Enum value in '{}', value '{}'.".format(enum_obj.name, m.value))
             values.add(m.value)
 
     if len(xml_elem):
         members = []
         for member in xml_elem:
-            value = member.get('value')
+            value = get_required(member, 'value')
             try:
                 int_value = int(value, 0)
                 if int_value < 0:
@@ -116,19 +131,19 @@ def make_enum(xml_elem):
             except ValueError:
                 pass
             members.append(model.EnumMember(
-                member.get("name"),
+                get_required(member, "name"),
                 expand_operators(value),
                 docstring=get_docstr(member))
             )
 
-        enum = model.Enum(xml_elem.get("name"), members, docstring=get_docstr(xml_elem))
+        enum = model.Enum(get_required(xml_elem, "name"), members, docstring=get_docstr(xml_elem))
         check_for_duplicates(enum)
         return enum
 
 
 def make_struct_members(xml_elem, dynamic_array=False):
-    xml_elem_name = xml_elem.get("name")
-    xml_elem_type = xml_elem.get("type")
+    xml_elem_name = get_required(xml_elem, "name")
+    xml_elem_type = get_required(xml_elem, "type")
     optional = xml_elem.get("optional")
     optional = bool(optional) and optional.lower() == "true"
     dimension = xml_elem.find("dimension")
@@ -172,7 +187,7 @@ def make_struct(xml_elem, last_member_array_is_dynamic=False):
         for member in xml_elem:
             for sub_ in make_struct_members(member, last_member_array_is_dynamic):
                 members.append(sub_)
-        return model.Struct(xml_elem.get("name"), members, docstring=get_docstr(xml_elem))
+        return model.Struct(get_required(xml_elem, "name"), members, docstring=get_docstr(xml_elem))
 
 
 def make_union(xml_elem):
@@ -180,12 +195,12 @@ def make_union(xml_elem):
         members = []
         for member in xml_elem:
             members.append(model.UnionMember(
-                member.get("name"),
-                member.get("type"),
-                member.get("discriminatorValue"),
+                get_required(member, "name"),
+                get_required(member, "type"),
+                get_required(member, "discriminatorValue"),
                 docstring=get_docstr(member),
             ))
-        return model.Union(xml_elem.get('name'), members, docstring=get_docstr(xml_elem))
+        return model.Union(get_required(xml_elem, 'name'), members, docstring=get_docstr(xml_elem))
 
 
 class IsarParser(object):
-- 
2.43.0


From 3791d231efc96f5e36fe8a5241a65a4bf9b684a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:58 +0000
Subject: [PATCH 25/56] fix: report definitions which depend on themselves

The dependency sort never ended on recursive structs, unions, typedefs or
constants.
---
 prophyc/model.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 21087fd..06e9d83 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -392,17 +392,19 @@ def topological_sort(nodes):
 
     def model_sort_rotate():
         node = nodes[index]
+        pending.add(node.name)
         for dep in node.dependencies():
             if dep not in known and dep in available:
-                found_index = find_first_dep(dep, index + 1)
-                if found_index:
-                    nodes.insert(index, nodes.pop(found_index))
+                if dep in pending:
+                    raise ModelError("Definition of '%s' depends on itself." % dep)
+                nodes.insert(index, nodes.pop(find_first_dep(dep, index + 1)))
                 return True
         known.add(node.name)
 
     known = set(x + y for x in "uir" for y in ["8", "16", "32", "64"])
     available = set(node.name for node in nodes)
     for index in range(len(nodes)):
+        pending = set()
         while model_sort_rotate():
             pass
 
@@ -635,9 +637,9 @@ class ModelParser(object):
     def __call__(self, content, path, process_file):
         try:
             nodes = self.parser.parse(content, path, process_file)
+            if self.patcher:
+                self.patcher(nodes)
+            nodes, _ = evaluate_model(nodes, self.emit.warn)
         except ModelError as e:
             raise ParseError([(e.location or path, str(e))])
-        if self.patcher:
-            self.patcher(nodes)
-        nodes, _ = evaluate_model(nodes, self.emit.warn)
         return nodes
-- 
2.43.0


From 0842340dc6d711e9d82694ce4dd624ae7005dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:31 +0000
Subject: [PATCH 26/56] fix: report malformed expressions of isar and sack
 schemas as such

The expression calculator raised AttributeError, ZeroDivisionError, ValueError or
OverflowError on truncated expressions, division by zero, negative or huge shifts
and numbers, and never finished when typedefs referred to one another.
---
 prophyc/calc.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/prophyc/calc.py b/prophyc/calc.py
index 0e03b45..872fa76 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -2,10 +2,21 @@ import ply.lex as lex
 import ply.yacc as yacc
 
 
+MAX_VALUE_BITS = 4096
+"""Limit of expression results, keeps evaluation time and memory in bounds."""
+
+
 class ParseError(Exception):
     pass
 
 
+def _make_number(t, base):
+    if len(t.value) > MAX_VALUE_BITS // 4:
+        raise ParseError("number out of range")
+    t.value = int(t.value, base)
+    return t
+
+
 class Calc(object):
     tokens = ('NAME', 'CONST16', 'CONST10', 'LSHIFT', 'RSHIFT')
     precedence = (
@@ -33,14 +44,12 @@ class Calc(object):
     @staticmethod
     def t_CONST16(t):
         r"""0x[0-9a-fA-F]+"""
-        t.value = int(t.value, 16)
-        return t
+        return _make_number(t, 16)
 
     @staticmethod
     def t_CONST10(t):
         r"""\d+"""
-        t.value = int(t.value)
-        return t
+        return _make_number(t, 10)
 
     t_ignore = " \t"
 
@@ -73,14 +82,20 @@ class Calc(object):
             p[0] = p[1] - p[3]
         elif p[2] == '*':
             p[0] = p[1] * p[3]
+        elif p[2] == '|':
+            p[0] = p[1] | p[3]
         elif p[2] == '/':
+            if not p[3]:
+                raise ParseError("division by zero")
             p[0] = p[1] // p[3]
+        elif p[3] < 0:
+            raise ParseError("negative shift")
         elif p[2] == '<<':
-            p[0] = p[1] << p[3]
+            p[0] = p[1] << min(p[3], MAX_VALUE_BITS)
         elif p[2] == '>>':
-            p[0] = p[1] >> p[3]
-        elif p[2] == '|':
-            p[0] = p[1] | p[3]
+            p[0] = p[1] >> min(p[3], MAX_VALUE_BITS)
+        if abs(p[0]) >> MAX_VALUE_BITS:
+            raise ParseError("expression value out of range")
 
     @staticmethod
     def p_expression_uminus(p):
@@ -100,14 +115,20 @@ class Calc(object):
 
     def p_expression_name(self, p):
         """expression : NAME"""
+        visited = set()
         try:
             p[0] = p[1]
             while not isinstance(p[0], int):
+                if p[0] in visited:
+                    raise ParseError("numeric constant '%s' refers to itself" % p[1])
+                visited.add(p[0])
                 p[0] = self.vars[p[0]]
         except LookupError:
             raise ParseError("numeric constant '%s' not found" % p[1])
 
     def p_error(self, p):
+        if p is None:
+            raise ParseError("unexpected end of expression")
         raise ParseError("syntax error at '%s'" % p.value)
 
 
-- 
2.43.0


From 608492b21dfa292ef70c8664df7a650ce43c0766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:31 +0000
Subject: [PATCH 27/56] fix: compute union sizes without floating point

Sizes above 2**53 were rounded and sizes above 2**1024 raised OverflowError.
---
 prophyc/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 06e9d83..57ef436 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -587,7 +587,7 @@ def evaluate_sizes(nodes, warn=null_warn):
     def evaluate_union_size(node_):
         node_.alignment = max(DISC_SIZE, node_.members and max(x.alignment for x in node_.members) or 1)
         node_.byte_size = (node_.members and max(x.byte_size for x in node_.members) or 0) + node_.alignment
-        node_.byte_size = int((node_.byte_size + node_.alignment - 1) / node_.alignment) * node_.alignment
+        node_.byte_size = (node_.byte_size + node_.alignment - 1) // node_.alignment * node_.alignment
 
     for node in nodes:
         if isinstance(node, Struct):
-- 
2.43.0


From b9597d4b7680a55a22797c4591318078b197df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:29 +0000
Subject: [PATCH 28/56] fix: report arrays without a proper sizer when
 generating C++

Isar schemas and patches can name a missing or non-integer member as the size of an
array, or make a greedy array out of a member which is not the last one. The C++
generators ended with KeyError, AttributeError or TypeError then.
---
 prophyc/generators/base.py     | 25 +++++++++++++++++++++++++
 prophyc/generators/cpp.py      |  4 +++-
 prophyc/generators/cpp_full.py |  3 ++-
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/prophyc/generators/base.py b/prophyc/generators/base.py
index 3576768..c19d53b 100644
--- a/prophyc/generators/base.py
+++ b/prophyc/generators/base.py
@@ -4,10 +4,35 @@ import os
 from prophyc import model
 
 
+INTEGERS = frozenset(["byte"] + [x + y for x in "ui" for y in ("8", "16", "32", "64")])
+
+
 class GenerateError(Exception):
     pass
 
 
+def check_arrays(struct):
+    """
+        Arrays need a preceding integer member as their sizer, only the last member can take all remaining bytes.
+        Isar schemas and patches are able to violate this.
+    """
+    integers = set()
+    for index, member in enumerate(struct.members):
+        if member.bound and member.bound not in integers:
+            raise GenerateError('{}::{} has no preceding integer member {} for its size'.format(
+                struct.name, member.name, member.bound))
+        if member.greedy and index + 1 < len(struct.members):
+            raise GenerateError('{}::{} is a greedy array, but not the last member'.format(struct.name, member.name))
+        if not member.is_array and not member.optional and _get_type_name(member) in INTEGERS:
+            integers.add(member.name)
+
+
+def _get_type_name(member):
+    while isinstance(member.definition, model.Typedef):
+        member = member.definition
+    return None if member.definition else member.type_name
+
+
 def _write_file(file_path, string):
     with codecs.open(file_path, "w", encoding="utf-8") as f:
         f.write(string)
diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 7593f21..7d42b8a 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -1,5 +1,5 @@
 from prophyc import model
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase
+from prophyc.generators.base import check_arrays, GenerateError, GeneratorBase, TranslatorBase
 
 primitive_types = {
     'u8': 'uint8_t',
@@ -374,3 +374,5 @@ class CppGenerator(GeneratorBase):
         for n in nodes:
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
+            if isinstance(n, model.Struct):
+                check_arrays(n)
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index cc1197a..26867ab 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -1,6 +1,6 @@
 from prophyc import model
 from prophyc.model import DISC_SIZE, BUILTIN_SIZES
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase
+from prophyc.generators.base import check_arrays, GenerateError, GeneratorBase, TranslatorBase
 
 BUILTIN2C = {
     'i8': 'int8_t',
@@ -632,6 +632,7 @@ class CppFullGenerator(GeneratorBase):
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
             if isinstance(n, model.Struct):
+                check_arrays(n)
                 occured = set()
                 for m in n.members:
                     if m.bound:
-- 
2.43.0


From 62a77619fb2584cd2a371dc0eed00481c9de3c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:40 +0000
Subject: [PATCH 29/56] fix: do not take a constant for a type

An isar struct, union or typedef naming a constant as its type ended with
AttributeError, now the type is reported as not found.
---
 prophyc/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 57ef436..3da2606 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -461,8 +461,9 @@ def cross_reference(nodes, warn=null_warn):
             node_.definition = None
             return
         found = types_index.get(node_.type_name)
-        if not found:
+        if isinstance(found, Constant) or not found:
             warn("type '%s' not found" % node_.type_name)
+            found = None
         node_.definition = found
 
     def evaluate_array_sizes(node_):
-- 
2.43.0


From a4c08c6362ebf54c60d5d79de9b08279afce9c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:52 +0000
Subject: [PATCH 30/56] fix: walk through each included file once

Includes forming stacked diamonds were walked through along every path, which takes
time exponential in their number.
---
 prophyc/__init__.py     |  4 +---
 prophyc/model.py        | 45 ++++++++++++++++++-----------------------
 prophyc/parsers/sack.py |  7 ++-----
 3 files changed, 23 insertions(+), 33 deletions(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 56f4753..8b2f73c 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -135,11 +135,9 @@ def get_basename(path):
 
 def flatten_included_defs(supple_nodes):
     def get_nodes_and_names(nodes_list):
-        for elem in nodes_list:
+        for elem in model.flatten_includes(nodes_list):
             if isinstance(elem, model.Include):
                 yield elem.name, elem.members
-                for sub_elem in get_nodes_and_names(elem.members):
-                    yield sub_elem
 
     """ pass trough a dictionary to avoid duplicates """
     return tuple(dict(get_nodes_and_names(supple_nodes)).items())
diff --git a/prophyc/model.py b/prophyc/model.py
index 3da2606..59ebdb1 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -302,11 +302,8 @@ class Include(_Container):
 
     def defined_symbols(self):
         """ Generate collection of symbols delivered by this include. """
-        for member in self.members:
-            if isinstance(member, Include):
-                for symbol in member.defined_symbols():
-                    yield symbol
-            else:
+        for member in flatten_includes(self.members):
+            if not isinstance(member, Include):
                 yield member
 
 
@@ -409,28 +406,28 @@ def topological_sort(nodes):
             pass
 
 
+def flatten_includes(nodes_, visited=None):
+    """ Walks through nodes and included nodes. Members of a file included many times come out only once. """
+    visited = set() if visited is None else visited
+    for node_ in nodes_:
+        yield node_
+        if isinstance(node_, Include) and id(node_.members) not in visited:
+            visited.add(id(node_.members))
+            for member in flatten_includes(node_.members, visited):
+                yield member
+
+
 def _make_types_index(nodes_):
     """ Creates flat dictionary that maps model objects to its name. """
-    included = set()
-    for node_ in nodes_:
-        if isinstance(node_, Include):
-            if node_.name not in included:
-                included.add(node_.name)
-                for included_name, included_type in _make_types_index(node_.members):
-                    yield included_name, included_type
-        else:
+    for node_ in flatten_includes(nodes_):
+        if not isinstance(node_, Include):
             yield node_.name, node_
 
 
-def _collect_constants(nodes_, constants=None):
-    constants = constants or {}
-    included = set()
-    for node_ in nodes_:
-        if isinstance(node_, Include) and node_.name not in included:
-            included.add(node_.name)
-            constants.update(_collect_constants(node_.members, constants))
-
-        elif isinstance(node_, Constant):
+def _collect_constants(nodes_):
+    constants = {}
+    for node_ in flatten_includes(nodes_):
+        if isinstance(node_, Constant):
             constants[node_.name] = node_.eval_int(constants)
 
         elif isinstance(node_, Enum):
@@ -590,7 +587,7 @@ def evaluate_sizes(nodes, warn=null_warn):
         node_.byte_size = (node_.members and max(x.byte_size for x in node_.members) or 0) + node_.alignment
         node_.byte_size = (node_.byte_size + node_.alignment - 1) // node_.alignment * node_.alignment
 
-    for node in nodes:
+    for node in flatten_includes(nodes):
         if isinstance(node, Struct):
             if evaluate_members_sizes(node):
                 [evaluate_array_and_optional_size(mem) for mem in node.members]
@@ -599,8 +596,6 @@ def evaluate_sizes(nodes, warn=null_warn):
         elif isinstance(node, Union):
             if evaluate_members_sizes(node):
                 evaluate_union_size(node)
-        elif isinstance(node, Include):
-            evaluate_sizes(node.members, warn)
 
 
 def partition(members):
diff --git a/prophyc/parsers/sack.py b/prophyc/parsers/sack.py
index 3310b10..fe75143 100644
--- a/prophyc/parsers/sack.py
+++ b/prophyc/parsers/sack.py
@@ -161,11 +161,8 @@ class SupplementaryDefs(object):
 
     @staticmethod
     def flatten_nodes(nodes_list):
-        for node in nodes_list:
-            if isinstance(node, model.Include):
-                for node in SupplementaryDefs.flatten_nodes(node.members):
-                    yield node
-            else:
+        for node in model.flatten_includes(nodes_list):
+            if not isinstance(node, model.Include):
                 yield node
 
     @staticmethod
-- 
2.43.0


From f06470b438c55c28f8c12c827adcbfdd92b1a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:56 +0000
Subject: [PATCH 31/56] fix: report includes nested too deeply

Chains of more than a hundred included files ended with RecursionError.
---
 prophyc/file_processor.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/prophyc/file_processor.py b/prophyc/file_processor.py
index 54a5aa5..333feb8 100644
--- a/prophyc/file_processor.py
+++ b/prophyc/file_processor.py
@@ -5,6 +5,10 @@ from contextlib import contextmanager
 from . import model
 
 
+MAX_INCLUDE_DEPTH = 80
+"""Parsing of included files recurs, stay clear of interpreter's recursion limit."""
+
+
 class CyclicIncludeError(Exception):
     def __init__(self, path):
         Exception.__init__(self, "file %s included again during parsing" % path)
@@ -47,6 +51,7 @@ class FileProcessor(object):
         self.process_content = process_content
         '''Function object accepting arguments (content, path, process_file)'''
         self.include_dirs = [d for d in include_dirs]
+        self.depth = 0
         self.files = {}
         '''Absolute paths are keys, values are results of process_content calls'''
 
@@ -71,6 +76,8 @@ class FileProcessor(object):
         path = _get_first_existing_path(leaf, self.include_dirs)
         if not path:
             raise FileNotFoundError(leaf)
+        if self.depth > MAX_INCLUDE_DEPTH:
+            raise model.ParseError([("%s:1:1" % path, "includes are nested too deeply")])
         with swap_dir(self.include_dirs, os.path.dirname(path)):
             return self._process_file(path)
 
@@ -89,6 +96,10 @@ class FileProcessor(object):
                 line = e.object.count(b'\n', 0, e.start) + 1
                 column = e.start - e.object.rfind(b'\n', 0, e.start)
                 raise model.ParseError([("%s:%s:%s" % (path, line, column), "file is not utf-8 encoded")])
-        result = self.process_content(content, path, lambda leaf: self.process_leaf(leaf))
+        self.depth += 1
+        try:
+            result = self.process_content(content, path, lambda leaf: self.process_leaf(leaf))
+        finally:
+            self.depth -= 1
         self.files[abspath] = result
         return result
-- 
2.43.0


From 46d713ffc125c76c1bf614f85cf243293e16e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:28 +0000
Subject: [PATCH 32/56] fix: report an enumerator named like its enum

Enum and its enumerators share a namespace, but the name of an enum was checked only
against names which came before it.
---
 prophyc/parsers/prophy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 679afce..9de3609 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -219,6 +219,11 @@ class Parser(object):
 
     def p_enum_def(self, t):
         '''enum_def : ENUM unique_id enum_body SEMI'''
+        self._parser_check(
+            all(t[2] != member.name for member in t[3]),
+            "name '{}' redefined".format(t[2]),
+            t.lineno(1), t.lexpos(1)
+        )
         try:
             node = model.Enum(t[2], t[3])
             self.typedecls[t[2]] = node
-- 
2.43.0


From dd68c8363ca265745a57d2b5f8edcea40ec364a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:42 +0000
Subject: [PATCH 33/56] fix: generate full C++ codec for enums without
 enumerators

C++ allows such enums in sack input, generation ended with IndexError.
---
 prophyc/generators/cpp_full.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 26867ab..8757a8a 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -27,7 +27,7 @@ def _get_initializer(m):
     while isinstance(m.definition, model.Typedef):
         m = m.definition
     if isinstance(m.definition, model.Enum):
-        return m.definition.members[0].name
+        return m.definition.members[0].name if m.definition.members else ''
     if m.type_name in BUILTIN2C:
         return ''
     return None
-- 
2.43.0


From d78e2f96e41a45862115143a3ee2a9f9e713ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:53 +0000
Subject: [PATCH 34/56] fix: do not take a typedef for an array size

Isar array size naming a typedef ended with TypeError, now it is reported as unknown.
---
 prophyc/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 59ebdb1..85caf71 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -488,7 +488,7 @@ def to_int(x, constants):
         return int(x)
     except ValueError:
         val = constants.get(x)
-        return val if val is not None else calc.eval(x, constants)
+        return val if isinstance(val, int) else calc.eval(x, constants)
 
 
 def evaluate_stiffness_kinds(nodes):
-- 
2.43.0


From 2b1c4e0e256ff962154d44cb1f4780e4e3aa031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:05 +0000
Subject: [PATCH 35/56] fix: report repeated typedefs which refer to themselves

When a name is defined twice, the latter definition may refer to itself, which the
sorting of definitions does not notice.
---
 prophyc/model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/prophyc/model.py b/prophyc/model.py
index 85caf71..2f1a3f9 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -471,9 +471,18 @@ def cross_reference(nodes, warn=null_warn):
                 warn(str(e))
                 node_.numeric_size = None
 
+    def check_typedef_loop(typedef):
+        visited = []
+        while isinstance(typedef, Typedef):
+            if any(typedef is x for x in visited):
+                raise ModelError("Definition of '%s' depends on itself." % typedef.name)
+            visited.append(typedef)
+            typedef = typedef.definition
+
     for node in nodes:
         if isinstance(node, Typedef):
             cross_reference_types(node)
+            check_typedef_loop(node)
         elif isinstance(node, Struct):
             list(map(cross_reference_types, node.members))
             list(map(evaluate_array_sizes, node.members))
-- 
2.43.0


From 5a025d223010c331741fe3ac19844f212ade9169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:38 +0000
Subject: [PATCH 36/56] fix: report sack types which have no prophy counterpart

They ended with KeyError, RecursionError or an unhandled SackParserError without
location.
---
 prophyc/parsers/sack.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/prophyc/parsers/sack.py b/prophyc/parsers/sack.py
index fe75143..dec865e 100644
--- a/prophyc/parsers/sack.py
+++ b/prophyc/parsers/sack.py
@@ -10,7 +10,7 @@ from .clang import cindex
 
 
 class SackParserError(Exception):
-    pass
+    location = None
 
 
 class SackModelTree(object):
@@ -40,6 +40,7 @@ class Builder(object):
 
     def __init__(self, tree_model):
         self.tree = tree_model
+        self.pending = []
 
     @staticmethod
     def alphanumeric_name(cursor):
@@ -57,8 +58,12 @@ class Builder(object):
 
         def dive_deeper(method):
             name = Builder.alphanumeric_name(decl)
+            if name in self.pending:
+                raise SackParserError("Type {} contains itself".format(name))
             if name not in self.tree.known:
+                self.pending.append(name)
                 method(decl)
+                self.pending.pop()
             return name
 
         if tp.kind is cindex.TypeKind.TYPEDEF:
@@ -79,7 +84,7 @@ class Builder(object):
                 return self.get_type_name(decl.underlying_typedef_type)
 
             else:
-                raise SackParserError("Unknown declaration, {} {}".format(tp.spelling, decl.kind))
+                raise SackParserError("Unknown declaration, {} {}".format(tp.spelling.decode(), decl.kind))
 
         elif tp.kind in (cindex.TypeKind.CONSTANTARRAY, cindex.TypeKind.INCOMPLETEARRAY):
             return self.get_type_name(tp.element_type)
@@ -93,6 +98,8 @@ class Builder(object):
         elif tp.kind in (cindex.TypeKind.SHORT, cindex.TypeKind.INT, cindex.TypeKind.LONG, cindex.TypeKind.LONGLONG):
             return 'i%d' % (tp.get_size() * 8)
 
+        if tp.kind not in self.unambiguous_builtins:
+            raise SackParserError("Unsupported type, {} {}".format(tp.spelling.decode(), tp.kind))
         return self.unambiguous_builtins[tp.kind]
 
     def add_enum(self, cursor):
@@ -109,6 +116,13 @@ class Builder(object):
         node = model.Enum(Builder.alphanumeric_name(cursor), members)
         self.tree.add_node(node)
 
+    def get_member_type_name(self, cursor):
+        try:
+            return self.get_type_name(cursor.type)
+        except SackParserError as e:
+            e.location = e.location or cursor.location
+            raise
+
     def add_struct(self, cursor):
         def array_length(tp):
             if tp.kind is cindex.TypeKind.CONSTANTARRAY:
@@ -116,7 +130,7 @@ class Builder(object):
 
         def struct_member(cursor_):
             name = cursor_.spelling.decode()
-            type_name = self.get_type_name(cursor_.type)
+            type_name = self.get_member_type_name(cursor_)
             array_len = array_length(cursor_.type)
             return model.StructMember(name, type_name, size=array_len)
 
@@ -128,7 +142,7 @@ class Builder(object):
     def add_union(self, cursor):
         def union_member(cursor, disc):
             name = cursor.spelling.decode()
-            type_name = self.get_type_name(cursor.type)
+            type_name = self.get_member_type_name(cursor)
             return model.UnionMember(name, type_name, str(disc))
 
         members = [union_member(x, i) for i, x in enumerate(cursor.get_children())
@@ -254,7 +268,10 @@ class SackParser(object):
                 raise model.ParseError([(path.decode(), 'error parsing translation unit')])
 
             self.print_diagnostics(path, translation_unit)
-            builder.build_model(translation_unit)
+            try:
+                builder.build_model(translation_unit)
+            except SackParserError as e:
+                raise model.ParseError([(self._get_location(e.location, path), str(e))])
 
         return tree.nodes
 
-- 
2.43.0


From 58d0c814d96e0e443b1758e11d744cb07c871b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:48 +0000
Subject: [PATCH 37/56] fix: report unions without arms when generating full
 C++ codec

C++ allows such unions in sack input, generation ended with IndexError.
---
 prophyc/generators/cpp_full.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 8757a8a..e77dade 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -631,6 +631,8 @@ class CppFullGenerator(GeneratorBase):
         for n in nodes:
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
+            if isinstance(n, model.Union) and not n.members:
+                raise GenerateError('{0} has no arms'.format(n.name))
             if isinstance(n, model.Struct):
                 check_arrays(n)
                 occured = set()
-- 
2.43.0


From f56a8697f8e277eb221bbde9fdbd901e8d65d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:19 +0000
Subject: [PATCH 38/56] fix: print clang diagnostics which have no location

The one about too many errors is such, printing it ended with AttributeError.
---
 prophyc/parsers/sack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/parsers/sack.py b/prophyc/parsers/sack.py
index dec865e..eaea978 100644
--- a/prophyc/parsers/sack.py
+++ b/prophyc/parsers/sack.py
@@ -283,6 +283,8 @@ class SackParser(object):
                 self.warn(spelling, location)
 
     def _get_location(self, location, target_path):
+        if location.file is None:
+            return target_path.decode()
         location_file = location.file.name.decode()
         target_file_name = os.path.basename(target_path.decode())
         if os.path.basename(location_file) == target_file_name:
-- 
2.43.0


From f0cbe47c8a9bb11732139bf772ef62eeb97ebdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:04 +0000
Subject: [PATCH 39/56] fix: sort definitions by all names they use

Constants in products, shifts and alternatives, names in enumerator values, array
sizes and discriminators, as well as enumerators were not taken for dependencies.
Isar definitions using them could come before their dependencies in the output.
---
 prophyc/model.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 2f1a3f9..63a3fee 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -1,3 +1,4 @@
+import re
 from itertools import islice
 
 import renew
@@ -98,12 +99,7 @@ class Constant(ModelNode):
                 return None
 
     def dependencies(self):
-        def sub_(x, y):
-            return x.replace(y, " ")
-
-        for symbol in six.reduce(sub_, "()+-", self.value).split():
-            if not symbol.isdigit():
-                yield symbol
+        return _find_symbols(self.value)
 
 
 class EnumMember(Constant):
@@ -189,6 +185,12 @@ class StructMember(Typedef):
         """amount of bytes to add before next field. If field dynamic: negative alignment of next field"""
         self.padding = None
 
+    def dependencies(self):
+        yield self.type_name
+        if self.size:
+            for symbol in _find_symbols(self.size):
+                yield symbol
+
     @property
     def is_array(self):
         return self.bound or self.size or self.greedy
@@ -232,6 +234,11 @@ class UnionMember(Typedef):
         super(UnionMember, self).__init__(name, type_name, definition, docstring)
         self.discriminator = discriminator
 
+    def dependencies(self):
+        yield self.type_name
+        for symbol in _find_symbols(self.discriminator):
+            yield symbol
+
 
 """ Composite kinds """
 
@@ -313,8 +320,11 @@ class Enum(_Container):
     __slots__ = ()
 
     def dependencies(self):
+        own_names = set(member.name for member in self.members)
         for member in self.members:
-            yield member.name
+            for symbol in member.dependencies():
+                if symbol not in own_names:
+                    yield symbol
 
 
 class _SerializableContainer(_Container, _Serializable):
@@ -361,6 +371,11 @@ def _check_string(docstring, what_):
     return six.decode_string(docstring)
 
 
+def _find_symbols(expression):
+    """ Names used in an expression, which may also be a number. """
+    return re.findall(r"\b[a-zA-Z_]\w*", "%s" % expression)
+
+
 def split_after(nodes, predicate):
     part = []
     for x in nodes:
@@ -390,8 +405,9 @@ def topological_sort(nodes):
     def model_sort_rotate():
         node = nodes[index]
         pending.add(node.name)
-        for dep in node.dependencies():
-            if dep not in known and dep in available:
+        for symbol in node.dependencies():
+            dep = available.get(symbol)
+            if dep is not None and dep not in known:
                 if dep in pending:
                     raise ModelError("Definition of '%s' depends on itself." % dep)
                 nodes.insert(index, nodes.pop(find_first_dep(dep, index + 1)))
@@ -399,7 +415,8 @@ def topological_sort(nodes):
         known.add(node.name)
 
     known = set(x + y for x in "uir" for y in ["8", "16", "32", "64"])
-    available = set(node.name for node in nodes)
+    available = dict((member.name, node.name) for node in nodes if isinstance(node, Enum) for member in node.members)
+    available.update((node.name, node.name) for node in nodes)
     for index in range(len(nodes)):
         pending = set()
         while model_sort_rotate():
-- 
2.43.0


From a7ba540b84df5d6e38210199376938e6b64fcaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:31 +0000
Subject: [PATCH 40/56] fix: define enumerators first when their enum refers to
 them

Generated Python listed enumerators in the class body before they were
defined. An enum whose values use its other enumerators could not be
imported.
---
 prophyc/generators/python.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 01d596f..ef7a100 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -118,6 +118,15 @@ class {enum_name}({libname}.with_metaclass({libname}.enum_generator, {libname}.e
 
 
 {constants}"""
+        own_names = set(member.name for member in enum.members)
+        if any(symbol in own_names for member in enum.members for symbol in member.dependencies()):
+            # class body uses names of its own enumerators, so they have to exist beforehand
+            template = u"""\
+{constants}
+
+
+class {enum_name}({libname}.with_metaclass({libname}.enum_generator, {libname}.enum)):
+    _enumerators = {members_list}"""
         return template.format(libname=libname, enum_name=enum.name, members_list=members_list,
                                constants=constants_list)
 
-- 
2.43.0


From b8f12bb0c854aa51ef372621a1f04ea78bb882b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:17 +0000
Subject: [PATCH 41/56] fix: import enumerators used across included files

Generated Python imported only the definitions of included files. Isar
array sizes, discriminators and constants which use an included
enumerator raised NameError on import.
---
 prophyc/generators/python.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index ef7a100..0b40a0f 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -1,3 +1,4 @@
+from prophyc import model
 from prophyc.generators import word_wrap
 from prophyc.generators.base import GeneratorBase, TranslatorBase
 
@@ -62,13 +63,23 @@ import {0}
 
     def __init__(self):
         self.included_symbols = set()
+        self.used_symbols = set()
 
     def __call__(self, nodes, base_name):
         self.included_symbols = set()
+        self.used_symbols = set(symbol for node in nodes for symbol in node.dependencies())
         return super(_PythonTranslator, self).__call__(nodes, base_name)
 
     def translate_include(self, include):
-        included = list(sorted(n.name for n in include.defined_symbols() if n.name not in self.included_symbols))
+        nested = [n for n in model.flatten_includes(include.members) if isinstance(n, model.Include)]
+        statements = [self._translate_import(include, [n.name for n in include.defined_symbols()])]
+        statements += [self._translate_import(n, []) for n in nested]
+        return u"\n".join(statement for statement in statements if statement)
+
+    def _translate_import(self, include, names):
+        enums = [n for n in include.members if isinstance(n, model.Enum)]
+        names = names + [m.name for enum in enums for m in enum.members if m.name in self.used_symbols]
+        included = list(sorted(name for name in set(names) if name not in self.included_symbols))
         self.included_symbols.update(included)
         if not included:
             return u""
-- 
2.43.0


From 446063186d121ee3ef952e5a9b5af6ca51fe5035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:17 +0000
Subject: [PATCH 42/56] fix: process a file once when reached through symbolic
 links

Files were told apart by their spelled path, so one file reached through
a linked directory was parsed twice, and '..' behind a link could stand
for another file.
---
 prophyc/file_processor.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/prophyc/file_processor.py b/prophyc/file_processor.py
index 333feb8..15414ab 100644
--- a/prophyc/file_processor.py
+++ b/prophyc/file_processor.py
@@ -53,7 +53,7 @@ class FileProcessor(object):
         self.include_dirs = [d for d in include_dirs]
         self.depth = 0
         self.files = {}
-        '''Absolute paths are keys, values are results of process_content calls'''
+        '''Absolute paths free of symbolic links are keys, values are results of process_content calls'''
 
     def __call__(self, path):
         return self.process_main(path)
@@ -82,12 +82,12 @@ class FileProcessor(object):
             return self._process_file(path)
 
     def _process_file(self, path):
-        abspath = os.path.abspath(path)
-        if abspath in self.files:
-            if self.files[abspath] is None:
+        realpath = os.path.realpath(path)
+        if realpath in self.files:
+            if self.files[realpath] is None:
                 raise CyclicIncludeError(path)
-            return self.files[abspath]
-        self.files[abspath] = None
+            return self.files[realpath]
+        self.files[realpath] = None
 
         with codecs.open(path, 'r', encoding='utf-8') as f:
             try:
@@ -101,5 +101,5 @@ class FileProcessor(object):
             result = self.process_content(content, path, lambda leaf: self.process_leaf(leaf))
         finally:
             self.depth -= 1
-        self.files[abspath] = result
+        self.files[realpath] = result
         return result
-- 
2.43.0


From e16ea5fbbc7ad8e2ebec7ea763c775a0eaa17b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:17 +0000
Subject: [PATCH 43/56] fix: refer to included isar files by their base name

Outputs are written side by side into one directory. Includes with a
directory in their path gave C++ includes of that path, and with
--include_isar outputs in directories which don't exist.
---
 prophyc/__init__.py            | 2 +-
 prophyc/generators/cpp.py      | 2 +-
 prophyc/generators/cpp_full.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 8b2f73c..0ffe5a1 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -137,7 +137,7 @@ def flatten_included_defs(supple_nodes):
     def get_nodes_and_names(nodes_list):
         for elem in model.flatten_includes(nodes_list):
             if isinstance(elem, model.Include):
-                yield elem.name, elem.members
+                yield elem.name.split("/")[-1], elem.members
 
     """ pass trough a dictionary to avoid duplicates """
     return tuple(dict(get_nodes_and_names(supple_nodes)).items())
diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 7d42b8a..6425c90 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -51,7 +51,7 @@ class _Padder(object):
 class _HppIncludesTranslator(TranslatorBase):
 
     def translate_include(self, include):
-        return '#include "{}.pp.hpp"'.format(include.name)
+        return '#include "{}.pp.hpp"'.format(include.name.split("/")[-1])
 
 
 STRUCT_DEF_TEMPLATE = """\
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index e77dade..3283099 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -89,7 +89,7 @@ class _HppIncludesTranslator(TranslatorBase):
     block_template = "{content}"
 
     def translate_include(self, include):
-        return '#include "{}.ppf.hpp"'.format(include.name)
+        return '#include "{}.ppf.hpp"'.format(include.name.split("/")[-1])
 
 
 class _HppDefinitionsTranslator(TranslatorBase):
-- 
2.43.0


From ef1a517ebe4ec3d2c85dfdeb3adc6f199bede5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:17 +0000
Subject: [PATCH 44/56] fix: keep isar includes named like one of their
 definitions

Sack parser removes stubs of included definitions by name. It removed the
include as well if the file had the name of something it defines.
---
 prophyc/parsers/sack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophyc/parsers/sack.py b/prophyc/parsers/sack.py
index eaea978..afc358d 100644
--- a/prophyc/parsers/sack.py
+++ b/prophyc/parsers/sack.py
@@ -23,7 +23,8 @@ class SackModelTree(object):
         self.nodes.append(node)
 
     def remove_nodes(self, node_names_to_remove):
-        self.nodes = [node for node in self.nodes if node.name not in node_names_to_remove]
+        self.nodes = [node for node in self.nodes
+                      if isinstance(node, model.Include) or node.name not in node_names_to_remove]
         self.known -= set(node_names_to_remove)
 
 
-- 
2.43.0


From 8bf5ebe5861f8695e15469e67546b79162441a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:17 +0000
Subject: [PATCH 45/56] fix: report missing headers of sack files as errors

They were printed as warnings and members of missing types became
integers. Headers in angle brackets still give warnings, because the
system ones may be unknown to clang.
---
 prophyc/parsers/sack.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/prophyc/parsers/sack.py b/prophyc/parsers/sack.py
index afc358d..19a4d2e 100644
--- a/prophyc/parsers/sack.py
+++ b/prophyc/parsers/sack.py
@@ -269,6 +269,7 @@ class SackParser(object):
                 raise model.ParseError([(path.decode(), 'error parsing translation unit')])
 
             self.print_diagnostics(path, translation_unit)
+            self.check_missing_includes(path, content_, translation_unit)
             try:
                 builder.build_model(translation_unit)
             except SackParserError as e:
@@ -283,6 +284,23 @@ class SackParser(object):
                 location = self._get_location(diag.location, path)
                 self.warn(spelling, location)
 
+    def check_missing_includes(self, path, content, translation_unit):
+        """ Headers in angle brackets belong to the system, which clang may not know. """
+        def is_quoted(location):
+            if location.file.name == path:
+                source = content
+            else:
+                with open(location.file.name, 'rb') as f:
+                    source = f.read()
+            return source[location.offset:location.offset + 1] == b'"'
+
+        errors = [(self._get_location(diag.location, path), diag.spelling.decode())
+                  for diag in translation_unit.diagnostics
+                  if diag.severity == cindex.Diagnostic.Fatal and diag.spelling.endswith(b'file not found')
+                  and is_quoted(diag.location)]
+        if errors:
+            raise model.ParseError(errors)
+
     def _get_location(self, location, target_path):
         if location.file is None:
             return target_path.decode()
-- 
2.43.0


From b610cd1d105040b1dee88881d0d33e66b8f3c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:01 +0000
Subject: [PATCH 46/56] fix: refuse input files whose outputs would overwrite
 each other

Output files are named after the base name of the input file. When two
different inputs had the same base name, the outputs of one silently
replaced the outputs of the other. Which one survived depended on the
order of the command line.
---
 prophyc/__init__.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 0ffe5a1..fc4b4db 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -52,7 +52,7 @@ def main(args):
     patcher = get_patcher(opts.patch)
     supplementary_nodes = create_supplements(emit, opts.isar_includes, opts.include_dirs, patcher)
 
-    model_nodes = dict(flatten_included_defs(supplementary_nodes))
+    model_nodes = flatten_included_defs(emit, supplementary_nodes)
 
     source_parser = get_target_parser(emit, opts, supplementary_nodes)
     model_parser = model.ModelParser(source_parser, patcher, emit)
@@ -62,7 +62,8 @@ def main(args):
         with error_on_exception(emit):
             nodes = file_processor_(input_file)
             basename = get_basename(input_file)
-            model_nodes[basename] = nodes
+            if model_nodes.setdefault(basename, nodes) is not nodes:
+                emit.error("output files of another input would be overwritten", input_file)
 
     generate_target_files(emit, serializers, model_nodes)
 
@@ -133,14 +134,16 @@ def get_basename(path):
     return os.path.splitext(os.path.basename(path))[0]
 
 
-def flatten_included_defs(supple_nodes):
-    def get_nodes_and_names(nodes_list):
-        for elem in model.flatten_includes(nodes_list):
-            if isinstance(elem, model.Include):
-                yield elem.name.split("/")[-1], elem.members
-
-    """ pass trough a dictionary to avoid duplicates """
-    return tuple(dict(get_nodes_and_names(supple_nodes)).items())
+def flatten_included_defs(emit, supple_nodes):
+    model_nodes = {}
+    for elem in model.flatten_includes(supple_nodes):
+        if isinstance(elem, model.Include):
+            basename = elem.name.split("/")[-1]
+            nodes = model_nodes.get(basename)
+            if nodes and elem.members and nodes is not elem.members:
+                emit.error("output files of another include would be overwritten", elem.name)
+            model_nodes[basename] = nodes or elem.members
+    return model_nodes
 
 
 def generate_target_files(emit, serializers, model_nodes):
-- 
2.43.0


From 2e251e81300515349c98ed119ce79ed126498992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:37 +0000
Subject: [PATCH 47/56] fix: do not put paths into names of unnamed sack types

Clang spells unnamed structs, unions and enums with the path under which
the header was opened. The path got into names of generated types, so
generated files depended on the working directory. Only the file name is
kept now.
---
 prophyc/parsers/sack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prophyc/parsers/sack.py b/prophyc/parsers/sack.py
index 19a4d2e..eb71aa5 100644
--- a/prophyc/parsers/sack.py
+++ b/prophyc/parsers/sack.py
@@ -52,6 +52,10 @@ class Builder(object):
             name = name.replace('enum ', '', 1)
         elif name.startswith('union '):
             name = name.replace('union ', '', 1)
+        if cursor.location.file:
+            # unnamed types are spelled with path to the file
+            directory = os.path.dirname(cursor.location.file.name.decode())
+            name = name.replace(' at ' + directory + '/', ' at ')
         return re.sub('[^0-9a-zA-Z_]+', '__', name)
 
     def get_type_name(self, tp):
-- 
2.43.0


From b3a5bfa18b406a17b4263877e3ed48bbfbc7adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:08 +0000
Subject: [PATCH 48/56] fix: refuse negative array counters in C++ decode

A signed counter holding a negative number made decode fail only after
the vector had been resized past what the counter can express, so
get_byte_size() of the object no longer matched what encode() wrote.
---
 prophy_cpp/include/prophy/detail/decoder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index af8ce53..178ee65 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -1,6 +1,7 @@
 #ifndef _PROPHY_DETAIL_DECODER_HPP_
 #define _PROPHY_DETAIL_DECODER_HPP_
 
+#include <limits>
 #include <stdint.h>
 #include <prophy/endianness.hpp>
 #include <prophy/optional.hpp>
@@ -379,7 +380,7 @@ inline bool do_decode_resize(std::vector<T>& v, const uint8_t*& pos, const uint8
     {
         return false;
     }
-    if (n > max)
+    if (n > max || size_t(n) > size_t(std::numeric_limits<CT>::max()))
     {
         return false;
     }
-- 
2.43.0


From 3f427b599d73e5d1c6ff7085178363491fc8c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:46:14 +0000
Subject: [PATCH 49/56] fix: check long typedef chains in reasonable time

Looking for typedef loops compared every typedef with all those visited
before it. A file with a few thousand typedefs, each naming the previous
one, took minutes to compile.
---
 prophyc/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 63a3fee..2272e20 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -489,11 +489,11 @@ def cross_reference(nodes, warn=null_warn):
                 node_.numeric_size = None
 
     def check_typedef_loop(typedef):
-        visited = []
+        visited = set()
         while isinstance(typedef, Typedef):
-            if any(typedef is x for x in visited):
+            if id(typedef) in visited:
                 raise ModelError("Definition of '%s' depends on itself." % typedef.name)
-            visited.append(typedef)
+            visited.add(id(typedef))
             typedef = typedef.definition
 
     for node in nodes:
-- 
2.43.0


From ee83b945642dc5c2c4b51d22bf40ad66bbdb8130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:41 +0000
Subject: [PATCH 50/56] fix: refuse to decode greedy arrays of elements without
 bytes

Decoding such an array never ended: no element moved the cursor.
---
 prophy/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prophy/container.py b/prophy/container.py
index 91644e6..295d38a 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -210,7 +210,10 @@ class bound_composite_array(base_array):
         cursor = 0
         if not self._SIZE and not self._BOUND:
             while (pos + cursor) < len(data):
-                cursor += self.add()._decode_impl(data, pos + cursor, endianness, terminal=False)
+                size = self.add()._decode_impl(data, pos + cursor, endianness, terminal=False)
+                if not size:
+                    raise ProphyError("array elements without bytes cannot be decoded")
+                cursor += size
         else:
             for _ in xrange(len_hint):
                 cursor += self.add()._decode_impl(data, pos + cursor, endianness, terminal=False)
-- 
2.43.0


From 0f6d33215649429d5d999ad1e58fdcb3c96a75f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:41 +0000
Subject: [PATCH 51/56] fix: report structs without members instead of
 generating broken C++

The C++ full codec of such a struct did not compile.
---
 prophyc/generators/cpp_full.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 3283099..fecf6b3 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -633,6 +633,8 @@ class CppFullGenerator(GeneratorBase):
                 raise GenerateError('{0} byte size unknown'.format(n.name))
             if isinstance(n, model.Union) and not n.members:
                 raise GenerateError('{0} has no arms'.format(n.name))
+            if isinstance(n, model.Struct) and not n.members:
+                raise GenerateError('{0} has no members'.format(n.name))
             if isinstance(n, model.Struct):
                 check_arrays(n)
                 occured = set()
-- 
2.43.0


From 961561529beb08ea481eaba6a6687319914c43b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:41 +0000
Subject: [PATCH 52/56] fix: evaluate expressions with the precedence of the
 generated code

Expressions of isar files are copied into generated code. There shifts bind
weaker than additions, but sizes were calculated the other way round.
---
 prophyc/calc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophyc/calc.py b/prophyc/calc.py
index 872fa76..32bb532 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -20,9 +20,10 @@ def _make_number(t, base):
 class Calc(object):
     tokens = ('NAME', 'CONST16', 'CONST10', 'LSHIFT', 'RSHIFT')
     precedence = (
+        ('left', '|'),
+        ('left', 'LSHIFT', 'RSHIFT'),
         ('left', '+', '-'),
         ('left', '*', '/'),
-        ('left', 'LSHIFT', 'RSHIFT'),
         ('right', 'UMINUS'),
     )
 
-- 
2.43.0


From 7bb4dd5a6e8ae00bd0279cebfec219677314ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:41 +0000
Subject: [PATCH 53/56] fix: divide integers in generated Python

A single slash made floats of constants and array sizes.
---
 prophyc/generators/python.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 0b40a0f..75d4757 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -13,12 +13,17 @@ def _make_list(repr_function, members):
     return u"[%s\n    ]" % "".join(u"\n        %s," % repr_function(e) for e in members)
 
 
+def _form_value(value):
+    """Division in schemas is integer division."""
+    return (u"%s" % value).replace(u"/", u"//")
+
+
 def _form_enum_member(member):
-    return u"('%s', %s)" % (member.name, member.value)
+    return u"('%s', %s)" % (member.name, _form_value(member.value))
 
 
 def _generate_enum_constants(members):
-    return u"\n".join((u"%s = %s" % (member.name, member.value) for member in members))
+    return u"\n".join((u"%s = %s" % (member.name, _form_value(member.value)) for member in members))
 
 
 def _form_struct_member(member):
@@ -30,7 +35,7 @@ def _form_struct_member(member):
         if member.bound:
             elem_strs.append(u"bound='%s'" % member.bound)
         if member.size:
-            elem_strs.append(u"size=%s" % member.size)
+            elem_strs.append(u"size=%s" % _form_value(member.size))
         if member.type_name == 'byte':
             prefixed_type = u'%s.bytes(%s)' % (libname, ', '.join(elem_strs))
         else:
@@ -40,7 +45,7 @@ def _form_struct_member(member):
 
 def _form_union_member(member):
     prefixed_type = u"%s.%s" % (libname, member.type_name) if member.type_name in primitive_types else member.type_name
-    return u"('%s', %s, %s)" % (member.name, prefixed_type, member.discriminator)
+    return u"('%s', %s, %s)" % (member.name, prefixed_type, _form_value(member.discriminator))
 
 
 def _indent(text, prefix):
@@ -104,7 +109,7 @@ else:
 
     @staticmethod
     def translate_constant(constant):
-        content = u"%s = %s" % (constant.name, constant.value)
+        content = u"%s = %s" % (constant.name, _form_value(constant.value))
         doc = constant.docstring
         if doc:
             content = u"\'\'\'{}\'\'\'\n{}".format(doc, content)
-- 
2.43.0


From 4cc1212a655898fa82eaa9751d595f39ec074656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:41 +0000
Subject: [PATCH 54/56] fix: parenthesise array sizes that hold a right shift

The shift closed the template argument list in the C++ full codec.
---
 prophyc/generators/cpp_full.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index fecf6b3..00387a4 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -474,12 +474,16 @@ def generate_struct_get_byte_size(node):
     return 'return {0};\n'.format(' + '.join(elems))
 
 
+def _template_size(m):
+    return '({})'.format(m.size) if '>' in str(m.size) else m.size
+
+
 def generate_struct_fields(node):
     bound = {m.bound: m for m in node.members if m.bound}
     text = ''
     for m in node.members:
         if m.is_fixed:
-            text += 'array<{0}, {1}> {2};\n'.format(BUILTIN2C.get(m.type_name, m.type_name), m.size, m.name)
+            text += 'array<{0}, {1}> {2};\n'.format(BUILTIN2C.get(m.type_name, m.type_name), _template_size(m), m.name)
         elif m.is_dynamic:
             text += 'std::vector<{0}> {1};\n'.format(BUILTIN2C.get(m.type_name, m.type_name), m.name)
         elif m.is_limited:
@@ -511,7 +515,7 @@ def generate_struct_constructor(node):
         init = _get_initializer(m)
         if m.is_fixed:
             add_to_default(default_ctor, m, '')
-            add_to_full(full_ctor, True, m, 'array<{0}, %s>' % m.size)
+            add_to_full(full_ctor, True, m, 'array<{0}, %s>' % _template_size(m))
         elif m.is_dynamic:
             add_to_full(full_ctor, True, m, 'std::vector<{0}>')
         elif m.is_limited:
-- 
2.43.0


From 58a5e4195cc0b168a83ef657bae669637c6886ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:36:46 +0000
Subject: [PATCH 55/56] fix: look into every struct once when generating
 optional members

The search for limited arrays inside an optional member followed every path
to every nested struct. The number of paths can double with each level.
---
 prophyc/generators/cpp_full.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 00387a4..8924dc8 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -65,9 +65,15 @@ def _get_cpp_builtin_type(node):
 
 def _holds_vector(node):
     """Tells if C++ type of fixed-size node has std::vector (limited array) inside."""
-    members = getattr(_get_leaf(node), 'members', ())
-    return any(getattr(m, 'is_limited', False) or _holds_vector(m) for m in members
-               if not isinstance(m, model.EnumMember))
+    leaves, seen = [_get_leaf(node)], set()
+    while leaves:
+        leaf = leaves.pop()
+        if isinstance(leaf, (model.Struct, model.Union)) and leaf.name not in seen:
+            seen.add(leaf.name)
+            if any(getattr(m, 'is_limited', False) for m in leaf.members):
+                return True
+            leaves += [_get_leaf(m) for m in leaf.members]
+    return False
 
 
 def _get_optional_params(m):
-- 
2.43.0


From 31cf399672a71ea507f9687ff6d7712c3d913283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:47:42 +0000
Subject: [PATCH 56/56] fix: refuse patches that give two fields of a struct
 the same name

---
 prophyc/patch.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/prophyc/patch.py b/prophyc/patch.py
index 68071a3..bf49a95 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -36,9 +36,19 @@ def _apply(node, patches):
         if not action:
             raise Exception("Unknown action: %s %s" % (node.name, patch_))
         node = action(node, patch_)
+    _check_fields_duplication(node)
     return node
 
 
+def _check_fields_duplication(node):
+    if isinstance(node, (model.Struct, model.Union)):
+        names = set()
+        for member in node.members:
+            if member.name in names:
+                raise Exception("Patch duplicates field: %s %s" % (node.name, member.name))
+            names.add(member.name)
+
+
 def _type(node, patch_):
     if not isinstance(node, model.Struct):
         raise Exception("Can change field only in struct: %s %s" % (node.name, patch_))
-- 
2.43.0

