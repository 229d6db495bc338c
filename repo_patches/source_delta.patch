From 5a0731a43c3bfe4f3222fc1f99208c8d3489b8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:13 +0000
Subject: [PATCH 01/51] fix: count a dynamic struct array as one value, so it
 can be packed next to other members

---
 structured/serializers/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index e840cbc..aa77ef3 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -235,7 +235,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     ) -> None:
         self.count_serializer = count_serializer
         self.item_serializer = item_serializer
-        self.num_values = 0
+        self.num_values = 1
         self.size = 0
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
-- 
2.43.0


From b2ae6533c37c245bb0ecb0c491a4cc2bb14cfd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:42 +0000
Subject: [PATCH 02/51] fix: pack dynamic struct arrays without alignment bytes
 after the count, as they are unpacked

---
 structured/serializers/arrays.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index aa77ef3..31bf77e 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -245,30 +245,26 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         )
 
     def _packer(self, values: tuple[list[T]]) -> tuple[Serializer, list[T]]:
+        # NOTE: The count and the items are packed seperately, as they are when
+        # unpacking, so no alignment bytes are inserted between the two.
         items = values[0]
-        count = len(items)
-        if count == 0:
-            # Since we'll be modifying its .num_values, we want a copy
-            serializer = StructSerializer(self.count_serializer.format)
-        else:
-            serializer = self.count_serializer + (self.item_serializer * count)
-        serializer.num_values -= 1
-        self.size = serializer.size
+        serializer = self.item_serializer * len(items)
+        self.size = self.count_serializer.size + serializer.size
         return serializer, items
 
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         serializer, items = self._packer(values)
-        return serializer.pack(serializer.num_values, *items)
+        return self.count_serializer.pack(len(items)) + serializer.pack(*items)
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[list[T]]]
     ) -> None:
         serializer, items = self._packer(values)
-        serializer.pack_into(buffer, offset, serializer.num_values, *items)
+        self.count_serializer.pack_into(buffer, offset, len(items))
+        serializer.pack_into(buffer, offset + self.count_serializer.size, *items)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[list[T]]]) -> None:
-        serializer, items = self._packer(values)
-        serializer.pack_write(writable, serializer.num_values, *items)
+        writable.write(self.pack(*values))
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack(buffer)
-- 
2.43.0


From 3538cde548d4c9379d162ec247ce8e1c589a49bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 03/51] fix: write and check the data size of arrays of basic
 types

---
 structured/hint_types/arrays.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 5021869..8130577 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -103,10 +103,12 @@ class array(Generic[S, T], list[T], requires_indexing):
                 f'invalid array item type: {item_type!r} contains final '
                 f'{item_serializer.get_final()}. Final serializers cannot be used.'
             )
-        # All good, check for specializations for struct.Struct unpackable
+        # All good, check for specializations for struct.Struct unpackable. These
+        # don't handle the data size value.
         if (
             isinstance(item_serializer, StructSerializer)
             and item_serializer.num_values == 1
+            and header.data_size is None
         ):
             if isinstance(header.count, int):
                 return Annotated[
-- 
2.43.0


From 248331585c810b7fd44d3539cc760a89855c4638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 04/51] fix: handle zero length char and pad types, and empty
 dynamic strings

---
 structured/serializers/structs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index bac49aa..a3c68d5 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -187,6 +187,9 @@ class StructSerializer(Generic[Unpack[Ts]], struct.Struct, Serializer[Unpack[Ts]
     def _mul_impl(self, other: int, combine_strings: bool = False) -> Self:
         if not isinstance(other, int):
             return NotImplemented
+        elif other == 0 and combine_strings and self.base_format in ('s', 'x'):
+            # A zero length string is still a value: 's' @ 0 -> '0s'
+            return type(self)(f'0{self.base_format}', self.byte_order)
         elif other == 0:
             return NullSerializer()
         elif other < 0:
-- 
2.43.0


From e80466a2341867cbcddbbca38f4cd5be04978a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 05/51] fix: unpack tuples of complex types to tuples, not to
 unevaluated generators

---
 structured/serializers/tuples.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index ff231bb..c195155 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -56,12 +56,12 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return self
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack(buffer),)
+        return (tuple(self.serializer.preunpack(self._partial_obj).unpack(buffer)),)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[Iterable[Any]]:
-        return (
-            self.serializer.preunpack(self._partial_obj).unpack_from(buffer, offset),
-        )
+        serializer = self.serializer.preunpack(self._partial_obj)
+        return (tuple(serializer.unpack_from(buffer, offset)),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack_read(readable),)
+        serializer = self.serializer.preunpack(self._partial_obj)
+        return (tuple(serializer.unpack_read(readable)),)
-- 
2.43.0


From f82f948458a2af880de00781b6fe4aa0afd53989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:15 +0000
Subject: [PATCH 06/51] fix: apply the byte order of a class to its tuples

---
 structured/serializers/tuples.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index c195155..8a7e973 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -8,6 +8,7 @@ __all__ = [
 ]
 
 
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -16,6 +17,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     Ts,
     Unpack,
     WritableBuffer,
@@ -36,6 +38,9 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def size(self) -> int:
         return self.serializer.size
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        return type(self)((self.serializer.with_byte_order(byte_order),))
+
     def prepack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
         return self
-- 
2.43.0


From 286af0b488c6f96ba51d0be374540ec3997861af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 07/51] fix: apply the byte order of a class to the lengths of
 its unicode strings

---
 structured/serializers/strings.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 9073e1f..282b46c 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -376,6 +376,11 @@ class UnicodeSerializer(Serializer[str]):
     def size(self) -> int:
         return self.serializer.size
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        return type(self)(
+            self.serializer.with_byte_order(byte_order), self.encoder, self.decoder
+        )
+
     def pack(self, *values: Unpack[tuple[str]]) -> bytes:
         return self.serializer.pack(self.encoder(values[0]))
 
-- 
2.43.0


From c19675308c5455ad72d5f315790f35c40f5359af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 08/51] fix: apply the byte order of a class to its unions

---
 structured/serializers/unions.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 21b29cc..520ff17 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -12,7 +12,9 @@ __all__ = [
 ]
 
 import os
+from copy import copy
 
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -21,6 +23,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     WritableBuffer,
     annotated,
     get_union_args,
@@ -58,6 +61,17 @@ class AUnion(Serializer):
             if serializer.is_final():
                 return serializer.get_final()
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        # NOTE: A copy, the decider might be used in the hints of other classes.
+        union = copy(self)
+        union.result_map = {
+            key: serializer.with_byte_order(byte_order)
+            for key, serializer in self.result_map.items()
+        }
+        if self.default is not None:
+            union.default = self.default.with_byte_order(byte_order)
+        return union
+
     @staticmethod
     def validate_serializer(hint) -> Serializer:
         serializer = annotated.transform(hint)
@@ -190,6 +204,13 @@ class LookaheadDecider(AUnion):
             )
         self.read_ahead_serializer = serializer
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        union = super().with_byte_order(byte_order)
+        union.read_ahead_serializer = self.read_ahead_serializer.with_byte_order(
+            byte_order
+        )
+        return union
+
     def pack(self, *values: Any) -> bytes:
         result = self.decider(self._partial_object)
         serializer = self.get_serializer(result, True)
-- 
2.43.0


From 008a86d13cc01233e92c000e57bf334d73c59711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:22 +0000
Subject: [PATCH 09/51] fix: don't write a second terminator after an already
 terminated string

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 282b46c..69caa95 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -196,7 +196,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
     def _st_data(self, values: tuple[bytes]) -> tuple[StructSerializer, bytes]:
         """Common packing logic."""
         raw_data = values[0]
-        if not raw_data or raw_data[-1] != self.terminator:
+        if not raw_data.endswith(self.terminator):
             # Insert terminator if needed
             raw_data += self.terminator
         count = len(raw_data)
-- 
2.43.0


From b22e1294a61ca1df3753bc7260ea3e7fff40ddc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 10/51] fix: accept truthy and falsy results from the callable
 of a Condition

---
 structured/serializers/conditional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index fc6299f..4d37866 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -64,7 +64,7 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return type(self)(serializer, self.condition, defaults)
 
     def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.serializers[self.condition(partial_object)]
+        return self.serializers[bool(self.condition(partial_object))]
 
     def preunpack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
         return self.prepack(partial_object)
-- 
2.43.0


From 9c788633a5868dcebdd5652e621d308820e1d15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 11/51] fix: prepare the serializer wrapped by a Condition for
 packing and unpacking

---
 structured/serializers/conditional.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index 4d37866..42e2cac 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -64,10 +64,12 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return type(self)(serializer, self.condition, defaults)
 
     def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.serializers[bool(self.condition(partial_object))]
+        serializer = self.serializers[bool(self.condition(partial_object))]
+        return serializer.prepack(partial_object)
 
     def preunpack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.prepack(partial_object)
+        serializer = self.serializers[bool(self.condition(partial_object))]
+        return serializer.preunpack(partial_object)
 
 
 class SkipSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
-- 
2.43.0


From cb841616b7fdad3deace0cbb71755a29c592660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 12/51] fix: treat padding guarded by a Condition as padding,
 not as a member with a value

---
 structured/structured.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index bd9038f..0e0cb7a 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -16,7 +16,12 @@ from functools import reduce
 from itertools import count
 
 from .base_types import ByteOrder, ByteOrderMode
-from .serializers import NullSerializer, Serializer, StructSerializer
+from .serializers import (
+    ConditionalSerializer,
+    NullSerializer,
+    Serializer,
+    StructSerializer,
+)
 from .type_checking import (
     Any,
     BinaryIO,
@@ -46,6 +51,8 @@ from .utils import StructuredAlias, attrgetter, zips
 def ispad(annotation: Any) -> bool:
     """Detect pad[x] generated StructSerializers."""
     serializer = annotated.transform(annotation)
+    if isinstance(serializer, ConditionalSerializer):
+        serializer = serializer.serializers[True]
     return (
         isinstance(serializer, StructSerializer)
         and serializer.num_values == 0
-- 
2.43.0


From ffbce65bb804668f33d486aa695704a37f5ea66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 13/51] fix: unpack typing.Self members in existing instances,
 and next to a member named cls

---
 structured/serializers/self.py | 4 +++-
 structured/structured.py       | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/self.py b/structured/serializers/self.py
index b611367..cc2a128 100644
--- a/structured/serializers/self.py
+++ b/structured/serializers/self.py
@@ -25,7 +25,9 @@ class SelfSerializer(Serializer[Structured]):
         return StructuredSerializer(type(partial_object))
 
     def preunpack(self, partial_object: _Proxy) -> Serializer:
-        return StructuredSerializer(partial_object.cls)
+        # NOTE: When unpacking into an existing instance, there is no proxy.
+        cls = getattr(partial_object, '__cls__', type(partial_object))
+        return StructuredSerializer(cls)
 
     @classmethod
     def _transform(cls, base_type: Any, hint: Any) -> Any:
diff --git a/structured/structured.py b/structured/structured.py
index 0e0cb7a..6eb3c68 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -481,7 +481,7 @@ class _Proxy:
     # is a proxy for won't be shadowed.
     def __init__(self, cls: type[Structured]) -> None:
         self.__attrs = cls.attrs
-        self.cls = cls
+        self.__cls__ = cls
 
     def __call__(self, values: Iterable[Any]) -> None:
         for attr, value in zips(self.__attrs, values, strict=True):
-- 
2.43.0


From db1bc30e6969a82a1aba2cc16b298aa5a72c3e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 14/51] fix: prepare array items one at a time, so a nested
 object's union does not decide for its siblings

---
 structured/serializers/arrays.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index 31bf77e..c5df0fd 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -108,8 +108,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         data = [b'']
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in values[0]:
+            item_serializer = self.item_serializer.prepack(partial_object)
             data.append(item_serializer.pack(item))
             size += item_serializer.size
         header_values = self._header_pack_values(values[0], size - header_size)
@@ -122,8 +123,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
     ) -> None:
         items = values[0]
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in items:
+            item_serializer = self.item_serializer.prepack(partial_object)
             item_serializer.pack_into(buffer, offset + size, item)
             size += item_serializer.size
         header_values = self._header_pack_values(items, size - header_size)
@@ -138,9 +140,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack(buffer)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack(buffer[size:]))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -151,9 +154,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_from(buffer, offset + size))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -164,9 +168,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack_read(readable)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_read(readable))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
-- 
2.43.0


From e95117b0d902fedd09ec01b56dae9a793d2cb154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 15/51] fix: raise an error on truncated dynamic and .NET
 strings, whichever way they are unpacked

---
 structured/serializers/strings.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 69caa95..091d849 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -28,7 +28,6 @@ from ..type_checking import (
     Union,
     Unpack,
     WritableBuffer,
-    cast,
 )
 from .api import Serializer
 from .structs import StructSerializer
@@ -112,7 +111,8 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack(buffer)[0]
         self.size = self.st.size + count
-        return (bytes(buffer[self.st.size : self.size]),)
+        st = _single_char @ count
+        return st.unpack(buffer[self.st.size :])
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
         """Unpack a dynamically sized bytestring from a buffer supporting the
@@ -315,7 +315,7 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (cast(bytes, buffer[size : size + count]),)
+        return (_single_char @ count).unpack(buffer[size:])
 
     def unpack_from(
         self,
@@ -343,7 +343,7 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (readable.read(count),)
+        return (_single_char @ count).unpack_read(readable)
 
 
 Encoder = Callable[[str], bytes]
-- 
2.43.0


From 2694e511e91d472931ef19a2ec3c362dde474469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 16/51] fix: unpack char[math.inf] to bytes, not to (part of)
 the buffer it is unpacked from

---
 structured/serializers/strings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 091d849..4a188e2 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -169,11 +169,11 @@ class ConsumingCharSerializer(Serializer[bytes]):
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
         self.size = len(buffer)
-        return (buffer,)
+        return (bytes(buffer),)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
         self.size = len(buffer) - offset
-        return (buffer[offset:],)
+        return (bytes(buffer[offset:]),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
         data = readable.read()
-- 
2.43.0


From c244dd8f80dbb7d6fd42e32bb52e265ce570f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 17/51] fix: raise an error when packing char[math.inf] into a
 too small buffer, don't resize it

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 4a188e2..69fc2d9 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -160,7 +160,7 @@ class ConsumingCharSerializer(Serializer[bytes]):
     ) -> None:
         data = values[0]
         self.size = len(data)
-        buffer[offset : offset + self.size] = data
+        struct.pack_into(f'{self.size}s', buffer, offset, data)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
         data = values[0]
-- 
2.43.0


From e4b534c5be7cbec329a561a3acf71e43030898cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 18/51] fix: detect a final serializer in the default of a
 union

---
 structured/serializers/unions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 520ff17..2b46c22 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -60,6 +60,8 @@ class AUnion(Serializer):
         for serializer in self.result_map.values():
             if serializer.is_final():
                 return serializer.get_final()
+        if self.default is not None:
+            return self.default.get_final()
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
         # NOTE: A copy, the decider might be used in the hints of other classes.
-- 
2.43.0


From 8ac30245a7f259a1e22e81cf5c4ad04e542f088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 19/51] fix: don't discard the hints of members redefined when
 specializing a generic base class

---
 structured/structured.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index 6eb3c68..0d80001 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -391,7 +391,8 @@ class Structured(metaclass=StructuredMeta):
             orig_base = base_to_origbase.get(base, None)
             if orig_base:
                 annotations = base._get_specialization_hints(*get_args(orig_base))
-                update_annotations(cls, annotations)
+                # Members redefined by this class take precedence
+                update_annotations(cls, annotations | get_annotations(cls))
         # Analyze the class
         typehints = get_type_hints(cls, include_extras=True)
         applicable_typehints = filter_typehints(typehints, cls)
-- 
2.43.0


From 91367b8c98b19acfdf2516e8548b73cd4e40b4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 20/51] fix: count the size of a terminated string from its own
 start when unpacking from a buffer

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 69fc2d9..9cf3c5f 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -227,7 +227,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
                 end += 1
         except IndexError:
             raise ValueError('unterminated string.') from None
-        self.size = end + 1
+        self.size = end - offset + 1
         return (bytes(buffer[offset:end]),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
-- 
2.43.0


From cacba53779aa712f3fe33a4d316df3b2e9d9c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 21/51] fix: don't let a cached length hint stand in for an
 invalid one which compares equal

---
 structured/hint_types/arrays.py  | 4 ++--
 structured/hint_types/strings.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 8130577..3b2372d 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -9,7 +9,7 @@ __all__ = [
     'Header',
 ]
 
-from functools import cache
+from functools import cache, lru_cache
 
 from ..base_types import requires_indexing
 from ..serializers import (
@@ -52,7 +52,7 @@ class Header:
         return cls._create(length_kind, size_kind)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)
     def _create(
         cls,
         length_kind: int | TypeVar | StructSerializer[int],
diff --git a/structured/hint_types/strings.py b/structured/hint_types/strings.py
index 8abc533..d8a1a96 100644
--- a/structured/hint_types/strings.py
+++ b/structured/hint_types/strings.py
@@ -13,7 +13,7 @@ __all__ = [
 ]
 
 import math
-from functools import cache, partial
+from functools import lru_cache, partial
 
 from ..base_types import requires_indexing
 from ..serializers import (
@@ -58,7 +58,7 @@ class char(bytes, requires_indexing):
         return cls._create(*args)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
@@ -143,7 +143,7 @@ class unicode(str, requires_indexing):
         return cls._create(count, encoding)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
-- 
2.43.0


From 693f5fb676bd5ef7e06f5a177d8eaa793cb26afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 22/51] fix: default the offset of Serializer.unpack_from to 0
 in every serializer

---
 structured/serializers/arrays.py  | 6 +++---
 structured/serializers/structs.py | 2 +-
 structured/serializers/tuples.py  | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index c5df0fd..def05dd 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -150,7 +150,7 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size
         return (items,)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
@@ -221,7 +221,7 @@ class StaticStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         return (list(self.serializer.unpack(buffer)),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         return (list(self.serializer.unpack_from(buffer, offset)),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[list[T]]:
@@ -279,7 +279,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size + serializer.size
         return (list(items),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_from(buffer, offset)
         size = self.count_serializer.size
         serializer = self.item_serializer * count
diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index a3c68d5..bfada24 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -246,7 +246,7 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         )  # type: ignore
 
     def unpack_from(
-        self, buffer: ReadableBuffer, offset: int = ...
+        self, buffer: ReadableBuffer, offset: int = 0
     ) -> tuple[Unpack[Ts]]:
         return tuple(
             action(value)
diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index 8a7e973..ea222da 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -63,7 +63,9 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def unpack(self, buffer: ReadableBuffer) -> tuple[Iterable[Any]]:
         return (tuple(self.serializer.preunpack(self._partial_obj).unpack(buffer)),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[Iterable[Any]]:
+    def unpack_from(
+        self, buffer: ReadableBuffer, offset: int = 0
+    ) -> tuple[Iterable[Any]]:
         serializer = self.serializer.preunpack(self._partial_obj)
         return (tuple(serializer.unpack_from(buffer, offset)),)
 
-- 
2.43.0


From 0aff9130d3bce9cd100b593670a90ae8d89c2d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 23/51] fix: prepare the read ahead serializer of a union, so
 any serializer can be used to read ahead

---
 structured/serializers/unions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 2b46c22..45d9188 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -233,22 +233,25 @@ class LookaheadDecider(AUnion):
         self.size = serializer.size
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack(buffer))[0]
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack(buffer))[0]
         serializer = self.get_serializer(result, False)
         values = serializer.unpack(buffer)
         self.size = serializer.size
         return values
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_from(buffer, offset))[0]
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack_from(buffer, offset))[0]
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_from(buffer, offset)
         self.size = serializer.size
         return values
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_read(readable))[0]
-        readable.seek(-self.read_ahead_serializer.size, os.SEEK_CUR)
+        read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
+        result = tuple(read_ahead.unpack_read(readable))[0]
+        readable.seek(-read_ahead.size, os.SEEK_CUR)
         serializer = self.get_serializer(result, False)
         values = serializer.unpack_read(readable)
         self.size = serializer.size
-- 
2.43.0


From d06abec3d73268a191ea4f49f17260a765bb8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 24/51] fix: use the byte order of a generic class for its
 specializations in hints

---
 structured/serializers/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 0f0f520..1cbfb9d 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -96,7 +96,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 except KeyError:
                     pass
 
-                class _Specialized(base_type):
+                class _Specialized(base_type, byte_order=origin.byte_order):
                     pass
 
                 serializer = StructuredSerializer(_Specialized)
-- 
2.43.0


From 417aafb70f2e9583c7e01fddc3559b27f2042998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 25/51] fix: resolve hints of partially specialized generic
 classes

---
 structured/serializers/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 1cbfb9d..6728055 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -106,7 +106,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 # Not fully specialized, return a StructuredAlias so it
                 # can potentially be fully speciailized by a further
                 # subclassing of the containing class.
-                return StructuredAlias(base_type, spec_args)
+                return StructuredAlias(origin, spec_args)
 
 
 annotated.register_transform(StructuredSerializer._transform)
-- 
2.43.0


From 395a87c1dfa98d1434144bec352d76614d9e35df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 26/51] fix: allow specializing classes which are only generic
 through their base class

---
 structured/structured.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index 0d80001..354747b 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -27,7 +27,6 @@ from .type_checking import (
     BinaryIO,
     Callable,
     ClassVar,
-    Generic,
     Iterable,
     Iterator,
     Optional,
@@ -435,11 +434,11 @@ class Structured(metaclass=StructuredMeta):
         to be specialized with `args`,
         """
         supers: dict[type[Structured], Any] = {}
-        tvars = ()
+        # NOTE: Also set if the type variables only show up in a base class.
+        tvars = getattr(cls, '__parameters__', ())
         for base in getattr(cls, '__orig_bases__', ()):
-            if (origin := get_origin(base)) is Generic:
-                tvars = get_args(base)
-            elif origin and issubclass(origin, Structured):
+            origin = get_origin(base)
+            if origin and issubclass(origin, Structured):
                 supers[origin] = base
         tvar_map = dict(zip(tvars, args))
         if not tvar_map:
-- 
2.43.0


From 04a16446b0bad6e8091aae1cccd6580df2e3e2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 27/51] fix: find TypeVars nested in the arguments of tuples,
 arrays and generic classes

---
 structured/hint_types/arrays.py      |  7 +++++--
 structured/hint_types/tuples.py      |  3 ++-
 structured/serializers/structured.py |  6 +++---
 structured/utils.py                  | 12 +++++++++++-
 4 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 3b2372d..1446002 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -21,7 +21,7 @@ from ..serializers import (
     StructSerializer,
 )
 from ..type_checking import Annotated, Generic, Optional, S, Self, T, TypeVar, annotated
-from ..utils import StructuredAlias
+from ..utils import StructuredAlias, unresolved
 from .basic_types import _SizeTypes
 
 
@@ -90,7 +90,10 @@ class array(Generic[S, T], list[T], requires_indexing):
             raise TypeError(f'{cls.__name__}[] expected 2 arguments, got {args!r}')
         header, item_type = args
         # TypeVar checks
-        if isinstance(header, StructuredAlias) or isinstance(item_type, TypeVar):
+        item_type = unresolved(item_type)
+        if isinstance(header, StructuredAlias) or isinstance(
+            item_type, (TypeVar, StructuredAlias)
+        ):
             return StructuredAlias(cls, (header, item_type))  # type: ignore
         elif not isinstance(header, Header):
             raise TypeError(f'invalid array header type: {header!r}')
diff --git a/structured/hint_types/tuples.py b/structured/hint_types/tuples.py
index b28f4dd..39a1ce5 100644
--- a/structured/hint_types/tuples.py
+++ b/structured/hint_types/tuples.py
@@ -4,12 +4,13 @@ Provides transformations for tuple type hints into serializers.
 
 from ..serializers import Serializer, TupleSerializer
 from ..type_checking import Any, Tuple, TypeVar, annotated, get_tuple_args, istuple
-from ..utils import StructuredAlias
+from ..utils import StructuredAlias, unresolved
 
 
 def transform_tuple(base_type: Any, hint: Any) -> Any:
     if istuple(base_type):
         if tuple_args := get_tuple_args(base_type):
+            tuple_args = tuple(map(unresolved, tuple_args))
             if any(isinstance(arg, (TypeVar, StructuredAlias)) for arg in tuple_args):
                 return StructuredAlias(Tuple, tuple_args)
             serializers = [annotated.transform(x) for x in tuple_args]
diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 6728055..75f21b3 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -21,7 +21,7 @@ from ..type_checking import (
     get_origin,
     safe_issubclass,
 )
-from ..utils import StructuredAlias
+from ..utils import StructuredAlias, unresolved
 from .api import Serializer
 
 if TYPE_CHECKING:
@@ -87,9 +87,9 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
         if safe_issubclass(base_type, Structured):
             return StructuredSerializer(base_type)
         elif safe_issubclass((origin := get_origin(base_type)), Structured):
-            spec_args = get_args(base_type)
+            spec_args = tuple(map(unresolved, get_args(base_type)))
             key = (origin, spec_args)
-            if all(not isinstance(arg, TypeVar) for arg in spec_args):
+            if not any(isinstance(arg, (TypeVar, StructuredAlias)) for arg in spec_args):
                 # Fully specialized, first try the cache
                 try:
                     return cls._specializations[key]
diff --git a/structured/utils.py b/structured/utils.py
index ad88a0a..6f26529 100644
--- a/structured/utils.py
+++ b/structured/utils.py
@@ -7,7 +7,7 @@ import sys
 import warnings
 from functools import wraps
 
-from .type_checking import Any, Callable, Optional, ParamSpec, T, TypeVar
+from .type_checking import Any, Callable, Optional, ParamSpec, T, TypeVar, annotated
 
 if sys.version_info < (3, 10):
     from typing import overload
@@ -102,6 +102,16 @@ class StructuredAlias:
             return self.cls[resolved]  # type: ignore
 
 
+def unresolved(hint: Any) -> Any:
+    """If `hint` still depends on a TypeVar, get the TypeVar or StructuredAlias
+    to resolve for it.  Otherwise, the hint is returned unchanged.
+    """
+    transformed = annotated.transform(hint)
+    if isinstance(transformed, (TypeVar, StructuredAlias)):
+        return transformed
+    return hint
+
+
 # nice deprecation warnings, ideas taken from Trio
 class StructuredDeprecationWarning(FutureWarning):
     """Warning emitted if you use deprecated Structured functionality. This
-- 
2.43.0


From 32ea9bec86b3cc928adf78296c16782ba9f8e66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 28/51] fix: don't silently drop extra values of a tuple when
 packing

---
 structured/serializers/api.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/structured/serializers/api.py b/structured/serializers/api.py
index da865af..810ac05 100644
--- a/structured/serializers/api.py
+++ b/structured/serializers/api.py
@@ -264,6 +264,12 @@ class CompoundSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         else:
             return _SpecializedCompoundSerializer(self, partial_object)
 
+    def _check_num_values(self, values: tuple[Any, ...]) -> None:
+        if len(values) != self.num_values:
+            raise ValueError(
+                f'Expected {self.num_values} values to pack, got {len(values)}'
+            )
+
     def _iter_packers(
         self, values: tuple[Unpack[Ts]]
     ) -> Iterable[tuple[Serializer, tuple[Any, ...], int]]:
@@ -271,6 +277,7 @@ class CompoundSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         tracking which values get sent to which, as well as updating the total
         size.
         """
+        self._check_num_values(values)
         size = 0
         i = 0
         for serializer in self.serializers:
@@ -386,6 +393,7 @@ class _SpecializedCompoundSerializer(
     def _iter_packers(
         self, values: tuple[Unpack[Ts]]
     ) -> Iterable[tuple[Serializer, tuple[Any, ...], int]]:
+        self._check_num_values(values)
         size = 0
         i = 0
         for serializer in self.serializers:
-- 
2.43.0


From d68820af8dde1aba74cc501b3a5a8e4a555d7cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 29/51] fix: keep every padding member when annotations are not
 evaluated

---
 structured/structured.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/structured/structured.py b/structured/structured.py
index 354747b..eb80dc5 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -12,6 +12,7 @@ __all__ = [
 ]
 
 import operator
+import re
 from functools import reduce
 from itertools import count
 
@@ -47,9 +48,15 @@ from .type_checking import (
 from .utils import StructuredAlias, attrgetter, zips
 
 
+_re_pad: re.Pattern[str] = re.compile(r'\bpad\s*\[')
+
+
 def ispad(annotation: Any) -> bool:
     """Detect pad[x] generated StructSerializers."""
     serializer = annotated.transform(annotation)
+    if isinstance(serializer, str):
+        # Not evaluated yet (from __future__ import annotations)
+        return _re_pad.search(serializer) is not None
     if isinstance(serializer, ConditionalSerializer):
         serializer = serializer.serializers[True]
     return (
-- 
2.43.0


From d1884acc4722f3c2f5885088360b98c0401d5ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 30/51] fix: exhaust the values of the serializer chosen by a
 union before reading its size

---
 structured/serializers/unions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 45d9188..0f986bb 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -165,19 +165,19 @@ class LookbackDecider(AUnion):
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack(buffer)
+        value = tuple(serializer.unpack(buffer))
         self.size = serializer.size
         return value
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack_from(buffer, offset)
+        value = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
         return value
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack_read(readable)
+        value = tuple(serializer.unpack_read(readable))
         self.size = serializer.size
         return value
 
@@ -236,7 +236,7 @@ class LookaheadDecider(AUnion):
         read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
         result = tuple(read_ahead.unpack(buffer))[0]
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack(buffer)
+        values = tuple(serializer.unpack(buffer))
         self.size = serializer.size
         return values
 
@@ -244,7 +244,7 @@ class LookaheadDecider(AUnion):
         read_ahead = self.read_ahead_serializer.preunpack(self._partial_object)
         result = tuple(read_ahead.unpack_from(buffer, offset))[0]
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack_from(buffer, offset)
+        values = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
         return values
 
@@ -253,6 +253,6 @@ class LookaheadDecider(AUnion):
         result = tuple(read_ahead.unpack_read(readable))[0]
         readable.seek(-read_ahead.size, os.SEEK_CUR)
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack_read(readable)
+        values = tuple(serializer.unpack_read(readable))
         self.size = serializer.size
         return values
-- 
2.43.0


From 0301d2a68e5bb9619a9116993fb5f81cbab2212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 31/51] fix: keep track of the size of a lone Condition, and of
 tuples of one member

---
 structured/serializers/conditional.py | 19 +++++++++++-----
 structured/serializers/tuples.py      | 31 ++++++++++++++++++---------
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index 42e2cac..6905249 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -24,7 +24,7 @@ from ..type_checking import (
     Unpack,
     WritableBuffer,
 )
-from .api import ByteOrder, Serializer
+from .api import ByteOrder, Serializer, _SpecializedCompoundSerializer
 
 if TYPE_CHECKING:
     # *Only* used for type-hinting, so ok to guard with a TYPE_CHECKING
@@ -43,6 +43,7 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         default: tuple[Unpack[Ts]],
     ) -> None:
         self.condition = condition
+        self.size = 0
         self.serializers: dict[bool, Serializer[Unpack[Ts]]] = {
             True: serializer,
             False: SkipSerializer(default),
@@ -64,12 +65,20 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return type(self)(serializer, self.condition, defaults)
 
     def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        serializer = self.serializers[bool(self.condition(partial_object))]
-        return serializer.prepack(partial_object)
+        return _SpecializedConditionalSerializer(self, partial_object)
 
     def preunpack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        serializer = self.serializers[bool(self.condition(partial_object))]
-        return serializer.preunpack(partial_object)
+        return _SpecializedConditionalSerializer(self, partial_object)
+
+
+class _SpecializedConditionalSerializer(_SpecializedCompoundSerializer):
+    """Serializer for the outcome of the condition, which also updates the size
+    of the originating ConditionalSerializer.
+    """
+
+    def __init__(self, origin: ConditionalSerializer, partial_object: Any) -> None:
+        super().__init__(origin, partial_object)
+        self.serializers = (origin.serializers[bool(origin.condition(partial_object))],)
 
 
 class SkipSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index ea222da..da13628 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -30,14 +30,11 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
 
     def __init__(self, serializers: Iterable[Serializer]) -> None:
         self.serializer = sum(serializers, NullSerializer())
+        self.size = getattr(self.serializer, 'size', 0)
 
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
-    @property
-    def size(self) -> int:
-        return self.serializer.size
-
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
         return type(self)((self.serializer.with_byte_order(byte_order),))
 
@@ -46,29 +43,43 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return self
 
     def pack(self, values: tuple[Unpack[Ts]]) -> bytes:
-        return self.serializer.prepack(self._partial_obj).pack(*values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        data = serializer.pack(*values)
+        self.size = serializer.size
+        return data
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, values: tuple[Unpack[Ts]]
     ) -> None:
-        self.serializer.prepack(self._partial_obj).pack_into(buffer, offset, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_into(buffer, offset, *values)
+        self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, values: tuple[Unpack[Ts]]) -> None:
-        self.serializer.prepack(self._partial_obj).pack_write(writable, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_write(writable, *values)
+        self.size = serializer.size
 
     def preunpack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
         return self
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[Iterable[Any]]:
-        return (tuple(self.serializer.preunpack(self._partial_obj).unpack(buffer)),)
+        serializer = self.serializer.preunpack(self._partial_obj)
+        values = tuple(serializer.unpack(buffer))
+        self.size = serializer.size
+        return (values,)
 
     def unpack_from(
         self, buffer: ReadableBuffer, offset: int = 0
     ) -> tuple[Iterable[Any]]:
         serializer = self.serializer.preunpack(self._partial_obj)
-        return (tuple(serializer.unpack_from(buffer, offset)),)
+        values = tuple(serializer.unpack_from(buffer, offset))
+        self.size = serializer.size
+        return (values,)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[Iterable[Any]]:
         serializer = self.serializer.preunpack(self._partial_obj)
-        return (tuple(serializer.unpack_read(readable)),)
+        values = tuple(serializer.unpack_read(readable))
+        self.size = serializer.size
+        return (values,)
-- 
2.43.0


From c92751fba1c25700b48724d2d885048733f6704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 32/51] fix: don't hang or exhaust memory on the length in a
 malformed string header

---
 structured/serializers/structs.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index bfada24..283869e 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -46,16 +46,21 @@ def compute_num_values(st: struct.Struct, *, __cache: dict[str, int] = {}) -> in
     try:
         return __cache[st.format]
     except KeyError:
-        buffer = bytearray(st.size)
-        # Use struct.Struct so this can be called before full initialization of
-        # subclasses.
-        count = len(struct.Struct.unpack_from(st, buffer))
+        # NOTE: Not by unpacking a buffer, the size might come from a (malformed)
+        # length or array header.
+        _, format = split_byte_order(st.format)
+        count = sum(
+            1 if kind in 'sp' else int(repeats or 1)
+            for repeats, kind in _re_code.findall(format)
+            if kind != 'x'
+        )
         __cache[st.format] = count
         return count
 
 
 _struct_chars = r'xcbB\?hHiIlLqQnNefdspP'
 _re_end: re.Pattern[str] = re.compile(rf'(.*?)(\d*)([{_struct_chars}])$')
+_re_code: re.Pattern[str] = re.compile(rf'(\d*)([{_struct_chars}])')
 _re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*?)')
 
 
@@ -197,9 +202,16 @@ class StructSerializer(Generic[Unpack[Ts]], struct.Struct, Serializer[Unpack[Ts]
         elif other == 1:
             return self
         byte_order, fmt = self._split_format
-        fmt = reduce(
-            partial(fold_overlaps, combine_strings=combine_strings), repeat(fmt, other)
-        )
+        single = _re_code.fullmatch(fmt)
+        if single and (combine_strings or single[2] not in ('s', 'p')):
+            fmt = f'{int(single[1] or 1) * other}{single[2]}'
+        elif single:
+            fmt = fmt * other
+        else:
+            fmt = reduce(
+                partial(fold_overlaps, combine_strings=combine_strings),
+                repeat(fmt, other),
+            )
         return type(self)(fmt, byte_order)
 
     def __eq__(self, other: StructSerializer) -> bool:
-- 
2.43.0


From 0c5fdac66302346e830fef4a3404ef9bb83b4b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:52 +0000
Subject: [PATCH 33/51] fix: don't hang or exhaust memory on the count in a
 malformed array header

---
 structured/serializers/arrays.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index def05dd..c821384 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -11,6 +11,8 @@ __all__ = [
     'HeaderSerializer',
 ]
 
+import struct
+
 from ..base_types import ByteOrder
 from ..type_checking import (
     BinaryIO,
@@ -271,10 +273,17 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[list[T]]]) -> None:
         writable.write(self.pack(*values))
 
+    def _unpacker(self, count: int, available: int) -> Serializer:
+        # NOTE: Check first, a malformed count could be for (much) more items
+        # than there is memory for.
+        if count * self.item_serializer.size > available:
+            raise struct.error(f'not enough data to unpack {count} array items')
+        return self.item_serializer * count
+
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack(buffer)
         size = self.count_serializer.size
-        serializer = self.item_serializer * count
+        serializer = self._unpacker(count, len(buffer) - size)
         items = serializer.unpack(buffer[size:])
         self.size = size + serializer.size
         return (list(items),)
@@ -282,7 +291,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_from(buffer, offset)
         size = self.count_serializer.size
-        serializer = self.item_serializer * count
+        serializer = self._unpacker(count, len(buffer) - offset - size)
         items = serializer.unpack_from(buffer, offset + size)
         self.size = size + serializer.size
         return (list(items),)
@@ -290,7 +299,8 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack_read(self, readable: BinaryIO) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_read(readable)
         size = self.count_serializer.size
-        serializer = self.item_serializer * count
-        items = serializer.unpack_read(readable)
+        data = readable.read(count * self.item_serializer.size)
+        serializer = self._unpacker(count, len(data))
+        items = serializer.unpack(data)
         self.size = size + serializer.size
         return (list(items),)
-- 
2.43.0


From 2f4c7cdf30e1c5affb3952cb722e69ef04c2ed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 34/51] fix: count the bytes actually read while looking for a
 terminator in a stream

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 9cf3c5f..90752e5 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -239,7 +239,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
                 offset = chunk.find(self.terminator)
                 if offset == -1:
                     out.write(chunk)
-                    size += READ_SIZE
+                    size += len(chunk)
                 else:
                     out.write(chunk[:offset])
                     size += offset + 1
-- 
2.43.0


From 23ec09ad26b7bb2c1841fa51d326b2ca2bac7cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 35/51] fix: pack dynamic strings of classes with a byte order

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 90752e5..3371825 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -70,7 +70,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         raw_data = values[0]
         count = len(raw_data)
-        st = self.st + _single_char @ count
+        st = self.st + (_single_char @ count).with_byte_order(self.st.byte_order)
         self.size = st.size
         return st, count, raw_data
 
-- 
2.43.0


From e046c2286609caf3e262d62d9474c7d434189604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 36/51] fix: treat padding guarded by several Conditions as
 padding

---
 structured/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index eb80dc5..27b4a29 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -57,7 +57,7 @@ def ispad(annotation: Any) -> bool:
     if isinstance(serializer, str):
         # Not evaluated yet (from __future__ import annotations)
         return _re_pad.search(serializer) is not None
-    if isinstance(serializer, ConditionalSerializer):
+    while isinstance(serializer, ConditionalSerializer):
         serializer = serializer.serializers[True]
     return (
         isinstance(serializer, StructSerializer)
-- 
2.43.0


From 36e794d4a4c7bbaea833aacccb76902880a27e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 37/51] fix: don't silently drop extra values of a tuple of one
 member when packing

---
 structured/serializers/tuples.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index da13628..3de4faf 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -42,7 +42,16 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         self._partial_obj = partial_object
         return self
 
+    def _check_num_values(self, values: tuple[Unpack[Ts]]) -> None:
+        # NOTE: Not all serializers check this, some just ignore extra values.
+        if len(values) != self.serializer.num_values:
+            raise ValueError(
+                f'Expected {self.serializer.num_values} values in tuple, '
+                f'got {len(values)}'
+            )
+
     def pack(self, values: tuple[Unpack[Ts]]) -> bytes:
+        self._check_num_values(values)
         serializer = self.serializer.prepack(self._partial_obj)
         data = serializer.pack(*values)
         self.size = serializer.size
@@ -51,11 +60,13 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def pack_into(
         self, buffer: WritableBuffer, offset: int, values: tuple[Unpack[Ts]]
     ) -> None:
+        self._check_num_values(values)
         serializer = self.serializer.prepack(self._partial_obj)
         serializer.pack_into(buffer, offset, *values)
         self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, values: tuple[Unpack[Ts]]) -> None:
+        self._check_num_values(values)
         serializer = self.serializer.prepack(self._partial_obj)
         serializer.pack_write(writable, *values)
         self.size = serializer.size
-- 
2.43.0


From 2e1db1229fa00e1f2ad74363f122b1a97fe6f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 38/51] fix: don't leave a TypeVar in the hint of an array, so
 it can be an argument of a generic class

---
 structured/hint_types/arrays.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 1446002..f64130f 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -115,11 +115,11 @@ class array(Generic[S, T], list[T], requires_indexing):
         ):
             if isinstance(header.count, int):
                 return Annotated[
-                    list[T], StaticStructArraySerializer(header.count, item_serializer)
+                    list, StaticStructArraySerializer(header.count, item_serializer)
                 ]
             else:
                 return Annotated[
-                    list[T], DynamicStructArraySerializer(header.count, item_serializer)
+                    list, DynamicStructArraySerializer(header.count, item_serializer)
                 ]
         # General array serializer
         if isinstance(header.count, int):
@@ -137,6 +137,6 @@ class array(Generic[S, T], list[T], requires_indexing):
             else:
                 header_serializer = header.count + header.data_size
         return Annotated[
-            list[T],
+            list,
             ArraySerializer[T](header_serializer, item_serializer, static_length),
         ]
-- 
2.43.0


From 78471f10810149f6a77506c7c17b8a478975fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:39 +0000
Subject: [PATCH 39/51] fix: find TypeVars in annotated arguments of tuples,
 arrays and generic classes

---
 structured/structured.py |  8 +-------
 structured/utils.py      | 10 +++++++++-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index 27b4a29..f77532d 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -45,7 +45,7 @@ from .type_checking import (
     isclassvar,
     update_annotations,
 )
-from .utils import StructuredAlias, attrgetter, zips
+from .utils import StructuredAlias, alias_tvar_check, attrgetter, zips
 
 
 _re_pad: re.Pattern[str] = re.compile(r'\bpad\s*\[')
@@ -453,12 +453,6 @@ class Structured(metaclass=StructuredMeta):
         # First handle the direct base class
         annotations = {}
 
-        def alias_tvar_check(base_type: Any, hint: Any):
-            if isinstance(base_type, (StructuredAlias, TypeVar)):
-                return base_type
-            if isinstance(hint, (StructuredAlias, TypeVar)):
-                return hint
-
         cls_annotations = get_annotations(cls)
         for attr, attr_type in get_type_hints(cls, include_extras=True).items():
             if attr in cls_annotations:
diff --git a/structured/utils.py b/structured/utils.py
index 6f26529..d1ecba2 100644
--- a/structured/utils.py
+++ b/structured/utils.py
@@ -102,11 +102,19 @@ class StructuredAlias:
             return self.cls[resolved]  # type: ignore
 
 
+def alias_tvar_check(base_type: Any, hint: Any) -> Any:
+    """Transform to detect hints which still depend on a TypeVar."""
+    if isinstance(base_type, (StructuredAlias, TypeVar)):
+        return base_type
+    if isinstance(hint, (StructuredAlias, TypeVar)):
+        return hint
+
+
 def unresolved(hint: Any) -> Any:
     """If `hint` still depends on a TypeVar, get the TypeVar or StructuredAlias
     to resolve for it.  Otherwise, the hint is returned unchanged.
     """
-    transformed = annotated.transform(hint)
+    transformed = annotated.with_final(alias_tvar_check).transform(hint)
     if isinstance(transformed, (TypeVar, StructuredAlias)):
         return transformed
     return hint
-- 
2.43.0


From 9c507fe42d020f2a9d6f31a1c837537259f40b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:42 +0000
Subject: [PATCH 40/51] fix: don't resolve the TypeVars of a type argument with
 the arguments of the class it is passed to

---
 structured/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structured/utils.py b/structured/utils.py
index d1ecba2..3442873 100644
--- a/structured/utils.py
+++ b/structured/utils.py
@@ -89,9 +89,12 @@ class StructuredAlias:
         """
         resolved = []
         for arg in self.args:
-            arg = tvar_map.get(arg, arg)
             if isinstance(arg, StructuredAlias):
                 arg = arg.resolve(tvar_map)
+            else:
+                # NOTE: This might be an alias with other meanings of the same
+                # TypeVars, so don't resolve it.
+                arg = tvar_map.get(arg, arg)
             resolved.append(arg)
         resolved = tuple(resolved)
         if any((isinstance(arg, (TypeVar, StructuredAlias)) for arg in resolved)):
-- 
2.43.0


From 624dfc8a593ad7e3df9ed36026f91290537a9cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 41/51] fix: resolve TypeVars nested in the arguments a
 partially specialized class passes to its base

---
 structured/structured.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index f77532d..efc62fa 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -45,7 +45,7 @@ from .type_checking import (
     isclassvar,
     update_annotations,
 )
-from .utils import StructuredAlias, alias_tvar_check, attrgetter, zips
+from .utils import StructuredAlias, alias_tvar_check, attrgetter, unresolved, zips
 
 
 _re_pad: re.Pattern[str] = re.compile(r'\bpad\s*\[')
@@ -448,6 +448,7 @@ class Structured(metaclass=StructuredMeta):
             if origin and issubclass(origin, Structured):
                 supers[origin] = base
         tvar_map = dict(zip(tvars, args))
+        alias_map = dict(zip(tvars, map(unresolved, args)))
         if not tvar_map:
             raise TypeError(f'{cls.__name__} is not a Generic')
         # First handle the direct base class
@@ -461,12 +462,17 @@ class Structured(metaclass=StructuredMeta):
                     if remapped_type := tvar_map.get(unwrapped, None):
                         annotations[attr] = remapped_type
                 elif isinstance(unwrapped, StructuredAlias):
-                    annotations[attr] = unwrapped.resolve(tvar_map)
+                    annotations[attr] = unwrapped.resolve(alias_map)
         # Now any classes higher in the chain
         all_annotations = [annotations]
         for base, alias in supers.items():
-            args = get_args(alias)
-            args = (tvar_map.get(arg, arg) for arg in args)
+            args = map(unresolved, get_args(alias))
+            args = (
+                arg.resolve(alias_map)
+                if isinstance(arg, StructuredAlias)
+                else tvar_map.get(arg, arg)
+                for arg in args
+            )
             super_annotations = base._get_specialization_hints(*args)
             all_annotations.append(super_annotations)
         return reduce(operator.or_, reversed(all_annotations))
-- 
2.43.0


From 020a60bde89c0e935449e6b1e53f40d43127ba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 42/51] fix: allow a member named self

---
 structured/structured.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index efc62fa..c5e2b87 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -139,7 +139,8 @@ def gen_init(
     """Generates an __init__ method for a class.  `args` should be a mapping of
     arguments to type annotations to be used in the method definition.
 
-    :param args: Mapping of argument names to argument type annotations, including self.
+    :param args: Mapping of argument names to argument type annotations, starting
+        with self.
     :param globalsns: Any globals needed to be accessed by this method.
     :param localsns: Any locals needed to be accessed by this method.
     :return: The generated __init__, without __qualname__set.
@@ -167,8 +168,9 @@ def gen_init(
     # Inner function text
     args_txt = ', '.join(args_items)
     def_txt = f' def __init__({args_txt}) -> None:'
-    body_lines = [f'  self.{name} = {name}' for name in args.keys() if name != 'self']
-    body_lines.append('  self.__post_init__()')
+    self_name, *attrs = args.keys()
+    body_lines = [f'  {self_name}.{name} = {name}' for name in attrs]
+    body_lines.append(f'  {self_name}.__post_init__()')
     body_txt = '\n'.join(body_lines)
     inner_txt = f'{def_txt}\n{body_txt}'
     # Outer creation function
@@ -405,7 +407,9 @@ class Structured(metaclass=StructuredMeta):
         # Which variables show up in the __init__
         # Need to ensure 'self' shows up first
         typehints = get_type_hints(cls)
-        init_vars = {'self': Self}
+        # NOTE: A member could be named `self` as well
+        self_name = '__structured_self__' if 'self' in applicable_typehints else 'self'
+        init_vars = {self_name: Self}
         init_vars |= {
             attr: typehints.get(attr, Any)
             for attr in applicable_typehints
-- 
2.43.0


From 6d0ae6aea424598d2877bb7cba4b60d34878d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:57 +0000
Subject: [PATCH 43/51] fix: ConsumingCharSerializer packed values which are
 not bytes

---
 structured/serializers/strings.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 3371825..dc1d956 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -152,8 +152,9 @@ class ConsumingCharSerializer(Serializer[bytes]):
         return self
 
     def pack(self, *values: Unpack[tuple[bytes]]) -> bytes:
-        self.size = len(values[0])
-        return values[0]
+        data = values[0]
+        self.size = len(data)
+        return struct.pack(f'{self.size}s', data)
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[bytes]]
@@ -165,7 +166,7 @@ class ConsumingCharSerializer(Serializer[bytes]):
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
         data = values[0]
         self.size = len(data)
-        writable.write(data)
+        writable.write(struct.pack(f'{self.size}s', data))
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
         self.size = len(buffer)
-- 
2.43.0


From b5c267a810e3c6857fa0a88e8d48f939ea9a3c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:24 +0000
Subject: [PATCH 44/51] fix: adding struct serializers lost part of the format
 if the second has several types

---
 structured/serializers/structs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 283869e..acd2292 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -61,7 +61,7 @@ def compute_num_values(st: struct.Struct, *, __cache: dict[str, int] = {}) -> in
 _struct_chars = r'xcbB\?hHiIlLqQnNefdspP'
 _re_end: re.Pattern[str] = re.compile(rf'(.*?)(\d*)([{_struct_chars}])$')
 _re_code: re.Pattern[str] = re.compile(rf'(\d*)([{_struct_chars}])')
-_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*?)')
+_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*)')
 
 
 def fold_overlaps(format1: str, format2: str, combine_strings: bool = False) -> str:
-- 
2.43.0


From c2d683b11685972c5b32124cce58ba99b7eb759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:48 +0000
Subject: [PATCH 45/51] fix: StructActionSerializers of different byte orders
 were joined silently

---
 structured/serializers/structs.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index acd2292..e598b27 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -295,7 +295,12 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         else:
             return super().__add__(other)
         byte_order, lfmt = self._split_format
-        _, rfmt = other._split_format
+        byte_order2, rfmt = other._split_format
+        if byte_order is not byte_order2:
+            raise ValueError(
+                f'Cannot join StructSerializers with different byte orders: '
+                f'{self} + {other}'
+            )
         fmt = fold_overlaps(lfmt, rfmt)
         actions = tuple(chain(self.actions, actions))
         return type(self)(fmt, byte_order, actions)
@@ -308,7 +313,12 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         else:
             return NotImplemented
         byte_order, lfmt = other._split_format
-        _, rfmt = self._split_format
+        byte_order2, rfmt = self._split_format
+        if byte_order is not byte_order2:
+            raise ValueError(
+                f'Cannot join StructSerializers with different byte orders: '
+                f'{other} + {self}'
+            )
         fmt = fold_overlaps(lfmt, rfmt)
         actions = tuple(chain(actions, self.actions))
         return type(self)(fmt, byte_order, actions)  # type: ignore
-- 
2.43.0


From e8e21ee6e720f04c73c2b022ab8365c408401be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:50 +0000
Subject: [PATCH 46/51] fix: StructActionSerializer @ count lost the actions

---
 structured/serializers/structs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index e598b27..69cdc71 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -328,6 +328,12 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         res.actions = tuple(chain.from_iterable(repeat(self.actions, other)))
         return res
 
+    def __matmul__(self, other: int) -> Self:
+        res = super().__matmul__(other)
+        if isinstance(res, StructActionSerializer):
+            res.actions = self.actions
+        return res
+
     def __eq__(self, other: StructSerializer) -> bool:
         if isinstance(other, StructActionSerializer):
             return self.format == other.format and self.actions == other.actions
-- 
2.43.0


From c4e29d9743d3d54e719194d17d2172a3175ecb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:41 +0000
Subject: [PATCH 47/51] fix: allow serializer instances in the unions of
 decider hints

---
 structured/structured.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index c5e2b87..29b4f29 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -151,7 +151,8 @@ def gen_init(
     # Transform types to strings
     args_items = []
     for name, annotation in args.items():
-        if union_args := get_union_args(annotation):
+        union_args = get_union_args(annotation)
+        if union_args and all(hasattr(arg, '__name__') for arg in union_args):
             union_text = ', '.join(arg.__name__ for arg in union_args)
             args_items.append(f'{name}: Union[{union_text}]')
         else:
-- 
2.43.0


From bb747d8d48e1f68e65be8bb0822f5c382d21b174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 48/51] fix: recognize padding in Annotated['pad[x]', ...]

---
 structured/structured.py    | 3 +++
 structured/type_checking.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/structured/structured.py b/structured/structured.py
index 29b4f29..886dfbe 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -28,6 +28,7 @@ from .type_checking import (
     BinaryIO,
     Callable,
     ClassVar,
+    ForwardRef,
     Iterable,
     Iterator,
     Optional,
@@ -54,6 +55,8 @@ _re_pad: re.Pattern[str] = re.compile(r'\bpad\s*\[')
 def ispad(annotation: Any) -> bool:
     """Detect pad[x] generated StructSerializers."""
     serializer = annotated.transform(annotation)
+    if isinstance(serializer, ForwardRef):
+        serializer = serializer.__forward_arg__
     if isinstance(serializer, str):
         # Not evaluated yet (from __future__ import annotations)
         return _re_pad.search(serializer) is not None
diff --git a/structured/type_checking.py b/structured/type_checking.py
index a198119..eeb79b5 100644
--- a/structured/type_checking.py
+++ b/structured/type_checking.py
@@ -18,6 +18,7 @@ from typing import (
     Callable,
     ClassVar,
     Container,
+    ForwardRef,
     Generic,
     Iterable,
     Iterator,
-- 
2.43.0


From a933f6af9be19ae073c6348d7bf4face0d58772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:02 +0000
Subject: [PATCH 49/51] fix: keep members redefined by a generic class in its
 specializations

---
 structured/structured.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/structured/structured.py b/structured/structured.py
index 886dfbe..3430c1c 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -482,7 +482,14 @@ class Structured(metaclass=StructuredMeta):
                 for arg in args
             )
             super_annotations = base._get_specialization_hints(*args)
-            all_annotations.append(super_annotations)
+            # Members redefined by this class take precedence
+            all_annotations.append(
+                {
+                    attr: attr_type
+                    for attr, attr_type in super_annotations.items()
+                    if attr not in cls_annotations
+                }
+            )
         return reduce(operator.or_, reversed(all_annotations))
 
 
-- 
2.43.0


From 164d61fc9097e3d964100ba4ff9b45f0c37e1d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 50/51] fix: the size of a char[math.inf] unpacked from past
 the end of a buffer was negative

---
 structured/serializers/strings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index dc1d956..753ec65 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -173,8 +173,9 @@ class ConsumingCharSerializer(Serializer[bytes]):
         return (bytes(buffer),)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
-        self.size = len(buffer) - offset
-        return (bytes(buffer[offset:]),)
+        data = bytes(buffer[offset:])
+        self.size = len(data)
+        return (data,)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
         data = readable.read()
-- 
2.43.0


From f55c93fad3f352988cd142b5b695cf1a4dd89021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 51/51] fix: tell padding named _ from other members after
 evaluating annotations

---
 structured/structured.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index 3430c1c..a55810b 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -12,7 +12,6 @@ __all__ = [
 ]
 
 import operator
-import re
 from functools import reduce
 from itertools import count
 
@@ -49,17 +48,9 @@ from .type_checking import (
 from .utils import StructuredAlias, alias_tvar_check, attrgetter, unresolved, zips
 
 
-_re_pad: re.Pattern[str] = re.compile(r'\bpad\s*\[')
-
-
 def ispad(annotation: Any) -> bool:
     """Detect pad[x] generated StructSerializers."""
     serializer = annotated.transform(annotation)
-    if isinstance(serializer, ForwardRef):
-        serializer = serializer.__forward_arg__
-    if isinstance(serializer, str):
-        # Not evaluated yet (from __future__ import annotations)
-        return _re_pad.search(serializer) is not None
     while isinstance(serializer, ConditionalSerializer):
         serializer = serializer.serializers[True]
     return (
@@ -69,6 +60,14 @@ def ispad(annotation: Any) -> bool:
     )
 
 
+def isunevaluated(annotation: Any) -> bool:
+    """Detect annotations which are not evaluated yet, for example due to
+    `from __future__ import annotations`.
+    """
+    base_type, *_ = annotated.flatten_Annotated(annotation)
+    return isinstance(base_type, (str, ForwardRef))
+
+
 def final_transform(base_type: Any, hint: Any) -> Optional[Serializer]:
     if isinstance(hint, Serializer):
         return hint
@@ -194,7 +193,7 @@ class MetaDict(dict):
     _unique_id: ClassVar[Iterator[int]] = count()
 
     def __setitem__(self, key, value):
-        if key == '_' and ispad(value):
+        if key == '_' and (isunevaluated(value) or ispad(value)):
             # Generate a unique name, we'll use ones that are invalid attribute
             # names so they won't accidentally overwrite anything a use sets.
             key = f'{next(self._unique_id)}_pad_'
@@ -407,6 +406,18 @@ class Structured(metaclass=StructuredMeta):
                 update_annotations(cls, annotations | get_annotations(cls))
         # Analyze the class
         typehints = get_type_hints(cls, include_extras=True)
+        # Which variables named `_` turned out not to be padding after evaluation
+        renamed = {
+            attr
+            for attr in get_annotations(cls)
+            if not attr.isidentifier() and not ispad(typehints[attr])
+        }
+        if renamed:
+            cls.__annotations__ = {
+                '_' if attr in renamed else attr: hint
+                for attr, hint in get_annotations(cls).items()
+            }
+            typehints = get_type_hints(cls, include_extras=True)
         applicable_typehints = filter_typehints(typehints, cls)
         # Which variables show up in the __init__
         # Need to ensure 'self' shows up first
-- 
2.43.0

