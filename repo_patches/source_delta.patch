From 180c39bdcb1b3ac53dcf4f07cac8587f674b247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 01/52] fix: name the uint48 type uint48 instead of int48

---
 dissect/cstruct/cstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/cstruct.py b/dissect/cstruct/cstruct.py
index 548b3f5..e4e7f7b 100644
--- a/dissect/cstruct/cstruct.py
+++ b/dissect/cstruct/cstruct.py
@@ -73,7 +73,7 @@ class cstruct:
             "int24": self._make_int_type("int24", 3, True, alignment=4),
             "uint24": self._make_int_type("uint24", 3, False, alignment=4),
             "int48": self._make_int_type("int48", 6, True, alignment=8),
-            "uint48": self._make_int_type("int48", 6, False, alignment=8),
+            "uint48": self._make_int_type("uint48", 6, False, alignment=8),
             "int128": self._make_int_type("int128", 16, True, alignment=16),
             "uint128": self._make_int_type("uint128", 16, False, alignment=16),
 
-- 
2.43.0


From 801c497dbc3f98f2adc1985d5f9ea700aedda4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:41 +0000
Subject: [PATCH 02/52] fix: keep expression evaluation state local and unary
 minus apart from identifiers

---
 dissect/cstruct/expression.py | 79 ++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 42 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index 6c48356..c3ff167 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -167,7 +167,7 @@ class Expression:
     }
 
     unary_operators: ClassVar[dict[str, Callable[[int], int]]] = {
-        "u": lambda a: -a,
+        "u-": lambda a: -a,
         "~": lambda a: ~a,
     }
 
@@ -182,7 +182,7 @@ class Expression:
         "*": 5,
         "/": 5,
         "%": 5,
-        "u": 6,
+        "u-": 6,
         "~": 6,
         "sizeof": 6,
     }
@@ -191,8 +191,6 @@ class Expression:
         self.cstruct = cstruct
         self.expression = expression
         self.tokens = ExpressionTokenizer(expression).tokenize()
-        self.stack = []
-        self.queue = []
 
     def __repr__(self) -> str:
         return self.expression
@@ -200,24 +198,24 @@ class Expression:
     def precedence(self, o1: str, o2: str) -> bool:
         return self.precedence_levels[o1] >= self.precedence_levels[o2]
 
-    def evaluate_exp(self) -> None:
-        operator = self.stack.pop(-1)
+    def evaluate_exp(self, stack: list[str], queue: list[int]) -> None:
+        operator = stack.pop(-1)
         res = 0
 
-        if len(self.queue) < 1:
+        if len(queue) < 1:
             raise ExpressionParserError("Invalid expression: not enough operands")
 
-        right = self.queue.pop(-1)
+        right = queue.pop(-1)
         if operator in self.unary_operators:
             res = self.unary_operators[operator](right)
         else:
-            if len(self.queue) < 1:
+            if len(queue) < 1:
                 raise ExpressionParserError("Invalid expression: not enough operands")
 
-            left = self.queue.pop(-1)
+            left = queue.pop(-1)
             res = self.binary_operators[operator](left, right)
 
-        self.queue.append(res)
+        queue.append(res)
 
     def is_number(self, token: str) -> bool:
         return token.isnumeric() or (len(token) > 2 and token[0] == "0" and token[1] in ("x", "X", "b", "B", "o", "O"))
@@ -225,45 +223,42 @@ class Expression:
     def evaluate(self, context: dict[str, int] | None = None) -> int:
         """Evaluates an expression using a Shunting-Yard implementation."""
 
-        self.stack = []
-        self.queue = []
+        # Evaluation state is local, as expressions are shared between all (concurrent) users of a type
+        stack = []
+        queue = []
         operators = set(self.binary_operators.keys()) | set(self.unary_operators.keys())
 
         context = context or {}
-        tmp_expression = self.tokens
+        tmp_expression = list(self.tokens)
 
         # Unary minus tokens; we change the semantic of '-' depending on the previous token
-        for i in range(len(self.tokens)):
-            if self.tokens[i] == "-":
-                if i == 0:
-                    self.tokens[i] = "u"
-                    continue
-                if self.tokens[i - 1] in operators or self.tokens[i - 1] == "u" or self.tokens[i - 1] == "(":
-                    self.tokens[i] = "u"
-                    continue
+        # Use a token that can't be mistaken for an identifier
+        for i in range(len(tmp_expression)):
+            if tmp_expression[i] == "-" and (
+                i == 0 or tmp_expression[i - 1] in operators or tmp_expression[i - 1] == "("
+            ):
+                tmp_expression[i] = "u-"
 
         i = 0
         while i < len(tmp_expression):
             current_token = tmp_expression[i]
             if self.is_number(current_token):
-                self.queue.append(int(current_token, 0))
+                queue.append(int(current_token, 0))
             elif current_token in context:
-                self.queue.append(int(context[current_token]))
+                queue.append(int(context[current_token]))
             elif current_token in self.cstruct.consts:
-                self.queue.append(int(self.cstruct.consts[current_token]))
+                queue.append(int(self.cstruct.consts[current_token]))
             elif current_token in self.unary_operators:
-                self.stack.append(current_token)
+                stack.append(current_token)
             elif current_token == "sizeof":
                 if len(tmp_expression) < i + 3 or (tmp_expression[i + 1] != "(" or tmp_expression[i + 3] != ")"):
                     raise ExpressionParserError("Invalid sizeof operation")
-                self.queue.append(len(self.cstruct.resolve(tmp_expression[i + 2])))
+                queue.append(len(self.cstruct.resolve(tmp_expression[i + 2])))
                 i += 3
             elif current_token in operators:
-                while (
-                    len(self.stack) != 0 and self.stack[-1] != "(" and (self.precedence(self.stack[-1], current_token))
-                ):
-                    self.evaluate_exp()
-                self.stack.append(current_token)
+                while len(stack) != 0 and stack[-1] != "(" and (self.precedence(stack[-1], current_token)):
+                    self.evaluate_exp(stack, queue)
+                stack.append(current_token)
             elif current_token == "(":
                 if i > 0:
                     previous_token = tmp_expression[i - 1]
@@ -272,7 +267,7 @@ class Expression:
                             f"Parser expected sizeof or an arethmethic operator instead got: '{previous_token}'"
                         )
 
-                self.stack.append(current_token)
+                stack.append(current_token)
             elif current_token == ")":
                 if i > 0:
                     previous_token = tmp_expression[i - 1]
@@ -281,24 +276,24 @@ class Expression:
                             f"Parser expected an expression, instead received empty parenthesis. Index: {i}"
                         )
 
-                if len(self.stack) == 0:
+                if len(stack) == 0:
                     raise ExpressionParserError("Invalid expression")
 
-                while self.stack[-1] != "(":
-                    self.evaluate_exp()
+                while stack[-1] != "(":
+                    self.evaluate_exp(stack, queue)
 
-                self.stack.pop(-1)
+                stack.pop(-1)
             else:
                 raise ExpressionParserError(f"Unmatched token: '{current_token}'")
             i += 1
 
-        while len(self.stack) != 0:
-            if self.stack[-1] == "(":
+        while len(stack) != 0:
+            if stack[-1] == "(":
                 raise ExpressionParserError("Invalid expression")
 
-            self.evaluate_exp()
+            self.evaluate_exp(stack, queue)
 
-        if len(self.queue) != 1:
+        if len(queue) != 1:
             raise ExpressionParserError("Invalid expression")
 
-        return self.queue[0]
+        return queue[0]
-- 
2.43.0


From c142138528a0c5b7f98873ba2b41aa4e3e0d1386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 03/52] fix: support type names of multiple words in sizeof
 expressions

---
 dissect/cstruct/expression.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index c3ff167..29e01c7 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -251,10 +251,15 @@ class Expression:
             elif current_token in self.unary_operators:
                 stack.append(current_token)
             elif current_token == "sizeof":
-                if len(tmp_expression) < i + 3 or (tmp_expression[i + 1] != "(" or tmp_expression[i + 3] != ")"):
+                # Type names can consist of multiple words, e.g. unsigned int
+                end = i + 2
+                while end < len(tmp_expression) and tmp_expression[end].isidentifier():
+                    end += 1
+
+                if tmp_expression[i + 1 : i + 2] != ["("] or end == i + 2 or tmp_expression[end : end + 1] != [")"]:
                     raise ExpressionParserError("Invalid sizeof operation")
-                queue.append(len(self.cstruct.resolve(tmp_expression[i + 2])))
-                i += 3
+                queue.append(len(self.cstruct.resolve(" ".join(tmp_expression[i + 2 : end]))))
+                i = end
             elif current_token in operators:
                 while len(stack) != 0 and stack[-1] != "(" and (self.precedence(stack[-1], current_token)):
                     self.evaluate_exp(stack, queue)
-- 
2.43.0


From 33ff982ef158c8a13eda7f3dc8bbab9f172ae619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 04/52] fix: treat negative constant array counts as empty

---
 dissect/cstruct/cstruct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dissect/cstruct/cstruct.py b/dissect/cstruct/cstruct.py
index e4e7f7b..969fd03 100644
--- a/dissect/cstruct/cstruct.py
+++ b/dissect/cstruct/cstruct.py
@@ -348,6 +348,10 @@ class cstruct:
 
     def _make_array(self, type_: T, num_entries: int | Expression | None) -> type[Array[T]]:
         null_terminated = False
+        if isinstance(num_entries, int):
+            # A negative constant count holds no entries, just like a negative count from an expression
+            num_entries = max(0, num_entries)
+
         if num_entries is None:
             null_terminated = True
             size = None
-- 
2.43.0


From cee728a408c7ad9f9d76c32023312fb3dcca6247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 05/52] fix: refuse a wrong number of entries in fixed arrays
 of dynamic types

---
 dissect/cstruct/types/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 0c9e527..9f79563 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -271,7 +271,7 @@ class BaseArray(BaseType):
         if cls.null_terminated:
             return cls.type._write_0(stream, data)
 
-        if not cls.dynamic and cls.num_entries != (actual_size := len(data)):
+        if isinstance(cls.num_entries, int) and cls.num_entries != (actual_size := len(data)):
             raise ArraySizeError(f"Expected static array size {cls.num_entries}, got {actual_size} instead.")
 
         return cls.type._write_array(stream, data)
-- 
2.43.0


From f684534abaec4ad21e9046def4baea497b60706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 06/52] fix: reject bit field values that don't fit and write
 signed storage units

---
 dissect/cstruct/bitbuffer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index 57b1fb4..b47ab24 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -60,6 +60,12 @@ class BitBuffer:
         if self._type is None or self._type.size is None:
             raise ValueError("Invalid state")
 
+        if bits > self._remaining:
+            raise ValueError("Writing straddled bits is unsupported")
+
+        if not 0 <= data < (1 << bits):
+            raise ValueError(f"Value {data} does not fit in a bit field of {bits} bits")
+
         if self.endian == "<":
             self._buffer |= data << (self._type.size * 8 - self._remaining)
         else:
@@ -71,7 +77,8 @@ class BitBuffer:
 
     def flush(self) -> None:
         if self._type is not None:
-            self._type._write(self.stream, self._buffer)
+            # The buffer holds the raw bits of the storage unit, regardless of the signedness of its type
+            self.stream.write(self._buffer.to_bytes(self._type.size, "little" if self.endian == "<" else "big"))
         self._type = None
         self._remaining = 0
         self._buffer = 0
-- 
2.43.0


From da46ef1d565a3448feb09966c50599a6bed001bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 07/52] fix: default bit fields of character types to a number

---
 dissect/cstruct/types/structure.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index a1074af..160e220 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -38,6 +38,14 @@ class Field:
         self.offset = offset
         self.alignment = type_.alignment or 1
 
+    def __default__(self) -> Any:
+        """Return the default value of this field."""
+        if self.bits and issubclass(self.type, bytes):
+            # Bit fields are always numbers, also for character types
+            return 0
+
+        return self.type.__default__()
+
     def __repr__(self) -> str:
         bits_str = f" : {self.bits}" if self.bits else ""
         return f"<Field {self.name} {self.type.__name__}{bits_str}>"
@@ -331,7 +339,7 @@ class StructureMetaType(MetaType):
 
             value = getattr(data, field._name, None)
             if value is None:
-                value = field_type.__default__()
+                value = field.__default__()
 
             if field.bits:
                 if isinstance(field_type, EnumMetaType):
@@ -780,7 +788,7 @@ def _generate_structure__init__(fields: list[Field]) -> FunctionType:
     template: FunctionType = _make_structure__init__(len(field_names))
     return type(template)(
         template.__code__.replace(
-            co_consts=(None, *[field.type.__default__() for field in fields]),
+            co_consts=(None, *[field.__default__() for field in fields]),
             co_names=(*field_names,),
             co_varnames=("self", *field_names),
         ),
-- 
2.43.0


From 2597a92e040320172552bcf8cbf371bd4aece9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 08/52] fix: use native bit order for bit fields in native byte
 order

---
 dissect/cstruct/bitbuffer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index b47ab24..841eb26 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import sys
 from typing import TYPE_CHECKING, BinaryIO
 
 if TYPE_CHECKING:
@@ -11,6 +12,9 @@ class BitBuffer:
 
     def __init__(self, stream: BinaryIO, endian: str):
         self.stream = stream
+        if endian in ("@", "="):
+            # Native byte order
+            endian = "<" if sys.byteorder == "little" else ">"
         self.endian = endian
 
         self._type: type[BaseType] | None = None
-- 
2.43.0


From 4450411976ec5a0ec02a0cd12d58030e1132a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 09/52] fix: read compiled structures in native byte order
 without native alignment

---
 dissect/cstruct/types/packed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/cstruct/types/packed.py b/dissect/cstruct/types/packed.py
index 76e7099..71509f0 100644
--- a/dissect/cstruct/types/packed.py
+++ b/dissect/cstruct/types/packed.py
@@ -12,6 +12,9 @@ if TYPE_CHECKING:
 
 @lru_cache(1024)
 def _struct(endian: str, packchar: str) -> Struct:
+    if endian == "@":
+        # Native byte order, but without the native alignment between values that comes with it
+        endian = "="
     return Struct(f"{endian}{packchar}")
 
 
-- 
2.43.0


From 777aa4b1e8347fee9889c91d2532fd84907f0fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 10/52] fix: take whole entries only when reading packed and
 wide character arrays until EOF

---
 dissect/cstruct/types/packed.py | 10 ++++++++--
 dissect/cstruct/types/wchar.py  |  6 ++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/packed.py b/dissect/cstruct/types/packed.py
index 71509f0..ae02c56 100644
--- a/dissect/cstruct/types/packed.py
+++ b/dissect/cstruct/types/packed.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from functools import lru_cache
+from io import SEEK_CUR
 from struct import Struct
 from typing import TYPE_CHECKING, Any, BinaryIO, Generic, TypeVar
 
@@ -34,8 +35,13 @@ class Packed(BaseType, Generic[T]):
     def _read_array(cls, stream: BinaryIO, count: int, context: dict[str, Any] | None = None) -> list[Self]:
         if count == EOF:
             data = stream.read()
-            length = len(data)
-            count = length // cls.size
+            count = len(data) // cls.size
+            length = cls.size * count
+
+            if partial := len(data) - length:
+                # Only take whole entries, leave a partial entry at the end of the stream unread
+                data = data[:length]
+                stream.seek(-partial, SEEK_CUR)
         else:
             length = cls.size * count
             data = stream.read(length)
diff --git a/dissect/cstruct/types/wchar.py b/dissect/cstruct/types/wchar.py
index 1cd8822..d8d6c00 100644
--- a/dissect/cstruct/types/wchar.py
+++ b/dissect/cstruct/types/wchar.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import sys
+from io import SEEK_CUR
 from typing import Any, BinaryIO, ClassVar
 
 from dissect.cstruct.types.base import EOF, BaseArray, BaseType
@@ -60,6 +61,11 @@ class Wchar(str, BaseType):
         if count != EOF and len(data) != count:
             raise EOFError(f"Read {len(data)} bytes, but expected {count}")
 
+        if count == EOF and len(data) % 2:
+            # Only take whole characters, leave a partial character at the end of the stream unread
+            data = data[:-1]
+            stream.seek(-1, SEEK_CUR)
+
         return type.__call__(cls, data.decode(cls.__encoding_map__[cls.cs.endian]))
 
     @classmethod
-- 
2.43.0


From 61f67ee3569a07192b2a0449abb287f5055ceffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:25 +0000
Subject: [PATCH 11/52] fix: lay out bit fields after a dynamic field and of
 unevenly sized types

---
 dissect/cstruct/types/structure.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 160e220..c87f9ed 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -182,7 +182,14 @@ class StructureMetaType(MetaType):
                 # If a field already has an offset, it's leading
                 offset = field.offset
 
-            if align and offset is not None:
+            field_type = field.type
+            if field.bits and isinstance(field_type, EnumMetaType):
+                field_type = field_type.type
+
+            # Bit fields that continue in the current storage unit don't have an alignment of their own
+            is_continued = field.bits and bits_remaining and field_type == bits_type and field.offset is None
+
+            if align and offset is not None and not is_continued:
                 # Round to next alignment
                 offset += -offset & (field.alignment - 1)
 
@@ -190,11 +197,6 @@ class StructureMetaType(MetaType):
             alignment = max(alignment, field.alignment)
 
             if field.bits:
-                field_type = field.type
-
-                if isinstance(field_type, EnumMetaType):
-                    field_type = field_type.type
-
                 # Bit fields have special logic
                 if (
                     # Exhausted a bit field
@@ -202,7 +204,10 @@ class StructureMetaType(MetaType):
                     # Moved to a bit field of another type, e.g. uint16 f1 : 8, uint32 f2 : 8;
                     or field_type != bits_type
                     # Still processing a bit field, but it's at a different offset due to alignment or a manual offset
-                    or (bits_type is not None and offset > bits_field_offset + bits_type.size)
+                    or (
+                        offset is not None
+                        and (bits_field_offset is None or offset > bits_field_offset + bits_type.size)
+                    )
                 ):
                     # ... if any of this is true, we have to move to the next field
                     bits_type = field_type
@@ -261,16 +266,18 @@ class StructureMetaType(MetaType):
                 offset = struct_start + field.offset
                 stream.seek(offset)
 
-            if cls.__align__ and field.offset is None:
+            bits_type = field.type.type if field.bits and isinstance(field.type, EnumMetaType) else field.type
+            is_continued = field.bits and bit_buffer._remaining and bit_buffer._type == bits_type
+
+            if cls.__align__ and field.offset is None and not is_continued:
                 # Previous field was dynamically sized and we need to align
                 offset += -offset & (field.alignment - 1)
                 stream.seek(offset)
 
             if field.bits:
+                value = bit_buffer.read(bits_type, field.bits)
                 if isinstance(field.type, EnumMetaType):
-                    value = field.type(bit_buffer.read(field.type.type, field.bits))
-                else:
-                    value = bit_buffer.read(field.type, field.bits)
+                    value = field.type(value)
 
                 result[field._name] = value
                 continue
-- 
2.43.0


From 6a42e3b755c5bb5a971d7d4b72efd97f27511609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:00 +0000
Subject: [PATCH 12/52] fix: keep track of the stream offset in compiled
 readers

---
 dissect/cstruct/compiler.py | 47 +++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 1b608a4..7f8542f 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -137,16 +137,31 @@ class _ReadSourceGenerator:
         prev_was_bits = False
         prev_bits_type = None
         bits_remaining = 0
-        bits_rollover = False
+
+        def advance(size: int | None) -> None:
+            # Keep track of the current offset of the stream, which is unknown once we've read something dynamic
+            nonlocal current_offset
+            current_offset = None if current_offset is None or size is None else current_offset + size
+
+        def block_size() -> int:
+            info = _generate_struct_info(self.cs, current_block, self.align)
+            return sum(count if field is None else field.type.size for field, count, _ in info)
 
         def flush() -> Iterator[str]:
             if current_block:
-                if self.align and current_block[0].offset is None:
-                    yield f"stream.seek(-stream.tell() & ({current_block[0].alignment} - 1), {io.SEEK_CUR})"
-
+                yield from align_to_field(current_block[0])
                 yield from self._generate_packed(current_block)
+                advance(block_size())
                 current_block[:] = []
 
+        def is_contiguous(field: Field) -> bool:
+            # Whether we can read this field in one go with the fields in the current block
+            first = current_block[0]
+            if field.offset is None:
+                # We can only know the padding between fields up to the alignment of the start of the block
+                return not self.align or field.alignment <= first.alignment
+            return first.offset is not None and field.offset >= first.offset + block_size()
+
         def align_to_field(field: Field) -> Iterator[str]:
             nonlocal current_offset
 
@@ -170,6 +185,7 @@ class _ReadSourceGenerator:
             if prev_was_bits and not field.bits:
                 yield "bit_reader.reset()"
                 prev_was_bits = False
+                prev_bits_type = None
                 bits_remaining = 0
 
             try:
@@ -184,6 +200,7 @@ class _ReadSourceGenerator:
                 yield from flush()
                 yield from align_to_field(field)
                 yield from self._generate_structure(field)
+                advance(size)
 
             # Array of structures and multi-dimensional arrays
             elif issubclass(field_type, (Array, CharArray, WcharArray)) and (
@@ -192,32 +209,32 @@ class _ReadSourceGenerator:
                 yield from flush()
                 yield from align_to_field(field)
                 yield from self._generate_array(field)
+                advance(size)
 
             # Bit fields
             elif field.bits:
                 if size is None:
                     raise TypeError(f"Unsupported type for bit field: {field_type}")
 
-                if not prev_was_bits:
-                    prev_bits_type = field_type
-                    prev_was_bits = True
+                yield from flush()
 
                 if bits_remaining == 0 or prev_bits_type != field_type:
-                    bits_remaining = (size * 8) - field.bits
-                    bits_rollover = True
+                    # Start of a new storage unit
+                    yield from align_to_field(field)
+                    advance(size)
+                    prev_bits_type = field_type
+                    bits_remaining = size * 8
 
-                yield from flush()
-                yield from align_to_field(field)
                 yield from self._generate_bits(field)
+                prev_was_bits = True
+                bits_remaining -= field.bits
 
             # Everything else - basic and composite types (and arrays of them)
             else:
+                if current_block and not is_contiguous(field):
+                    yield from flush()
                 current_block.append(field)
 
-            if current_offset is not None and size is not None and (not field.bits or bits_rollover):
-                current_offset += size
-                bits_rollover = False
-
         yield from flush()
 
         if self.align:
-- 
2.43.0


From 127225d9741d9f38c9a64f3ab57ab47e50c5dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 13/52] fix: keep bit fields of character types in their own
 storage unit in compiled readers

---
 dissect/cstruct/compiler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 7f8542f..605780c 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -267,8 +267,13 @@ class _ReadSourceGenerator:
             field_type = field_type.type
 
         if issubclass(field_type, Char):
-            field_type = field_type.cs.uint8
-            lookup = "cls.cs.uint8"
+            # Bit fields are always numbers, but the storage unit is still that of the character type
+            template = f"""
+            _t = {lookup}
+            r["{field._name}"] = type.__call__(cls.cs.uint8, bit_reader.read({read_type}, {field.bits}))
+            """
+            yield dedent(template)
+            return
 
         template = f"""
         _t = {lookup}
-- 
2.43.0


From ff2f2e015756bd0fbad14fe7aded5e3306e524c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:09 +0000
Subject: [PATCH 14/52] fix: read enums, flags and pointers of odd sized
 integers in compiled readers

---
 dissect/cstruct/compiler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 605780c..8ccfc2b 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -325,10 +325,14 @@ class _ReadSourceGenerator:
                 reads.append(f"_t = {self._map_field(field)}")
                 reads.append("_et = _t.type")
 
-                if issubclass(field_type.type, Int):
+                if issubclass(read_type, Int):
                     reads.append(f"_b = {getter}")
-                    item_parser = parser_template.format(type="_et", getter=f"_b[i:i + {field_type.type.size}]")
-                    list_comp = f"[{item_parser} for i in range(0, {count}, {field_type.type.size})]"
+                    item_getter = f"_b[i:i + {read_type.size}]"
+                    if issubclass(field_type.type, Pointer):
+                        item_parser = f"_et.__new__(_et, cls.cs.pointer({item_getter}), stream, r)"
+                    else:
+                        item_parser = parser_template.format(type="_et", getter=item_getter)
+                    list_comp = f"[{item_parser} for i in range(0, {count}, {read_type.size})]"
                 elif issubclass(field_type.type, Pointer):
                     item_parser = "_et.__new__(_et, e, stream, r)"
                     list_comp = f"[{item_parser} for e in {getter}]"
@@ -340,6 +344,8 @@ class _ReadSourceGenerator:
             elif issubclass(field_type, CharArray):
                 parser = f"type.__call__({self._map_field(field)}, {getter})"
             elif issubclass(field_type, Pointer):
+                if issubclass(read_type, Int):
+                    getter = f"cls.cs.pointer({getter})"
                 reads.append(f"_pt = {self._map_field(field)}")
                 parser = f"_pt.__new__(_pt, {getter}, stream, r)"
             else:
-- 
2.43.0


From 372a5a48bf0f26d13efd2be0727c5d888cb73052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:32 +0000
Subject: [PATCH 15/52] fix: give structures without fields an alignment of one

---
 dissect/cstruct/types/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index c87f9ed..18f935b 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -168,7 +168,7 @@ class StructureMetaType(MetaType):
         # The current offset, set to None if we become dynamic
         offset = 0
         # The current alignment for this structure
-        alignment = 0
+        alignment = 1
 
         # The current bit field type
         bits_type = None
@@ -446,7 +446,7 @@ class UnionMetaType(StructureMetaType):
 
     def _calculate_size_and_offsets(cls, fields: list[Field], align: bool = False) -> tuple[int | None, int]:
         size = 0
-        alignment = 0
+        alignment = 1
 
         for field in fields:
             if size is not None:
-- 
2.43.0


From 272f156bb349bb597ce978cbe2ffffdb71c76fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 16/52] fix: restore the stream position when dereferencing a
 pointer fails

---
 dissect/cstruct/types/pointer.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dissect/cstruct/types/pointer.py b/dissect/cstruct/types/pointer.py
index 289e400..91a5b68 100644
--- a/dissect/cstruct/types/pointer.py
+++ b/dissect/cstruct/types/pointer.py
@@ -89,16 +89,19 @@ class Pointer(int, BaseType, Generic[T]):
         if self._value is None and not issubclass(self.type, Void):
             # Read current position of file read/write pointer
             position = self._stream.tell()
-            # Reposition the file read/write pointer
-            self._stream.seek(self)
 
-            if issubclass(self.type, Char):
-                # this makes the assumption that a char pointer is a null-terminated string
-                value = self.type._read_0(self._stream, self._context)
-            else:
-                value = self.type._read(self._stream, self._context)
+            try:
+                # Reposition the file read/write pointer
+                self._stream.seek(self)
+
+                if issubclass(self.type, Char):
+                    # this makes the assumption that a char pointer is a null-terminated string
+                    value = self.type._read_0(self._stream, self._context)
+                else:
+                    value = self.type._read(self._stream, self._context)
+            finally:
+                self._stream.seek(position)
 
-            self._stream.seek(position)
             self._value = value
 
         return self._value
-- 
2.43.0


From 1225f505767d1cfd89bfc40989c94633701b7ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 17/52] fix: never compare an enum member equal to a flag
 member

---
 dissect/cstruct/types/enum.py | 2 +-
 dissect/cstruct/types/flag.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index 5b83056..aadc4fa 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -183,7 +183,7 @@ class Enum(BaseType, IntEnum, metaclass=EnumMetaType):
             return f"{base}{value}"
 
     def __eq__(self, other: int | Enum) -> bool:
-        if isinstance(other, Enum) and other.__class__ is not self.__class__:
+        if isinstance(other.__class__, EnumMetaType) and other.__class__ is not self.__class__:
             return False
 
         # Python <= 3.10 compatibility
diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index 6740591..328a2cf 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -56,7 +56,7 @@ class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
             return result
 
     def __eq__(self, other: int | Flag) -> bool:
-        if isinstance(other, Flag) and other.__class__ is not self.__class__:
+        if isinstance(other.__class__, EnumMetaType) and other.__class__ is not self.__class__:
             return False
 
         # Python <= 3.10 compatibility
-- 
2.43.0


From 69e330dde8878539265ea3cbb8386c2c84785a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 18/52] fix: hash enum and flag members consistently with
 equality

---
 dissect/cstruct/types/enum.py | 15 +++++++--------
 dissect/cstruct/types/flag.py |  3 ++-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index aadc4fa..05d51d2 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -14,7 +14,6 @@ if TYPE_CHECKING:
 
 
 PY_311 = sys.version_info >= (3, 11, 0)
-PY_312 = sys.version_info >= (3, 12, 0)
 
 _S = TypeVar("_S")
 
@@ -76,12 +75,11 @@ class EnumMetaType(EnumMeta, MetaType):
 
     __len__ = MetaType.__len__
 
-    if not PY_312:
-        # Backport __contains__ from CPython 3.12
-        def __contains__(cls, value: Any) -> bool:
-            if isinstance(value, cls):
-                return True
-            return value in cls._value2member_map_
+    def __contains__(cls, value: Any) -> bool:
+        # Based on __contains__ from CPython 3.12, but members of another enum are never considered equal
+        if isinstance(value.__class__, EnumMetaType):
+            return isinstance(value, cls)
+        return value in cls._value2member_map_
 
     def _read(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> Self:
         return cls(cls.type._read(stream, context))
@@ -196,7 +194,8 @@ class Enum(BaseType, IntEnum, metaclass=EnumMetaType):
         return not self.__eq__(value)
 
     def __hash__(self) -> int:
-        return hash((self.__class__, self.name, self.value))
+        # Must be consistent with equality, e.g. members that share a value or the integer value itself
+        return hash(self.value)
 
     @classmethod
     def _missing_(cls, value: int) -> Self:
diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index 328a2cf..4713647 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -69,4 +69,5 @@ class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
         return not self.__eq__(value)
 
     def __hash__(self) -> int:
-        return hash((self.__class__, self.name, self.value))
+        # Must be consistent with equality, e.g. members that share a value or the integer value itself
+        return hash(self.value)
-- 
2.43.0


From 86867bacc87c8b69cd40da0935e2db0e28a977a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 19/52] fix: keep negative values of flags with a signed type

---
 dissect/cstruct/types/flag.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index 4713647..724d5a8 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -1,9 +1,20 @@
 from __future__ import annotations
 
 from enum import IntFlag
+from typing import TYPE_CHECKING
 
 from dissect.cstruct.types.base import BaseType
 from dissect.cstruct.types.enum import PY_311, EnumMetaType
+from dissect.cstruct.types.packed import Packed
+
+if TYPE_CHECKING:
+    from typing_extensions import Self
+
+
+def _is_signed(type_: type[BaseType]) -> bool:
+    if issubclass(type_, Packed):
+        return type_.packchar.islower()
+    return getattr(type_, "signed", False)
 
 
 class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
@@ -55,6 +66,17 @@ class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
                 result = result[1:]
             return result
 
+    @classmethod
+    def _missing_(cls, value: int) -> Self:
+        if value < 0 and _is_signed(cls.type):
+            # IntFlag would turn this into a positive value, but it's the actual value for signed types
+            new_member = int.__new__(cls, value)
+            new_member._name_ = None
+            new_member._value_ = value
+            return new_member
+
+        return super()._missing_(value)
+
     def __eq__(self, other: int | Flag) -> bool:
         if isinstance(other.__class__, EnumMetaType) and other.__class__ is not self.__class__:
             return False
-- 
2.43.0


From efb0de1daf99752bf0673d6a0e35403330fbbc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 20/52] fix: never share mutable default values between
 structure instances

---
 dissect/cstruct/types/base.py      |  5 ++---
 dissect/cstruct/types/structure.py | 15 +++++++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 9f79563..51a8fbb 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -243,9 +243,8 @@ class BaseArray(BaseType):
 
     @classmethod
     def __default__(cls) -> BaseType:
-        return type.__call__(
-            cls, [cls.type.__default__()] * (cls.num_entries if isinstance(cls.num_entries, int) else 0)
-        )
+        num_entries = cls.num_entries if isinstance(cls.num_entries, int) else 0
+        return type.__call__(cls, [cls.type.__default__() for _ in range(num_entries)])
 
     @classmethod
     def _read(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> list[BaseType]:
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 18f935b..11a34d4 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -85,13 +85,20 @@ class StructureMetaType(MetaType):
         ):
             # Shortcut for single char/bytes type
             return type.__call__(cls, *args, **kwargs)
-        if not args and not kwargs:
-            obj = type.__call__(cls)
+
+        obj = super().__call__(*args, **kwargs)
+
+        if kwargs or not (len(args) == 1 and (_is_readable_type(args[0]) or _is_buffer_type(args[0]))):
+            # We're initialized with values, so give every instance its own copy of any mutable default value
+            given = dict(zip((field._name for field in cls.__fields__), args), **kwargs)
+            for name, field in cls.lookup.items():
+                if issubclass(field.type, (list, Structure)) and given.get(name) is None:
+                    object.__setattr__(obj, name, field.__default__())
+
             object.__setattr__(obj, "_values", {})
             object.__setattr__(obj, "_sizes", {})
-            return obj
 
-        return super().__call__(*args, **kwargs)
+        return obj
 
     def _update_fields(
         cls, fields: list[Field], align: bool = False, classdict: dict[str, Any] | None = None
-- 
2.43.0


From f9514ab5d2b4e780db9874533bf2cfb7766db802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 21/52] fix: construct structures from a single value like from
 any other

---
 dissect/cstruct/types/base.py      |  2 +-
 dissect/cstruct/types/structure.py | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 51a8fbb..184b54c 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -35,7 +35,7 @@ class MetaType(type):
     def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
         """Adds support for ``TypeClass(bytes | file-like object)`` parsing syntax."""
         # TODO: add support for Type(cs) API to create new bounded type classes, similar to the old API?
-        if len(args) == 1 and not isinstance(args[0], cls):
+        if len(args) == 1 and not kwargs and not isinstance(args[0], cls):
             stream = args[0]
 
             if _is_readable_type(stream):
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 11a34d4..164e915 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -79,12 +79,18 @@ class StructureMetaType(MetaType):
         if (
             cls.__fields__
             and len(args) == len(cls.__fields__) == 1
+            and not kwargs
             and isinstance(args[0], bytes)
-            and issubclass(cls.__fields__[0].type, bytes)
-            and len(args[0]) == cls.__fields__[0].type.size
+            and issubclass((field := cls.__fields__[0]).type, bytes)
+            and len(args[0]) == field.type.size == cls.size
+            and not field.bits
+            and not issubclass(cls, Union)
         ):
             # Shortcut for single char/bytes type
-            return type.__call__(cls, *args, **kwargs)
+            obj = type.__call__(cls, field.type(args[0]))
+            object.__setattr__(obj, "_values", {field._name: getattr(obj, field._name)})
+            object.__setattr__(obj, "_sizes", {field._name: field.type.size})
+            return obj
 
         obj = super().__call__(*args, **kwargs)
 
-- 
2.43.0


From ae9557d6249a11eaa3d3f9f6f956b324a9b5a352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 22/52] fix: terminate arrays of structures on any zero value

---
 dissect/cstruct/types/structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 164e915..9538e29 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -315,8 +315,10 @@ class StructureMetaType(MetaType):
 
     def _read_0(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> list[Self]:  # type: ignore
         result = []
+        default = cls.__default__()
 
-        while obj := cls._read(stream, context):
+        # Not every member is falsy when it's zero (e.g. characters and arrays), so compare with the default as well
+        while (obj := cls._read(stream, context)) and obj != default:
             result.append(obj)
 
         return result
-- 
2.43.0


From 19d41b7018d3d2d384a76fcd3016e7b2d704ca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:45 +0000
Subject: [PATCH 23/52] fix: keep union members, nested structures and padding
 coherent with the buffer

---
 dissect/cstruct/types/structure.py | 114 +++++++++++++++++++----------
 1 file changed, 74 insertions(+), 40 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 9538e29..42dd1ee 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -446,6 +446,7 @@ class UnionMetaType(StructureMetaType):
 
             # User (partial) initialization, rebuild the union
             # First user-provided field is the one used to rebuild the union
+            object.__setattr__(obj, "_buf", b"\x00" * cls.size)
             arg_fields = (field._name for _, field in zip(args, cls.__fields__))
             kwarg_fields = (name for name in kwargs if name in cls.lookup)
             if (first_field := next(chain(arg_fields, kwarg_fields), None)) is not None:
@@ -455,6 +456,12 @@ class UnionMetaType(StructureMetaType):
             # Note that we proxify here in case we have a default initialization (cls())
             # We don't proxify in case we read from a stream, as we do that later on in _read at a more appropriate time
             # Same with (partial) user initialization, we do that after rebuilding the union
+            if cls.dynamic:
+                object.__setattr__(obj, "_values", {name: getattr(obj, name) for name in cls.lookup})
+            else:
+                object.__setattr__(obj, "_buf", b"\x00" * cls.size)
+                obj._update()
+
             obj._proxify()
 
         return obj
@@ -542,33 +549,32 @@ class UnionMetaType(StructureMetaType):
         if cls.dynamic:
             raise NotImplementedError("Writing dynamic unions is not yet supported")
 
-        offset = stream.tell()
-        expected_offset = offset + len(cls)
+        def _dump(field: Field, value: Any) -> bytes:
+            out = io.BytesIO()
+            cls.cs.resolve(field.type)._write(out, value)
+            return out.getvalue()
 
-        # Sort by largest field
-        fields = sorted(cls.__fields__, key=lambda e: e.type.size or 0, reverse=True)
-        anonymous_struct = False
+        buf = bytearray(cls.size)
+        modified = []
 
-        # Try to write by largest field
-        for field in fields:
-            if isinstance(field.type, StructureMetaType) and field.name is None:
-                # Prefer to write regular fields initially
-                anonymous_struct = field.type
-                continue
+        # Combine the bytes of all members, so that only padding that is shared by all of them is zeroed out
+        original, _ = cls._read_fields(io.BytesIO(getattr(data, "_buf", buf)))
+        for field in cls.__fields__:
+            offset = field.offset or 0
 
-            # Write the value
-            field.type._write(stream, getattr(data, field._name))
-            break
+            value = _dump(field, original[field._name])
+            for i, byte in enumerate(value, offset):
+                buf[i] |= byte
 
-        # If we haven't written anything yet and we initially skipped an anonymous struct, write it now
-        if stream.tell() == offset and anonymous_struct:
-            anonymous_struct._write(stream, data)
+            # Values that can be modified without us knowing (e.g. arrays) can differ from the buffer
+            if (cur_value := _dump(field, getattr(data, field._name))) != value:
+                modified.append((offset, cur_value))
 
-        # If we haven't filled the union size yet, pad it
-        if remaining := expected_offset - stream.tell():
-            stream.write(b"\x00" * remaining)
+        # Prefer the largest value that was modified
+        for offset, value in sorted(modified, key=lambda e: len(e[1])):
+            buf[offset : offset + len(value)] = value
 
-        return stream.tell() - offset
+        return stream.write(buf)
 
 
 class Union(Structure, metaclass=UnionMetaType):
@@ -584,13 +590,12 @@ class Union(Structure, metaclass=UnionMetaType):
             raise NotImplementedError("Modifying a dynamic union is not yet supported")
 
         super().__setattr__(attr, value)
-        self._rebuild(attr)
+        # Fields of anonymous members are assigned through the proxy of that member
+        if attr in self.__class__.lookup:
+            self._rebuild(attr)
 
     def _rebuild(self, attr: str) -> None:
-        if (cur_buf := getattr(self, "_buf", None)) is None:
-            cur_buf = b"\x00" * self.__class__.size
-
-        buf = io.BytesIO(cur_buf)
+        buf = io.BytesIO(self._buf)
         field = self.__class__.lookup[attr]
         if field.offset:
             buf.seek(field.offset)
@@ -613,26 +618,49 @@ class Union(Structure, metaclass=UnionMetaType):
         object.__setattr__(self, "_sizes", sizes)
 
     def _proxify(self) -> None:
-        def _proxy_structure(value: Structure) -> None:
-            for field in value.__class__.__fields__:
-                if issubclass(field.type, Structure):
-                    nested_value = getattr(value, field._name)
-                    proxy = UnionProxy(self, field._name, nested_value)
-                    object.__setattr__(value, field._name, proxy)
-                    _proxy_structure(nested_value)
-
-        _proxy_structure(self)
+        for field in self.__class__.__fields__:
+            if issubclass(field.type, Structure):
+                object.__setattr__(self, field._name, UnionProxy(self, field._name))
 
 
 class UnionProxy:
+    """Proxy for a structure in a union, which updates the union when one of its fields is assigned.
+
+    Args:
+        union: The union the structure is a part of.
+        attr: The name of the field in the union.
+        names: The names of the nested fields to get from that field in the union to the structure.
+    """
+
     __union__: Union
     __attr__: str
-    __target__: Structure
+    __names__: tuple[str, ...]
 
-    def __init__(self, union: Union, attr: str, target: Structure):
+    def __init__(self, union: Union, attr: str, names: tuple[str, ...] = ()):
         object.__setattr__(self, "__union__", union)
         object.__setattr__(self, "__attr__", attr)
-        object.__setattr__(self, "__target__", target)
+        object.__setattr__(self, "__names__", names)
+
+    @property
+    def __target__(self) -> Structure:
+        # The union replaces its values on every update, so always look up the current one
+        target = self.__union__._values[self.__attr__]
+        for name in self.__names__:
+            target = getattr(target, name)
+        return target
+
+    @property
+    def __class__(self) -> type[Structure]:
+        return self.__target__.__class__
+
+    def __eq__(self, other: object) -> bool:
+        return self.__target__ == other
+
+    def __hash__(self) -> int:
+        return hash(self.__target__)
+
+    def __bool__(self) -> bool:
+        return bool(self.__target__)
 
     def __len__(self) -> int:
         return len(self.__target__.dumps())
@@ -641,15 +669,21 @@ class UnionProxy:
         return self.__target__.dumps()
 
     def __getitem__(self, item: str) -> Any:
-        return getattr(self.__target__, item)
+        return getattr(self, item)
 
     def __repr__(self) -> str:
         return repr(self.__target__)
 
     def __getattr__(self, attr: str) -> Any:
-        return getattr(self.__target__, attr)
+        value = getattr(self.__target__, attr)
+        if isinstance(value, Structure):
+            return UnionProxy(self.__union__, self.__attr__, (*self.__names__, attr))
+        return value
 
     def __setattr__(self, attr: str, value: Any) -> None:
+        if self.__union__.__class__.dynamic:
+            raise NotImplementedError("Modifying a dynamic union is not yet supported")
+
         setattr(self.__target__, attr, value)
         self.__union__._rebuild(self.__attr__)
 
-- 
2.43.0


From 43e848edd91e36c72bb232341bfe1a9b093f1916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 24/52] fix: dereference pointers in unions in the stream the
 union was read from

---
 dissect/cstruct/types/pointer.py   | 11 ++++++++++-
 dissect/cstruct/types/structure.py |  8 +++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/types/pointer.py b/dissect/cstruct/types/pointer.py
index 91a5b68..f125d97 100644
--- a/dissect/cstruct/types/pointer.py
+++ b/dissect/cstruct/types/pointer.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from io import BytesIO
 from typing import TYPE_CHECKING, Any, BinaryIO, Generic, TypeVar
 
 from dissect.cstruct.exceptions import NullPointerDereference
@@ -13,6 +14,14 @@ if TYPE_CHECKING:
 T = TypeVar("T", bound=BaseType)
 
 
+class BufferedStream(BytesIO):
+    """A piece of another stream, which remembers the stream that pointers in it refer to."""
+
+    def __init__(self, buf: bytes, stream: BinaryIO | None):
+        super().__init__(buf)
+        self.stream = stream.stream if isinstance(stream, BufferedStream) else stream
+
+
 class Pointer(int, BaseType, Generic[T]):
     """Pointer to some other type."""
 
@@ -23,7 +32,7 @@ class Pointer(int, BaseType, Generic[T]):
 
     def __new__(cls, value: int, stream: BinaryIO | None, context: dict[str, Any] | None = None) -> Self:
         obj = super().__new__(cls, value)
-        obj._stream = stream
+        obj._stream = stream.stream if isinstance(stream, BufferedStream) else stream
         obj._context = context
         obj._value = None
         return obj
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 42dd1ee..4c28b7e 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -18,7 +18,7 @@ from dissect.cstruct.types.base import (
     _is_readable_type,
 )
 from dissect.cstruct.types.enum import EnumMetaType
-from dissect.cstruct.types.pointer import Pointer
+from dissect.cstruct.types.pointer import BufferedStream, Pointer
 
 if TYPE_CHECKING:
     from collections.abc import Iterator
@@ -498,7 +498,7 @@ class UnionMetaType(StructureMetaType):
             buf = stream
         else:
             offset = 0
-            buf = io.BytesIO(stream.read(cls.size))
+            buf = BufferedStream(stream.read(cls.size), stream)
 
         for field in cls.__fields__:
             field_type = cls.cs.resolve(field.type)
@@ -536,6 +536,7 @@ class UnionMetaType(StructureMetaType):
         object.__setattr__(obj, "_values", result)
         object.__setattr__(obj, "_sizes", sizes)
         object.__setattr__(obj, "_buf", buf)
+        object.__setattr__(obj, "_stream", stream)
 
         if cls.size is not None:
             obj._update()
@@ -581,6 +582,7 @@ class Union(Structure, metaclass=UnionMetaType):
     """Base class for cstruct union type classes."""
 
     _buf: bytes
+    _stream: BinaryIO | None = None
 
     def __eq__(self, other: object) -> bool:
         return self.__class__ is other.__class__ and bytes(self) == bytes(other)
@@ -612,7 +614,7 @@ class Union(Structure, metaclass=UnionMetaType):
         self._proxify()
 
     def _update(self) -> None:
-        result, sizes = self.__class__._read_fields(io.BytesIO(self._buf))
+        result, sizes = self.__class__._read_fields(BufferedStream(self._buf, self._stream))
         self.__dict__.update(result)
         object.__setattr__(self, "_values", result)
         object.__setattr__(self, "_sizes", sizes)
-- 
2.43.0


From 9b35e2ef9f2f054965a7b5fd8404b290ef31b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 25/52] fix: leave a structure usable after adding an invalid
 field

---
 dissect/cstruct/types/structure.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 4c28b7e..88de466 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -386,7 +386,12 @@ class StructureMetaType(MetaType):
         cls.__fields__.append(field)
 
         if not cls.__updating__:
-            cls.commit()
+            try:
+                cls.commit()
+            except Exception:
+                # Don't keep a field that can't be part of this structure
+                cls.__fields__.pop()
+                raise
 
     @contextmanager
     def start_update(cls) -> Iterator[None]:
@@ -394,8 +399,8 @@ class StructureMetaType(MetaType):
             cls.__updating__ = True
             yield
         finally:
-            cls.commit()
             cls.__updating__ = False
+            cls.commit()
 
     def commit(cls) -> None:
         classdict = cls._update_fields(cls.__fields__, cls.__align__)
-- 
2.43.0


From 85257d25b1b51fe2227efee3c9b0ce0f0b5c9dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:07 +0000
Subject: [PATCH 26/52] fix: don't mistake bit fields named enum or flag for an
 enum definition

---
 dissect/cstruct/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 6de850e..426b3bb 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -59,7 +59,7 @@ class TokenParser(Parser):
         TOK.add(r"(?:struct|union)(?=\s|{)", "STRUCT")
         TOK.add(
             r"(?P<enumtype>enum|flag)\s+(?P<name>[^\s:{]+)?\s*(:\s"
-            r"*(?P<type>[^{]+?)\s*)?\{(?P<values>[^}]+)\}\s*(?=;)",
+            r"*(?P<type>[^{;]+?)\s*)?\{(?P<values>[^}]+)\}\s*(?=;)",
             "ENUM",
         )
         TOK.add(r"(?<=})\s*(?P<defs>(?:[a-zA-Z0-9_]+\s*,\s*)+[a-zA-Z0-9_]+)\s*(?=;)", "DEFS")
-- 
2.43.0


From 642e5b5c86d49b06b7f27ca833e659d668c39358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:35 +0000
Subject: [PATCH 27/52] fix: let comments separate tokens and strip line
 comments with any line ending

---
 dissect/cstruct/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 426b3bb..4308749 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -327,7 +327,7 @@ class TokenParser(Parser):
     @staticmethod
     def _remove_comments(string: str) -> str:
         # https://stackoverflow.com/a/18381470
-        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|//[^\r\n]*$)"
+        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|//[^\r\n]*)"
         # first group captures quoted strings (double or single)
         # second group captures comments (//single-line or /* multi-line */)
         regex = re.compile(pattern, re.MULTILINE | re.DOTALL)
@@ -336,7 +336,8 @@ class TokenParser(Parser):
             # if the 2nd group (capturing comments) is not None,
             # it means we have captured a non-quoted (real) comment string.
             if comment := match.group(2):
-                return "\n" * comment.count("\n")  # so we will return empty to remove the comment
+                # so we will only return its newlines to remove the comment, or a space because it separates tokens
+                return "\n" * comment.count("\n") or " "
             # otherwise, we will return the 1st group
             return match.group(1)  # captured quoted-string
 
-- 
2.43.0


From 7a7e9dd09d224032a5d9acd8fd1483fec37075d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:42 +0000
Subject: [PATCH 28/52] fix: allow newlines in expressions of enum members

---
 dissect/cstruct/parser.py | 48 ++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 4308749..b04647b 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -112,23 +112,22 @@ class TokenParser(Parser):
             nextval = 1
 
         values = {}
-        for line in d["values"].splitlines():
-            for v in line.split(","):
-                key, _, val = v.partition("=")
-                key = key.strip()
-                val = val.strip()
-                if not key:
-                    continue
-
-                val = nextval if not val else Expression(self.cstruct, val).evaluate(values)
-
-                if enumtype == "flag":
-                    high_bit = val.bit_length() - 1
-                    nextval = 2 ** (high_bit + 1)
-                else:
-                    nextval = val + 1
+        for v in self._enum_members(d["values"]):
+            key, _, val = v.partition("=")
+            key = key.strip()
+            val = val.strip()
+            if not key:
+                continue
+
+            val = nextval if not val else Expression(self.cstruct, val).evaluate(values)
+
+            if enumtype == "flag":
+                high_bit = val.bit_length() - 1
+                nextval = 2 ** (high_bit + 1)
+            else:
+                nextval = val + 1
 
-                values[key] = val
+            values[key] = val
 
         if not d["type"]:
             d["type"] = "uint32"
@@ -143,6 +142,23 @@ class TokenParser(Parser):
 
         tokens.eol()
 
+    @staticmethod
+    def _enum_members(values: str) -> list[str]:
+        """Split enum values on commas and newlines, unless the newline is in the middle of an expression."""
+        members = []
+        for value in values.split(","):
+            member = ""
+            for line in map(str.strip, value.splitlines()):
+                is_complete = not member.endswith(tuple("=+-*/%<>&^|~(")) and member.count("(") == member.count(")")
+                if member and line and is_complete and line[0] not in "=+-*/%<>&^|()":
+                    members.append(member)
+                    member = ""
+
+                member = f"{member} {line}".strip()
+            members.append(member)
+
+        return members
+
     def _typedef(self, tokens: TokenConsumer) -> None:
         tokens.consume()
         type_ = None
-- 
2.43.0


From 8f424814c176ca71a190b45494c7a2a88169222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 29/52] fix: allow whitespace around pointers and array
 brackets in definitions

---
 dissect/cstruct/expression.py | 2 +-
 dissect/cstruct/parser.py     | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index 29e01c7..81be1e3 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -141,7 +141,7 @@ class ExpressionTokenizer:
                 self.tokens.append(">>")
             elif self.match(expected="<", append=False) and self.match(expected="<", append=False):
                 self.tokens.append("<<")
-            elif self.match(expected={" ", "\t"}, append=False):
+            elif self.match(expected={" ", "\t", "\r", "\n"}, append=False):
                 continue
             else:
                 raise ExpressionTokenizerError(
diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index b04647b..6857487 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -63,7 +63,9 @@ class TokenParser(Parser):
             "ENUM",
         )
         TOK.add(r"(?<=})\s*(?P<defs>(?:[a-zA-Z0-9_]+\s*,\s*)+[a-zA-Z0-9_]+)\s*(?=;)", "DEFS")
-        TOK.add(r"(?P<name>\**?\s*[a-zA-Z0-9_]+)(?:\s*:\s*(?P<bits>\d+))?(?:\[(?P<count>[^;\n]*)\])?\s*(?=;)", "NAME")
+        TOK.add(
+            r"(?P<name>(?:\*\s*)*[a-zA-Z0-9_]+)(?:\s*:\s*(?P<bits>\d+))?(?:\s*\[(?P<count>[^;]*)\])?\s*(?=;)", "NAME"
+        )
         TOK.add(r"[a-zA-Z_][a-zA-Z0-9_]*", "IDENTIFIER")
         TOK.add(r"[{}]", "BLOCK")
         TOK.add(r"\$(?P<name>[^\s]+) = (?P<value>{[^}]+})\w*[\r\n]+", "LOOKUP")
@@ -298,14 +300,15 @@ class TokenParser(Parser):
         count_expression = d["count"]
 
         while name.startswith("*"):
-            name = name[1:]
+            name = name[1:].lstrip()
             type_ = self.cstruct._make_pointer(type_)
 
         if count_expression is not None:
             # Poor mans multi-dimensional array by abusing the eager regex match of count
-            counts = count_expression.split("][") if "][" in count_expression else [count_expression]
+            counts = re.split(r"\]\s*\[", count_expression)
 
             for count in reversed(counts):
+                count = count.strip()
                 if count == "":
                     count = None
                 else:
-- 
2.43.0


From e11132f1d3bc969448a2e8e89d4c463c0d537567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 30/52] fix: let fields take precedence over constants in array
 counts

---
 dissect/cstruct/parser.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 6857487..6b35a0e 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -225,7 +225,7 @@ class TokenParser(Parser):
                 tokens.consume()
                 break
 
-            field = self._parse_field(tokens)
+            field = self._parse_field(tokens, fields)
             fields.append(field)
 
         if register:
@@ -272,7 +272,7 @@ class TokenParser(Parser):
         d = ast.literal_eval(m.group(2))
         self.cstruct.lookups[m.group(1)] = {self.cstruct.consts[k]: v for k, v in d.items()}
 
-    def _parse_field(self, tokens: TokenConsumer) -> Field:
+    def _parse_field(self, tokens: TokenConsumer, fields: list[Field]) -> Field:
         type_ = None
         if tokens.next == self.TOK.IDENTIFIER:
             type_ = self.cstruct.resolve(self._identifier(tokens))
@@ -286,12 +286,14 @@ class TokenParser(Parser):
             raise ParserError(f"line {self._lineno(tokens.next)}: expected name")
         nametok = tokens.consume()
 
-        type_, name, bits = self._parse_field_type(type_, nametok.value)
+        type_, name, bits = self._parse_field_type(type_, nametok.value, fields)
 
         tokens.eol()
         return Field(name.strip(), type_, bits)
 
-    def _parse_field_type(self, type_: type[BaseType], name: str) -> tuple[type[BaseType], str, int | None]:
+    def _parse_field_type(
+        self, type_: type[BaseType], name: str, fields: list[Field] | None = None
+    ) -> tuple[type[BaseType], str, int | None]:
         pattern = self.TOK.patterns[self.TOK.NAME]
         # Dirty trick because the regex expects a ; but we don't want it to be part of the value
         d = pattern.match(name + ";").groupdict()
@@ -306,6 +308,8 @@ class TokenParser(Parser):
         if count_expression is not None:
             # Poor mans multi-dimensional array by abusing the eager regex match of count
             counts = re.split(r"\]\s*\[", count_expression)
+            # The fields before this one take precedence over constants, so those can only be evaluated while reading
+            field_names = {field._name for field in fields or ()}
 
             for count in reversed(counts):
                 count = count.strip()
@@ -313,10 +317,11 @@ class TokenParser(Parser):
                     count = None
                 else:
                     count = Expression(self.cstruct, count)
-                    try:
-                        count = count.evaluate()
-                    except Exception:
-                        pass
+                    if not field_names.intersection(count.tokens):
+                        try:
+                            count = count.evaluate()
+                        except Exception:
+                            pass
 
                 if issubclass(type_, BaseArray) and count is None:
                     raise ParserError("Depth required for multi-dimensional array")
-- 
2.43.0


From 88726ba355e9fcd95fed847d6484f442f4786af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 31/52] fix: evaluate enum expressions over earlier members in
 the legacy parser too

---
 dissect/cstruct/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 6b35a0e..ad43a13 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -459,7 +459,7 @@ class CStyleParser(Parser):
                     if not key:
                         continue
 
-                    val = nextval if not val else Expression(self.cstruct, val).evaluate()
+                    val = nextval if not val else Expression(self.cstruct, val).evaluate(values)
 
                     if enumtype == "flag":
                         high_bit = val.bit_length() - 1
-- 
2.43.0


From fc0c9836d132b5e3c2fd7cbe29ab0edbddebefee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 32/52] fix: pack negative values and unpack sizes that are not
 whole bytes

---
 dissect/cstruct/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/utils.py b/dissect/cstruct/utils.py
index 0345598..ab7955d 100644
--- a/dissect/cstruct/utils.py
+++ b/dissect/cstruct/utils.py
@@ -224,7 +224,9 @@ def pack(value: int, size: int | None = None, endian: str = "little") -> bytes:
         size: Integer size in bits.
         endian: Endianness to use (little, big, network, <, > or !)
     """
-    size = ((size or value.bit_length()) + 7) // 8
+    # Negative values need an additional bit for the sign
+    size = size or (value.bit_length() if value >= 0 else (~value).bit_length() + 1)
+    size = (size + 7) // 8
     return value.to_bytes(size, ENDIANNESS_MAP.get(endian, endian), signed=value < 0)
 
 
@@ -237,8 +239,8 @@ def unpack(value: bytes, size: int | None = None, endian: str = "little", sign:
         endian: Endianness to use (little, big, network, <, > or !)
         sign: Signedness of the integer.
     """
-    if size and len(value) != size // 8:
-        raise ValueError(f"Invalid byte value, expected {size // 8} bytes, got {len(value)} bytes")
+    if size and len(value) != (size_bytes := (size + 7) // 8):
+        raise ValueError(f"Invalid byte value, expected {size_bytes} bytes, got {len(value)} bytes")
     return int.from_bytes(value, ENDIANNESS_MAP.get(endian, endian), signed=sign)
 
 
-- 
2.43.0


From 07a294564d3282e74953904a2cc3e3b6add345bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 33/52] fix: dump structures with bit fields or that were not
 parsed

---
 dissect/cstruct/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/utils.py b/dissect/cstruct/utils.py
index ab7955d..e6da681 100644
--- a/dissect/cstruct/utils.py
+++ b/dissect/cstruct/utils.py
@@ -159,7 +159,8 @@ def _dumpstruct(
 
         if color:
             foreground, background = colors[ci % len(colors)]
-            palette.append((structure._sizes[field._name], background))
+            # Bit fields and structures that weren't parsed have no size
+            palette.append((structure._sizes.get(field._name, 0), background))
         ci += 1
 
         value = getattr(structure, field._name)
-- 
2.43.0


From 5f4b07a656a5d9d59fda2a7a563458da66a406f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 34/52] fix: support structure fields named self and cls

---
 dissect/cstruct/types/base.py      | 2 +-
 dissect/cstruct/types/structure.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 184b54c..b737c41 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -32,7 +32,7 @@ class MetaType(type):
     ArrayType: type[BaseArray] = "Array"
     """The array type for this type class."""
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         """Adds support for ``TypeClass(bytes | file-like object)`` parsing syntax."""
         # TODO: add support for Type(cs) API to create new bounded type classes, similar to the old API?
         if len(args) == 1 and not kwargs and not isinstance(args[0], cls):
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 88de466..480b579 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -75,7 +75,7 @@ class StructureMetaType(MetaType):
 
         return super().__new__(metacls, name, bases, classdict)
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         if (
             cls.__fields__
             and len(args) == len(cls.__fields__) == 1
@@ -440,7 +440,7 @@ class Structure(BaseType, metaclass=StructureMetaType):
 class UnionMetaType(StructureMetaType):
     """Base metaclass for cstruct union type classes."""
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         obj: Union = super().__call__(*args, **kwargs)
 
         # Calling with non-stream args or kwargs means we are initializing with values
@@ -853,7 +853,7 @@ def _generate_structure__init__(fields: list[Field]) -> FunctionType:
         template.__code__.replace(
             co_consts=(None, *[field.__default__() for field in fields]),
             co_names=(*field_names,),
-            co_varnames=("self", *field_names),
+            co_varnames=("self" if "self" not in field_names else "__self", *field_names),
         ),
         template.__globals__,
         argdefs=template.__defaults__,
@@ -875,7 +875,7 @@ def _generate_union__init__(fields: list[Field]) -> FunctionType:
                 None,
                 *sum([(field._name, field.type.__default__()) for field in fields], ()),
             ),
-            co_varnames=("self", *field_names),
+            co_varnames=("self" if "self" not in field_names else "__self", *field_names),
         ),
         template.__globals__,
         argdefs=template.__defaults__,
-- 
2.43.0


From b624b44809d377bcd1b383b411595d77c8d64dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 35/52] fix: generate valid stubs that declare all loaded
 definitions

---
 dissect/cstruct/tools/stubgen.py | 74 ++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 18 deletions(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index 8f30b6a..8477231 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import argparse
 import importlib
 import importlib.util
+import keyword
 import logging
 import textwrap
 from pathlib import Path
@@ -10,6 +11,7 @@ from typing import TYPE_CHECKING
 
 from dissect.cstruct import types
 from dissect.cstruct.cstruct import cstruct
+from dissect.cstruct.exceptions import ResolveError
 
 if TYPE_CHECKING:
     from types import ModuleType
@@ -64,6 +66,11 @@ def generate_file_stub(path: Path, base: Path) -> str:
     return "\n".join([*header, "", "\n".join(body)])
 
 
+def is_valid_name(name: str) -> bool:
+    """Return whether the given name can be declared in Python, e.g. a C name can be a Python keyword."""
+    return name.isidentifier() and not keyword.iskeyword(name)
+
+
 def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str = "cstruct") -> str:
     empty_cs = cstruct()
 
@@ -74,20 +81,43 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
 
     # Constants first
     for name, value in cs.consts.items():
-        if name in empty_cs.consts:
+        if name in empty_cs.consts or not is_valid_name(name):
             continue
+
+        if isinstance(value, (types.Enum, types.Flag)):
+            # Members of anonymous enums are constants too
+            value = value.value
+
         body.append(textwrap.indent(f"{name}: Literal[{value!r}] = ...", prefix=indent))
 
     defined_names = set()
 
     # Then typedefs
     for name, typedef in cs.typedefs.items():
-        if name in empty_cs.typedefs:
+        if name in empty_cs.typedefs or not is_valid_name(name):
+            continue
+
+        try:
+            typedef = cs.resolve(typedef)
+        except ResolveError:
+            # Reference to an unknown type, which the cstruct object doesn't provide
             continue
 
-        if typedef.__name__ in empty_cs.typedefs:
+        if issubclass(typedef, (types.BaseArray, types.Pointer)):
+            # These don't have a name of their own
+            inline_type = get_inline_type(cs, typedef)
+            if inline_type is not None and inline_type.__name__ not in defined_names:
+                inline_stub = generate_structure_stub(inline_type, cs_prefix=cs_prefix, module_prefix=module_prefix)
+                body.append(textwrap.indent(inline_stub, prefix=indent))
+                defined_names.add(inline_type.__name__)
+
+            type_hint = generate_typehint(typedef, "" if inline_type else cs_prefix, module_prefix)
+            stub = f"{name}: TypeAlias = {type_hint}"
+        elif typedef.__name__ in empty_cs.typedefs:
             stub = f"{name}: TypeAlias = {cs_prefix}{typedef.__name__}"
-        elif typedef.__name__ in defined_names:
+        elif typedef.__name__ in defined_names or (
+            typedef.__name__ != name and cs.typedefs.get(typedef.__name__) is typedef
+        ):
             # Create an alias to the type if we have already seen it before.
             stub = f"{name}: TypeAlias = {typedef.__name__}"
         elif issubclass(typedef, (types.Enum, types.Flag)):
@@ -96,8 +126,6 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
             stub = generate_structure_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
         elif issubclass(typedef, types.BaseType):
             stub = generate_generic_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
-        elif isinstance(typedef, str):
-            stub = f"{name}: TypeAlias = {typedef}"
         else:
             raise TypeError(f"Unknown typedef: {typedef}")
 
@@ -111,6 +139,17 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
     return "\n".join(header + body)
 
 
+def get_inline_type(cs: cstruct, type_: type[types.BaseType]) -> type[types.Structure] | None:
+    """Return the structure that the given type refers to, if it's not globally defined."""
+    while issubclass(type_, (types.BaseArray, types.Pointer)):
+        type_ = type_.type
+
+    if issubclass(type_, types.Structure) and cs.typedefs.get(type_.__name__) is not type_:
+        return type_
+
+    return None
+
+
 def generate_typehint(
     type_: type[types.BaseType],
     prefix: str = "",
@@ -143,7 +182,8 @@ def generate_enum_stub(
     module_prefix: str = "",
 ) -> str:
     result = [f"class {name_prefix}{enum.__name__}({module_prefix}{enum.__base__.__name__}):"]
-    result.extend(f"    {key} = ..." for key in enum.__members__)
+    members = [f"    {key} = ..." for key in enum.__members__ if is_valid_name(key)]
+    result.extend(members or ["    ..."])
     result.append("")
 
     return "\n".join(result)
@@ -159,23 +199,21 @@ def generate_structure_stub(
 
     indent = " " * 4
 
-    args = ["self"]
+    args = ["self" if "self" not in structure.fields else "__self"]
+    inlined = set()
     for field_name, field in structure.fields.items():
-        type_name = field.type.__name__
-        inlined = False
+        if not is_valid_name(field_name):
+            continue
 
         # If it's a structure and not globally defined, add an inline stub for it
-        nested_type = field.type
-        while issubclass(nested_type, types.BaseArray):
-            nested_type = nested_type.type
-
-        if issubclass(nested_type, types.Structure) and type_name not in structure.cs.typedefs:
-            inlined = True
-            inline_stub = generate_structure_stub(nested_type, cs_prefix=cs_prefix, module_prefix=module_prefix)
+        inline_type = get_inline_type(structure.cs, field.type)
+        if inline_type is not None and inline_type not in inlined:
+            inlined.add(inline_type)
+            inline_stub = generate_structure_stub(inline_type, cs_prefix=cs_prefix, module_prefix=module_prefix)
 
             result.append(textwrap.indent(inline_stub, prefix=indent))
 
-        type_hint = generate_typehint(field.type, "" if inlined else f"{cs_prefix}", module_prefix)
+        type_hint = generate_typehint(field.type, "" if inline_type else f"{cs_prefix}", module_prefix)
         result.append(f"    {field_name}: {type_hint}")
 
         args.append(f"{field_name}: {type_hint} | None = ...")
-- 
2.43.0


From 6f02438050848b9f783b32b850888a93e9d204e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 36/52] fix: don't name anonymous structures after a pointer or
 array typedef

---
 dissect/cstruct/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index ad43a13..1141910 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -176,7 +176,7 @@ class TokenParser(Parser):
 
         names.extend(self._names(tokens))
         for name in names:
-            if issubclass(type_, Structure) and type_.__anonymous__:
+            if issubclass(type_, Structure) and type_.__anonymous__ and name.isidentifier():
                 type_.__anonymous__ = False
                 type_.__name__ = name
                 type_.__qualname__ = name
-- 
2.43.0


From a6036553728d6e39d10cb0a23886772a2a0265fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:41 +0000
Subject: [PATCH 37/52] fix: unpack a single integer followed by a character in
 compiled readers

---
 dissect/cstruct/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 8ccfc2b..bd3d6a3 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -358,7 +358,7 @@ class _ReadSourceGenerator:
             size += field_type.size
 
         fmt = _optimize_struct_fmt(info)
-        if fmt == "x" or (len(fmt) == 2 and fmt[1] == "x"):
+        if fmt == "x" or (len(fmt) == 2 and fmt[0].isdigit() and fmt[1] == "x"):
             unpack = ""
         else:
             unpack = f'data = _struct(cls.cs.endian, "{fmt}").unpack(buf)\n'
-- 
2.43.0


From db8cd737735b2d795d4a55925cc8ac50a5192999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:18 +0000
Subject: [PATCH 38/52] fix: accept unknown values of flags with duplicate
 members

---
 dissect/cstruct/types/enum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index 05d51d2..343fd1e 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -111,8 +111,8 @@ def _fix_alias_members(cls: type[Enum]) -> None:
     for name, member in cls._member_map_.items():
         if name != member.name:
             new_member = int.__new__(cls, member.value)
+            new_member.__dict__.update(member.__dict__)
             new_member._name_ = name
-            new_member._value_ = member.value
 
             type.__setattr__(cls, name, new_member)
             cls._member_names_.append(name)
-- 
2.43.0


From 70953349748466815cebbd71ffffd544e644ced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:20 +0000
Subject: [PATCH 39/52] fix: unpack empty arrays next to a character in
 compiled readers

---
 dissect/cstruct/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index bd3d6a3..c1876ac 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -358,7 +358,7 @@ class _ReadSourceGenerator:
             size += field_type.size
 
         fmt = _optimize_struct_fmt(info)
-        if fmt == "x" or (len(fmt) == 2 and fmt[0].isdigit() and fmt[1] == "x"):
+        if (fmt == "x" or (len(fmt) == 2 and fmt[1] == "x")) and all(char == "x" for _, _, char in info):
             unpack = ""
         else:
             unpack = f'data = _struct(cls.cs.endian, "{fmt}").unpack(buf)\n'
-- 
2.43.0


From 29729653a99e0e88dd47b975b8acfb3c2e6a1acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:10 +0000
Subject: [PATCH 40/52] fix: read arrays of custom types in compiled readers

---
 dissect/cstruct/compiler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index c1876ac..597a1fe 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -202,9 +202,11 @@ class _ReadSourceGenerator:
                 yield from self._generate_structure(field)
                 advance(size)
 
-            # Array of structures and multi-dimensional arrays
+            # Array of structures, custom types and multi-dimensional arrays
             elif issubclass(field_type, (Array, CharArray, WcharArray)) and (
-                issubclass(field_type.type, Structure) or issubclass(field_type.type, BaseArray) or is_dynamic
+                issubclass(field_type.type, (Structure, BaseArray))
+                or not issubclass(field_type.type, SUPPORTED_TYPES)
+                or is_dynamic
             ):
                 yield from flush()
                 yield from align_to_field(field)
-- 
2.43.0


From b40e6a5d604ea87a0de8d511a1263cb792070d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 41/52] fix: take whole entries only when reading any array
 until EOF

---
 dissect/cstruct/types/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index b737c41..d431242 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -146,7 +146,13 @@ class MetaType(type):
         if count == EOF:
             result = []
             while not _is_eof(stream):
-                result.append(cls._read(stream, context))
+                offset = stream.tell()
+                try:
+                    result.append(cls._read(stream, context))
+                except EOFError:
+                    # Only take whole entries, leave a partial entry at the end of the stream unread
+                    stream.seek(offset)
+                    break
             return result
 
         return [cls._read(stream, context) for _ in range(count)]
-- 
2.43.0


From fe0b75e292a60e531d61df749bc45230c5474066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:45 +0000
Subject: [PATCH 42/52] fix: raise EOFError when the input of a union is too
 short

---
 dissect/cstruct/types/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 480b579..57c9eb8 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -531,6 +531,8 @@ class UnionMetaType(StructureMetaType):
             result = {}
             sizes = {}
             buf = stream.read(cls.size)
+            if len(buf) != cls.size:
+                raise EOFError(f"Read {len(buf)} bytes, but expected {cls.size}")
 
         # Create the object and set the values
         # Using type.__call__ directly calls the __init__ method of the class
-- 
2.43.0


From 3d8be465e6bb5f290a5e5a1bfe10676c5cf79a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:48 +0000
Subject: [PATCH 43/52] fix: record sizes of dynamic union fields independent
 of the stream position

---
 dissect/cstruct/types/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 57c9eb8..0bb0414 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -515,7 +515,7 @@ class UnionMetaType(StructureMetaType):
             buf.seek(offset + start)
             value = field_type._read(buf, result)
 
-            sizes[field._name] = buf.tell() - start
+            sizes[field._name] = buf.tell() - offset - start
             result[field._name] = value
 
         return result, sizes
-- 
2.43.0


From 1d9816cfd8406ef79054dd9c6c91a6298f861b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:06 +0000
Subject: [PATCH 44/52] fix: let dynamic unions extend to the end of their
 largest field

---
 dissect/cstruct/types/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 0bb0414..a98dfff 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -524,7 +524,8 @@ class UnionMetaType(StructureMetaType):
         if cls.size is None:
             start = stream.tell()
             result, sizes = cls._read_fields(stream, context)
-            size = stream.tell() - start
+            # The union extends to the end of its largest field, which isn't necessarily the last one
+            size = max(sizes.values(), default=0)
             stream.seek(start)
             buf = stream.read(size)
         else:
-- 
2.43.0


From a6825fa1a9a65849647480b70cacbec00881c4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:39 +0000
Subject: [PATCH 45/52] fix: keep the name and value of members when a
 duplicate member is named like those

---
 dissect/cstruct/types/enum.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index 343fd1e..fd3aa36 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import sys
 from enum import Enum as _Enum
 from enum import EnumMeta, IntEnum, IntFlag
+from types import DynamicClassAttribute
 from typing import TYPE_CHECKING, Any, BinaryIO, TypeVar, overload
 
 from dissect.cstruct.types.base import Array, BaseType, MetaType
@@ -114,7 +115,12 @@ def _fix_alias_members(cls: type[Enum]) -> None:
             new_member.__dict__.update(member.__dict__)
             new_member._name_ = name
 
-            type.__setattr__(cls, name, new_member)
+            if not any(isinstance(base.__dict__.get(name), DynamicClassAttribute) for base in cls.__mro__):
+                type.__setattr__(cls, name, new_member)
+            elif name in cls.__dict__:
+                # Keep properties of members (e.g. name and value), those only redirect to the member on the class
+                cls.__dict__[name].member = new_member
+
             cls._member_names_.append(name)
             cls._member_map_[name] = new_member
             cls._value2member_map_[member.value] = new_member
-- 
2.43.0


From a6b5cb46feb2908dab20782abdc8b99b093c49c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 46/52] fix: allow any whitespace between the words of the type
 of an enum

---
 dissect/cstruct/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 1141910..479df2a 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -136,7 +136,8 @@ class TokenParser(Parser):
 
         factory = self.cstruct._make_flag if enumtype == "flag" else self.cstruct._make_enum
 
-        enum = factory(d["name"] or "", self.cstruct.resolve(d["type"]), values)
+        # Type names of multiple words can be separated by any whitespace
+        enum = factory(d["name"] or "", self.cstruct.resolve(" ".join(d["type"].split())), values)
         if not enum.__name__:
             self.cstruct.consts.update(enum.__members__)
         else:
-- 
2.43.0


From ffc14b113c09530bc251d1f9e6f2f3168b826a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 47/52] fix: allow vertical whitespace in expressions

---
 dissect/cstruct/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index 81be1e3..c057255 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -141,7 +141,7 @@ class ExpressionTokenizer:
                 self.tokens.append(">>")
             elif self.match(expected="<", append=False) and self.match(expected="<", append=False):
                 self.tokens.append("<<")
-            elif self.match(expected={" ", "\t", "\r", "\n"}, append=False):
+            elif self.match(expected={" ", "\t", "\r", "\n", "\v", "\f"}, append=False):
                 continue
             else:
                 raise ExpressionTokenizerError(
-- 
2.43.0


From 66325f35ae0c9c6a3b951d8d485c061b9d87d1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 48/52] fix: compare dynamic unions by their fields

---
 dissect/cstruct/types/structure.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index a98dfff..f8488eb 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -593,7 +593,14 @@ class Union(Structure, metaclass=UnionMetaType):
     _stream: BinaryIO | None = None
 
     def __eq__(self, other: object) -> bool:
-        return self.__class__ is other.__class__ and bytes(self) == bytes(other)
+        if self.__class__ is not other.__class__:
+            return False
+
+        if self.__class__.dynamic:
+            # Dynamic unions can't be dumped, so compare their fields
+            return all(getattr(self, name) == getattr(other, name) for name in self.__class__.fields)
+
+        return bytes(self) == bytes(other)
 
     def __setattr__(self, attr: str, value: Any) -> None:
         if self.__class__.dynamic:
-- 
2.43.0


From fd4458dc9f6ab2eb965138095530733913e95b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 49/52] fix: stubs of structures with variable-size inline
 members and of types named like keywords

---
 dissect/cstruct/tools/stubgen.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index 8477231..9dcdbd5 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -103,7 +103,7 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
             # Reference to an unknown type, which the cstruct object doesn't provide
             continue
 
-        if issubclass(typedef, (types.BaseArray, types.Pointer)):
+        if issubclass(typedef, (types.BaseArray, types.Pointer)) or not is_valid_name(typedef.__name__):
             # These don't have a name of their own
             inline_type = get_inline_type(cs, typedef)
             if inline_type is not None and inline_type.__name__ not in defined_names:
@@ -111,7 +111,7 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
                 body.append(textwrap.indent(inline_stub, prefix=indent))
                 defined_names.add(inline_type.__name__)
 
-            type_hint = generate_typehint(typedef, "" if inline_type else cs_prefix, module_prefix)
+            type_hint = generate_typehint(typedef, "" if inline_type is not None else cs_prefix, module_prefix)
             stub = f"{name}: TypeAlias = {type_hint}"
         elif typedef.__name__ in empty_cs.typedefs:
             stub = f"{name}: TypeAlias = {cs_prefix}{typedef.__name__}"
@@ -144,7 +144,8 @@ def get_inline_type(cs: cstruct, type_: type[types.BaseType]) -> type[types.Stru
     while issubclass(type_, (types.BaseArray, types.Pointer)):
         type_ = type_.type
 
-    if issubclass(type_, types.Structure) and cs.typedefs.get(type_.__name__) is not type_:
+    is_global = cs.typedefs.get(type_.__name__) is type_
+    if issubclass(type_, types.Structure) and not is_global and is_valid_name(type_.__name__):
         return type_
 
     return None
@@ -163,6 +164,9 @@ def generate_typehint(
         return f"{module_prefix}Pointer[{generate_typehint(type_.type, prefix, module_prefix)}]"
     if issubclass(type_, types.Array):
         return f"{module_prefix}Array[{generate_typehint(type_.type, prefix, module_prefix)}]"
+    if not is_valid_name(type_.__name__):
+        # Can't be declared, so the closest we can get is its base
+        return f"{module_prefix}{type_.__base__.__name__}"
     return f"{prefix}{type_.__name__}"
 
 
@@ -213,7 +217,7 @@ def generate_structure_stub(
 
             result.append(textwrap.indent(inline_stub, prefix=indent))
 
-        type_hint = generate_typehint(field.type, "" if inline_type else f"{cs_prefix}", module_prefix)
+        type_hint = generate_typehint(field.type, "" if inline_type is not None else f"{cs_prefix}", module_prefix)
         result.append(f"    {field_name}: {type_hint}")
 
         args.append(f"{field_name}: {type_hint} | None = ...")
-- 
2.43.0


From 9bc219e5751818febbed6c1080dbcab5816eb7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 50/52] fix: let fields take precedence over constants in array
 counts of the legacy parser

---
 dissect/cstruct/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 479df2a..3c1a183 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -542,10 +542,12 @@ class CStyleParser(Parser):
                     count = None
                 else:
                     count = Expression(self.cstruct, d["count"])
-                    try:
-                        count = count.evaluate()
-                    except Exception:
-                        pass
+                    # Fields take precedence over constants, so those can only be evaluated while reading
+                    if not {field._name for field in result}.intersection(count.tokens):
+                        try:
+                            count = count.evaluate()
+                        except Exception:
+                            pass
 
                 type_ = self.cstruct._make_array(type_, count)
 
-- 
2.43.0


From f8bfccfde6f7b8eb75ea2196a64cbd263d986d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 51/52] fix: align fields and padding relative to the start of
 their structure

---
 dissect/cstruct/compiler.py        | 4 ++--
 dissect/cstruct/types/structure.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 597a1fe..ec0347a 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -171,7 +171,7 @@ class _ReadSourceGenerator:
                 current_offset = field.offset
 
             if self.align and field.offset is None:
-                yield f"stream.seek(-stream.tell() & ({field.alignment} - 1), {io.SEEK_CUR})"
+                yield f"stream.seek((o - stream.tell()) & ({field.alignment} - 1), {io.SEEK_CUR})"
 
         for field in self.fields:
             field_type = field.type
@@ -240,7 +240,7 @@ class _ReadSourceGenerator:
         yield from flush()
 
         if self.align:
-            yield f"stream.seek(-stream.tell() & (cls.alignment - 1), {io.SEEK_CUR})"
+            yield f"stream.seek((o - stream.tell()) & (cls.alignment - 1), {io.SEEK_CUR})"
 
     def _generate_structure(self, field: Field) -> Iterator[str]:
         template = f"""
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index f8488eb..c3aa652 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -284,7 +284,7 @@ class StructureMetaType(MetaType):
 
             if cls.__align__ and field.offset is None and not is_continued:
                 # Previous field was dynamically sized and we need to align
-                offset += -offset & (field.alignment - 1)
+                offset += (struct_start - offset) & (field.alignment - 1)
                 stream.seek(offset)
 
             if field.bits:
@@ -304,7 +304,7 @@ class StructureMetaType(MetaType):
 
         if cls.__align__:
             # Align the stream
-            stream.seek(-stream.tell() & (cls.alignment - 1), io.SEEK_CUR)
+            stream.seek((struct_start - stream.tell()) & (cls.alignment - 1), io.SEEK_CUR)
 
         # Using type.__call__ directly calls the __init__ method of the class
         # This is faster than calling cls() and bypasses the metaclass __call__ method
@@ -355,7 +355,7 @@ class StructureMetaType(MetaType):
                 )
                 if not bit_buffer._type or is_bitbuffer_boundary:
                     # Previous field was dynamically sized and we need to align
-                    align_pad = -offset & (field.alignment - 1)
+                    align_pad = (struct_start - offset) & (field.alignment - 1)
                     stream.write(b"\x00" * align_pad)
                     offset += align_pad
 
@@ -377,7 +377,7 @@ class StructureMetaType(MetaType):
 
         if cls.__align__:
             # Align the stream
-            stream.write(b"\x00" * (-stream.tell() & (cls.alignment - 1)))
+            stream.write(b"\x00" * ((struct_start - stream.tell()) & (cls.alignment - 1)))
 
         return num
 
-- 
2.43.0


From f38dd54ae5ecedb044aea68fe3fd234bce31dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 52/52] fix: structures with fields named both self and __self

The generated __init__ (and its stub) named its own argument like the field.
---
 dissect/cstruct/tools/stubgen.py   |  3 ++-
 dissect/cstruct/types/structure.py | 14 +++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index 9dcdbd5..c727e7c 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -12,6 +12,7 @@ from typing import TYPE_CHECKING
 from dissect.cstruct import types
 from dissect.cstruct.cstruct import cstruct
 from dissect.cstruct.exceptions import ResolveError
+from dissect.cstruct.types.structure import _self_name
 
 if TYPE_CHECKING:
     from types import ModuleType
@@ -203,7 +204,7 @@ def generate_structure_stub(
 
     indent = " " * 4
 
-    args = ["self" if "self" not in structure.fields else "__self"]
+    args = [_self_name(structure.fields)]
     inlined = set()
     for field_name, field in structure.fields.items():
         if not is_valid_name(field_name):
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index c3aa652..26f472f 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -21,7 +21,7 @@ from dissect.cstruct.types.enum import EnumMetaType
 from dissect.cstruct.types.pointer import BufferedStream, Pointer
 
 if TYPE_CHECKING:
-    from collections.abc import Iterator
+    from collections.abc import Iterable, Iterator
     from types import FunctionType
 
     from typing_extensions import Self
@@ -850,6 +850,14 @@ def _patch_attributes(func: FunctionType, fields: list[str], start: int = 0) ->
     )
 
 
+def _self_name(fields: Iterable[str]) -> str:
+    """Return a name for the ``self`` argument of a generated method that isn't the name of a field."""
+    name = "self"
+    while name in fields:
+        name = f"__{name}"
+    return name
+
+
 def _generate_structure__init__(fields: list[Field]) -> FunctionType:
     """Generates an ``__init__`` method for a structure with the specified fields.
 
@@ -863,7 +871,7 @@ def _generate_structure__init__(fields: list[Field]) -> FunctionType:
         template.__code__.replace(
             co_consts=(None, *[field.__default__() for field in fields]),
             co_names=(*field_names,),
-            co_varnames=("self" if "self" not in field_names else "__self", *field_names),
+            co_varnames=(_self_name(field_names), *field_names),
         ),
         template.__globals__,
         argdefs=template.__defaults__,
@@ -885,7 +893,7 @@ def _generate_union__init__(fields: list[Field]) -> FunctionType:
                 None,
                 *sum([(field._name, field.type.__default__()) for field in fields], ()),
             ),
-            co_varnames=("self" if "self" not in field_names else "__self", *field_names),
+            co_varnames=(_self_name(field_names), *field_names),
         ),
         template.__globals__,
         argdefs=template.__defaults__,
-- 
2.43.0

