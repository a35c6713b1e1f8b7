From a6fd50a708701e423eb6c0c908b4005708eef123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 01/59] fix: non-strict bool deserialization of falsy keywords
 returned True

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index e04df80..12ea1a5 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -52,7 +52,7 @@ def _bool_from_str(s: str) -> bool:
     if s.lower() in ("yes", "true", "on", "enabled"):
         return True
     if s.lower() in ("no", "false", "off", "disabled"):
-        return True
+        return False
     raise ValueError(f"not a truthy keyword: {s!r}")
 
 
-- 
2.43.0


From ef053a0c6e612fa9c6e29a3e5abd491b56a971ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:07 +0000
Subject: [PATCH 02/59] fix: report a lossy float to int conversion as
 ConversionError instead of AssertionError

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 12ea1a5..cb51ad5 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -42,7 +42,8 @@ T = t.TypeVar("T")
 def _int_lossless(v: float) -> int:
     """Convert *v* to an integer only if the conversion is lossless, otherwise raise an error."""
 
-    assert v % 1.0 == 0.0, f"expected int, got {v!r}"
+    if v % 1.0 != 0.0:
+        raise ValueError(f"expected int, got {v!r}")
     return int(v)
 
 
-- 
2.43.0


From 385e99275b3a421267fbcd5b90989be6e5b6eb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:07 +0000
Subject: [PATCH 03/59] fix: report int to float overflow as ConversionError

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index cb51ad5..31cf5a8 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -435,7 +435,7 @@ class PlainDatatypeConverter(Converter):
 
         try:
             return adapter(ctx.value)
-        except ValueError as exc:
+        except (ValueError, OverflowError) as exc:
             raise ConversionError(self, ctx, str(exc)) from exc
 
 
-- 
2.43.0


From df8d6d7b20a593e4f4b59b6dbf5933c59bce4238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:30 +0000
Subject: [PATCH 04/59] fix: bytes were base64-encoded on deserialization and
 text base64-decoded on serialization

---
 databind/src/databind/json/converters.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 31cf5a8..ac1c891 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -387,7 +387,7 @@ class PlainDatatypeConverter(Converter):
 
     # Map for (source_type, target_type)
     _strict_adapters: t.Dict[t.Tuple[type, type], t.Callable[[t.Any], t.Any]] = {
-        (bytes, bytes): lambda d: base64.b64encode(d).decode("ascii"),
+        (bytes, bytes): bytes,
         (str, bytes): base64.b64decode,
         (str, str): str,
         (int, int): int,
@@ -397,6 +397,11 @@ class PlainDatatypeConverter(Converter):
         (bool, bool): bool,
     }
 
+    # Used only during serialization. Bytes are encoded to, but must not be decoded from, their text form.
+    _serialize_adapters = _strict_adapters.copy()
+    _serialize_adapters.update({(bytes, bytes): lambda d: base64.b64encode(d).decode("ascii")})
+    del _serialize_adapters[(str, bytes)]
+
     # Used only during deserialization if the #fieldinfo.strict is disabled.
     _nonstrict_adapters = _strict_adapters.copy()
     _nonstrict_adapters.update(
@@ -422,12 +427,11 @@ class PlainDatatypeConverter(Converter):
 
         source_type = type(ctx.value)
         target_type = datatype.type
-        strict = (
-            (ctx.get_setting(Strict) or Strict(self.strict_by_default))
-            if ctx.direction == Direction.DESERIALIZE
-            else Strict(True)
-        )
-        adapters = self._strict_adapters if strict.enabled else self._nonstrict_adapters
+        if ctx.direction == Direction.DESERIALIZE:
+            strict = ctx.get_setting(Strict) or Strict(self.strict_by_default)
+            adapters = self._strict_adapters if strict.enabled else self._nonstrict_adapters
+        else:
+            adapters = self._serialize_adapters
         adapter = adapters.get((source_type, target_type))
 
         if adapter is None:
-- 
2.43.0


From 467d7b14f656cb4b5a50941893fa064767ad3756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:30 +0000
Subject: [PATCH 05/59] fix: report malformed decimal text as ConversionError
 instead of decimal.InvalidOperation

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index ac1c891..93a7e7e 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -238,7 +238,10 @@ class DecimalConverter(Converter):
 
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
-                return decimal.Decimal(ctx.value, context)
+                try:
+                    return decimal.Decimal(ctx.value, context)
+                except decimal.InvalidOperation as exc:
+                    raise ConversionError(self, ctx, f"invalid decimal: {ctx.value!r}") from exc
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
 
         else:
-- 
2.43.0


From a26667c3774dea31509f6c228f2c6d39f825bfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:51 +0000
Subject: [PATCH 06/59] fix: the Precision setting had no effect on
 deserialized decimals

---
 databind/src/databind/json/converters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 93a7e7e..45245b3 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -239,8 +239,9 @@ class DecimalConverter(Converter):
         if ctx.direction == Direction.DESERIALIZE:
             if (not strict.enabled and isinstance(ctx.value, (int, float))) or isinstance(ctx.value, str):
                 try:
-                    return decimal.Decimal(ctx.value, context)
-                except decimal.InvalidOperation as exc:
+                    # NOTE: Unlike the Decimal constructor, create_decimal() rounds to the precision of the context.
+                    return context.create_decimal(ctx.value) if context else decimal.Decimal(ctx.value)
+                except decimal.DecimalException as exc:
                     raise ConversionError(self, ctx, f"invalid decimal: {ctx.value!r}") from exc
             raise ConversionError.expected(self, ctx, str, type(ctx.value))
 
-- 
2.43.0


From 85398b6947d2a670f443f8d3e82677df951d1279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:51 +0000
Subject: [PATCH 07/59] fix: report unknown union members as ConversionError
 instead of ValueError

---
 databind/src/databind/json/converters.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 45245b3..7acceb4 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -812,12 +812,18 @@ class UnionConverter(Converter):
             if not isinstance(ctx.value, t.Mapping):
                 raise ConversionError.expected(self, ctx, t.Mapping)
             member_name = self._get_deserialize_member_name(ctx, ctx.value, style, discriminator_key)
-            member_type = union.members.get_type_by_id(member_name)
+            try:
+                member_type = union.members.get_type_by_id(member_name)
+            except ValueError as exc:
+                raise ConversionError(self, ctx, str(exc)) from exc
 
         else:
             # Identify the member type based on the Python value type.
-            member_name = union.members.get_type_id(type(ctx.value))
-            member_type = union.members.get_type_by_id(member_name)
+            try:
+                member_name = union.members.get_type_id(type(ctx.value))
+                member_type = union.members.get_type_by_id(member_name)
+            except ValueError as exc:
+                raise ConversionError(self, ctx, str(exc)) from exc
 
         nesting_key = union.nesting_key or member_name
         type_hint = TypeHint(member_type) if not isinstance(member_type, TypeHint) else member_type
-- 
2.43.0


From 53d4d6a39cf4369fe437b440fbe05a233c47acf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:51 +0000
Subject: [PATCH 08/59] fix: report a non-string key of a keyed union as
 ConversionError

---
 databind/src/databind/json/converters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 7acceb4..3375b0d 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -758,7 +758,8 @@ class UnionConverter(Converter):
                     self, ctx, f"expected exactly one key to act as the discriminator, got {len(value)} key(s)"
                 )
             member_name = next(iter(value))
-            assert isinstance(member_name, str)
+            if not isinstance(member_name, str):
+                raise ConversionError(self, ctx, f"expected a string as the discriminator key, got {member_name!r}")
         else:
             raise ConversionError(self, ctx, f"unsupported Union.style: {style!r}")
 
-- 
2.43.0


From 398f8f867c843d0e927b3da30913b590499ba563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:51 +0000
Subject: [PATCH 09/59] fix: respect Union.nesting_key when serializing nested
 unions

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 3375b0d..c7c67a5 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -857,7 +857,7 @@ class UnionConverter(Converter):
             self._check_style_compatibility(ctx, style, result)
             # Bring the serialized value into shape.
             if style == Union.NESTED:
-                result = {discriminator_key: member_name, member_name: result}
+                result = {discriminator_key: member_name, nesting_key: result}
             elif style == Union.FLAT:
                 assert isinstance(result, t.MutableMapping), type(result)
                 result[discriminator_key] = member_name
-- 
2.43.0


From 95c88647252af9df2e48df11593f3a5c5e5454e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 10/59] fix: ImportUnionMembers.get_type_by_id() raises
 ValueError for unknown modules and attributes

---
 databind/src/databind/core/union.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 95bb90d..16db056 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -181,7 +181,12 @@ class ImportUnionMembers(UnionMembers):
         parts = type_id.split(".")
         offset = 1
         module_name = parts[0]
-        module = importlib.import_module(module_name)
+        try:
+            module = importlib.import_module(module_name)
+        except ModuleNotFoundError as exc:
+            if exc.name != module_name:
+                raise
+            raise ValueError(f"{type_id!r} does not point to a type ({exc})")
 
         # Import as many modules as we can.
         for offset, part in enumerate(parts[offset:], offset):
@@ -197,7 +202,10 @@ class ImportUnionMembers(UnionMembers):
         # Read the class.
         target = module
         for offset, part in enumerate(parts[offset:], offset):
-            target = getattr(target, part)
+            try:
+                target = getattr(target, part)
+            except AttributeError as exc:
+                raise ValueError(f"{type_id!r} does not point to a type ({exc})")
 
         if not isinstance(target, type):  # type: ignore[unreachable]
             raise ValueError(f"{type_id!r} does not point to a type (got {type(target).__name__} instead)")
-- 
2.43.0


From 7f85f90bdbd79262dae9c2a677a9558a8eae20f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 11/59] fix: ChainUnionMembers.get_type_ids() returned the
 characters of the type IDs

---
 databind/src/databind/core/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 16db056..a0750cc 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -253,4 +253,4 @@ class ChainUnionMembers(UnionMembers):
                 except NotImplementedError:
                     pass
 
-        return Stream(_gen()).concat().distinct().collect()
+        return Stream(_gen()).distinct().collect()
-- 
2.43.0


From df8bf8789dafcca9b693cdc534074fe598f46dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:37 +0000
Subject: [PATCH 12/59] fix: StaticUnionMembers returned stale types after a
 deferred member was replaced or removed

---
 databind/src/databind/core/union.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index a0750cc..61c7b99 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -88,7 +88,7 @@ class StaticUnionMembers(UnionMembers):
     members: _MembersDictType = dataclasses.field(default_factory=dict)
 
     def __post_init__(self) -> None:
-        self._eval_cache: t.Dict[str, StaticUnionMembers._TypeType] = {}
+        self._eval_cache: t.Dict[str, t.Tuple[types.FunctionType, StaticUnionMembers._TypeType]] = {}
 
     def get_type_id(self, type_: t.Any) -> str:
         for type_id in self.members:
@@ -102,18 +102,16 @@ class StaticUnionMembers(UnionMembers):
         raise ValueError(f"type {type_} is not a member of {self}")
 
     def get_type_by_id(self, type_id: str) -> t.Any:
-        try:
-            return self._eval_cache[type_id]
-        except KeyError:
-            pass
-
         try:
             member = self.members[type_id]
         except KeyError:
             raise ValueError(f"{type_id!r} is not a type ID of {self}")
 
         if isinstance(member, types.FunctionType):
-            member = self._eval_cache[type_id] = member()
+            cached = self._eval_cache.get(type_id)
+            if cached is None or cached[0] is not member:
+                cached = self._eval_cache[type_id] = (member, member())
+            return cached[1]
 
         return member
 
-- 
2.43.0


From a3d61cbbdcab903fb167a22e49717f52cb6a2202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:37 +0000
Subject: [PATCH 13/59] fix: EntrypointUnionMembers exposed a partially filled
 cache to concurrent threads

---
 databind/src/databind/core/union.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 61c7b99..f5ae1df 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -138,9 +138,8 @@ class EntrypointUnionMembers(UnionMembers):
     @property
     def _entrypoints(self) -> t.Dict[str, EntryPoint]:
         if self._entrypoints_cache is None:
-            self._entrypoints_cache = {}
-            for ep in iter_entry_points(self.group):
-                self._entrypoints_cache[ep.name] = ep
+            # Assign only the complete cache, such that another thread cannot observe it partially filled.
+            self._entrypoints_cache = {ep.name: ep for ep in iter_entry_points(self.group)}
         return self._entrypoints_cache
 
     def get_type_id(self, type_: t.Any) -> str:
-- 
2.43.0


From ee822d1f9d43ccd10b7234db67fb7669d01b42c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:37 +0000
Subject: [PATCH 14/59] fix: StaticUnionMembers.get_type_id() failed if a
 member was registered concurrently

---
 databind/src/databind/core/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index f5ae1df..8c09c9b 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -91,7 +91,7 @@ class StaticUnionMembers(UnionMembers):
         self._eval_cache: t.Dict[str, t.Tuple[types.FunctionType, StaticUnionMembers._TypeType]] = {}
 
     def get_type_id(self, type_: t.Any) -> str:
-        for type_id in self.members:
+        for type_id in list(self.members):
             reference_type = self.get_type_by_id(type_id)
             # NOTE (@NiklasRosenstein): If we have a TypeHint hint, it could represent a generic alias, but we get
             #   passed the type of a value here as type_ which would have lost any generic aliasing if it was even
-- 
2.43.0


From ed71f5ff1f9ce313bbe5171ef120374b03e2d7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:37 +0000
Subject: [PATCH 15/59] fix: decorating a subclass with a setting attached it
 to the base class instead

---
 databind/src/databind/core/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 5777529..09bbe46 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -176,7 +176,7 @@ class ClassDecoratorSetting(Setting):
             raise RuntimeError("cannot decorate multiple types with the same setting instance")
 
         self.bound_to = type_
-        settings = getattr(type_, "__databind_settings__", None)
+        settings = vars(type_).get("__databind_settings__")
         if settings is None:
             settings = []
             setattr(type_, "__databind_settings__", settings)
-- 
2.43.0


From 640821d67eab7ff6e0629f62c48b13566e32e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:37 +0000
Subject: [PATCH 16/59] fix: support annotated Literal type hints

---
 databind/src/databind/json/converters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c7c67a5..f37102e 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -878,14 +878,15 @@ class LiteralConverter(Converter):
     or #None."""
 
     def convert(self, ctx: Context) -> t.Any:
-        if not isinstance(ctx.datatype, LiteralTypeHint):
+        datatype = _unwrap_annotated(ctx.datatype)
+        if not isinstance(datatype, LiteralTypeHint):
             raise NotImplementedError
 
-        if ctx.value not in ctx.datatype.values:
+        if ctx.value not in datatype.values:
             raise ConversionError(
                 self,
                 ctx,
-                f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, ctx.datatype.values))}",
+                f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, datatype.values))}",
             )
 
         return ctx.value
-- 
2.43.0


From bbba6e43fcec3cc12fea810bf110e77cc498d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 17/59] fix: support union type hints that are annotated with
 settings other than Union

---
 databind/src/databind/json/converters.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index f37102e..32c3640 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -771,9 +771,13 @@ class UnionConverter(Converter):
             raise ConversionError(self, ctx, f"The Union.{style.upper()} style is not supported for plain member types")
 
     def convert(self, ctx: Context) -> t.Any:
-        datatype = ctx.datatype
-        union: t.Optional[Union]
-        if isinstance(datatype, UnionTypeHint):
+        datatype = _unwrap_annotated(ctx.datatype)
+        union: t.Optional[Union] = None
+        if isinstance(ctx.datatype, (AnnotatedTypeHint, ClassTypeHint)):
+            union = ctx.get_setting(Union)
+        if union is not None:
+            pass
+        elif isinstance(datatype, UnionTypeHint):
             if datatype.has_none_type():
                 raise NotImplementedError("unable to handle Union type with None in it")
             if not all(isinstance(a, ClassTypeHint) for a in datatype):
@@ -782,10 +786,6 @@ class UnionConverter(Converter):
             if len(members) != len(datatype):
                 raise NotImplementedError(f"members of plain Union cannot have overlapping type names: {datatype}")
             union = Union(members, Union.BEST_MATCH)
-        elif isinstance(datatype, (AnnotatedTypeHint, ClassTypeHint)):
-            union = ctx.get_setting(Union)
-            if union is None:
-                raise NotImplementedError
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 89b9086d970a997f6cf7a16666b920a6a02f6c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 18/59] fix: settings annotating an optional type hint were
 ignored

---
 databind/src/databind/json/converters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 32c3640..b20ffc2 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -4,6 +4,7 @@ import decimal
 import enum
 import typing as t
 
+import typing_extensions as te
 from typeapi import (
     AnnotatedTypeHint,
     ClassTypeHint,
@@ -374,7 +375,11 @@ class OptionalConverter(Converter):
             raise NotImplementedError
         if ctx.value is None:
             return None
-        return ctx.spawn(ctx.value, datatype.without_none_type(), None).convert()
+        inner = datatype.without_none_type()
+        if isinstance(ctx.datatype, AnnotatedTypeHint):
+            # Settings that annotate the optional type are meant for the value.
+            inner = TypeHint(te.Annotated[(inner.hint, *ctx.datatype.metadata)])  # type: ignore[misc]
+        return ctx.spawn(ctx.value, inner, None).convert()
 
 
 class PlainDatatypeConverter(Converter):
-- 
2.43.0


From b3ace844f454bfd58100c9e52a748cdf7d444756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 19/59] fix: JsonConverter.using_classmethods() had no effect
 in annotated type hints

---
 databind/src/databind/core/converter.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/converter.py b/databind/src/databind/core/converter.py
index 3696ab9..cf94646 100644
--- a/databind/src/databind/core/converter.py
+++ b/databind/src/databind/core/converter.py
@@ -3,7 +3,7 @@ import logging
 import typing as t
 from textwrap import indent
 
-from typeapi import ClassTypeHint, type_repr
+from typeapi import AnnotatedTypeHint, ClassTypeHint, TypeHint, type_repr
 
 from databind.core.utils import exception_safe_str
 
@@ -165,18 +165,23 @@ class DelegateToClassmethodConverter(Converter):
         self._serialize = serialize
         self._deserialize = deserialize
 
+    def _get_datatype(self, ctx: "Context") -> TypeHint:
+        return ctx.datatype[0] if isinstance(ctx.datatype, AnnotatedTypeHint) else ctx.datatype
+
     def serialize(self, ctx: "Context") -> t.Any:
-        if self._serialize is None or not isinstance(ctx.datatype, ClassTypeHint):
+        datatype = self._get_datatype(ctx)
+        if self._serialize is None or not isinstance(datatype, ClassTypeHint):
             raise NotImplementedError
-        if not isinstance(ctx.value, ctx.datatype.type):
-            raise ConversionError.expected(self, ctx, ctx.datatype.type)
-        method: t.Callable[[t.Any], t.Any] = getattr(ctx.datatype.type, self._serialize)
+        if not isinstance(ctx.value, datatype.type):
+            raise ConversionError.expected(self, ctx, datatype.type)
+        method: t.Callable[[t.Any], t.Any] = getattr(datatype.type, self._serialize)
         return method(ctx.value)
 
     def deserialize(self, ctx: "Context") -> t.Any:
-        if self._deserialize is None or not isinstance(ctx.datatype, ClassTypeHint):
+        datatype = self._get_datatype(ctx)
+        if self._deserialize is None or not isinstance(datatype, ClassTypeHint):
             raise NotImplementedError
         if self._serialized_type is not None and not isinstance(ctx.value, self._serialized_type):
             raise ConversionError.expected(self, ctx, self._serialized_type)
-        method: t.Callable[[t.Any], t.Any] = getattr(ctx.datatype.type, self._deserialize)
+        method: t.Callable[[t.Any], t.Any] = getattr(datatype.type, self._deserialize)
         return method(ctx.value)
-- 
2.43.0


From 4a92bd0a8eb3da6785313e7510430b66e363a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 20/59] fix: serializing a remainder field that equals its
 default failed with SerializeDefaults(False)

---
 databind/src/databind/json/converters.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index b20ffc2..7e3ceb9 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -521,7 +521,16 @@ class SchemaConverter(Converter):
                 remainder_field = field_name, field
                 assert not field.flattened, "remainder field cannot be flattened"
             value = field_ctx.convert()
-            if field.flattened:
+            if remainder and remainder.enabled:
+                # The keys of the remainder are the data, not a default, so they are always expanded.
+                if not isinstance(value, t.Mapping):
+                    raise ConversionError(
+                        self,
+                        ctx,
+                        f"cannot expand remainder field {field_name!r} of type {type(value).__name__}",
+                    )
+                remainder_values = value
+            elif field.flattened:
                 if not isinstance(value, t.Mapping):
                     raise ConversionError(
                         self,
@@ -534,16 +543,7 @@ class SchemaConverter(Converter):
             else:
                 if serialize_defaults or not field.has_default() or field_ctx.value != field.get_default():
                     alias = self._get_alias_setting(field_ctx, field_name).aliases[0]
-                    if remainder and remainder.enabled:
-                        if not isinstance(value, t.Mapping):
-                            raise ConversionError(
-                                self,
-                                ctx,
-                                f"cannot expand remainder field {field_name!r} of type {type(value).__name__}",
-                            )
-                        remainder_values = value
-                    else:
-                        result[alias] = value
+                    result[alias] = value
 
         if remainder_field:
             assert remainder_values is not None
-- 
2.43.0


From 60ec88e74eda6854293ad8d9fb47d5cc58d7a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 21/59] fix: report colliding keys of flattened fields as
 ConversionError instead of overwriting them

---
 databind/src/databind/json/converters.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 7e3ceb9..9bb082c 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -538,11 +538,17 @@ class SchemaConverter(Converter):
                         f"field {field_name!r} is flattened but its serialized form is not "
                         f"a mapping (got {type(value).__name__!r})",
                     )
-                assert result.keys().isdisjoint(value.keys()), result.keys() & value.keys()
+                duplicate_keys = result.keys() & value.keys()
+                if duplicate_keys:
+                    raise ConversionError(
+                        self, field_ctx, f"keys in flattened field collide with other fields: {duplicate_keys}"
+                    )
                 result.update(value)
             else:
                 if serialize_defaults or not field.has_default() or field_ctx.value != field.get_default():
                     alias = self._get_alias_setting(field_ctx, field_name).aliases[0]
+                    if alias in result:
+                        raise ConversionError(self, field_ctx, f"key {alias!r} is used by more than one field")
                     result[alias] = value
 
         if remainder_field:
-- 
2.43.0


From e52340ec77e2e79213afad9b66e19b7bc00f19e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 22/59] fix: SerializeDefaults(False) omitted fields that are
 required for deserialization

---
 databind/src/databind/json/converters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 9bb082c..c9497b5 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -545,7 +545,12 @@ class SchemaConverter(Converter):
                     )
                 result.update(value)
             else:
-                if serialize_defaults or not field.has_default() or field_ctx.value != field.get_default():
+                if (
+                    serialize_defaults
+                    or field.required
+                    or not field.has_default()
+                    or field_ctx.value != field.get_default()
+                ):
                     alias = self._get_alias_setting(field_ctx, field_name).aliases[0]
                     if alias in result:
                         raise ConversionError(self, field_ctx, f"key {alias!r} is used by more than one field")
-- 
2.43.0


From 71bc77e85a89e50e85f0d858c7747128f333559a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 23/59] fix: typed dicts could not be converted with the JSON
 module

---
 databind/src/databind/json/converters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c9497b5..ac28215 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -13,6 +13,7 @@ from typeapi import (
     TypeHint,
     UnionTypeHint,
     get_annotations,
+    is_typed_dict,
     type_repr,
 )
 
@@ -333,6 +334,8 @@ class MappingConverter(Converter):
         # Find the key and value types of the mapping.
         if not isinstance(datatype, ClassTypeHint) or not issubclass(datatype.type, t.Mapping):
             raise NotImplementedError
+        if is_typed_dict(datatype.type):
+            raise NotImplementedError  # Typed dicts have a schema.
         candidates = set()
         for current in datatype.recurse_bases():
             if issubclass(current.type, t.Mapping) and len(current.args) == 2:
-- 
2.43.0


From 062348f87179f829a3c39a2f4c66f404bbcc0979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 24/59] fix: serializing a typed dict without an optional key,
 or a value that is not a mapping, failed

---
 databind/src/databind/json/converters.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index ac28215..02b7577 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -495,17 +495,16 @@ class SchemaConverter(Converter):
             is_instance = isinstance(ctx.value, schema.type)
         except TypeError:
             # The type may not support isinstance() checks (e.g. typing.TypedDict).
-            pass
-        else:
-            if not is_instance:
-                raise ConversionError.expected(self, ctx, schema.type)
+            is_instance = isinstance(ctx.value, t.Mapping)
+        if not is_instance:
+            raise ConversionError.expected(self, ctx, schema.type)
 
         serialize_defaults = (ctx.get_setting(SerializeDefaults) or SerializeDefaults(self.serialize_defaults)).enabled
         result = self.json_mapping_type()
 
         def _get_field_value(field_name: str, field: Field) -> t.Any:
             if isinstance(ctx.value, t.Mapping):
-                return ctx.value[field_name]  # TODO (@NiklasRosenstein): Respect non-required fields
+                return ctx.value[field_name]
             else:
                 return getattr(ctx.value, field_name)
 
@@ -513,6 +512,10 @@ class SchemaConverter(Converter):
         remainder_values: t.Optional[t.Mapping[str, t.Any]] = None
 
         for field_name, field in schema.fields.items():
+            if isinstance(ctx.value, t.Mapping) and field_name not in ctx.value:
+                if field.required:
+                    raise ConversionError(self, ctx, f"missing required key: {field_name!r}")
+                continue
             field_ctx = ctx.spawn(_get_field_value(field_name, field), field.datatype, field_name)
             remainder = field_ctx.get_setting(Remainder)
             if remainder and remainder.enabled:
-- 
2.43.0


From a426baef1baa789f10ae414b406cb8fcf6e4bc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 25/59] fix: report a date that cannot be formatted as
 ConversionError

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 02b7577..4ea0f4a 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -220,7 +220,10 @@ class DatetimeConverter(Converter):
         else:
             if not isinstance(ctx.value, date_type):
                 raise ConversionError.expected(self, ctx, date_type, type(ctx.value))
-            return datefmt.format(ctx.value)  # type: ignore[type-var]
+            try:
+                return datefmt.format(ctx.value)  # type: ignore[type-var]
+            except ValueError as exc:
+                raise ConversionError(self, ctx, str(exc)) from exc
 
 
 class DecimalConverter(Converter):
-- 
2.43.0


From 82c205ed563826e5b0ad11f0d1b51541d31ef2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 26/59] fix: abstract set types were deserialized as lists

---
 databind/src/databind/json/converters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 4ea0f4a..6a52782 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -170,6 +170,8 @@ class CollectionConverter(Converter):
             try:
                 return python_type(values)
             except TypeError:
+                if issubclass(python_type, t.AbstractSet):
+                    return set(values)
                 # We assume that the native list is an appropriate placeholder for whatever specific Collection type
                 # was chosen in the value's datatype.
                 return values
-- 
2.43.0


From a68c0d4a33efe316a81b9efb2317583ad929c776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 27/59] fix: keep the order of keys in a remainder field

---
 databind/src/databind/json/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 6a52782..b0773bb 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -639,7 +639,7 @@ class SchemaConverter(Converter):
 
         unused_keys = source.keys() - used_keys
         if remainder_field:
-            remainders = {k: ctx.value[k] for k in unused_keys}
+            remainders = {k: v for k, v in source.items() if k not in used_keys}
             result[remainder_field[0]] = ctx.spawn(
                 remainders, remainder_field[1].datatype, remainder_field[0]
             ).convert()
-- 
2.43.0


From 4241b4287b6464a65ecfa92d488aa7ec37692c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 28/59] fix: formatting an error that occurred under a mapping
 key of another type than str or int failed

---
 databind/src/databind/core/context.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/databind/src/databind/core/context.py b/databind/src/databind/core/context.py
index 7248791..2238041 100644
--- a/databind/src/databind/core/context.py
+++ b/databind/src/databind/core/context.py
@@ -145,12 +145,10 @@ def format_context_trace(ctx: Context) -> str:
             key = "$"
         elif isinstance(ctx.key, str):
             key = f".{ctx.key}"
-        elif isinstance(ctx.key, int):
-            key = f"[{ctx.key}]"
         elif ctx.key is None:
             key = "^"
         else:
-            raise TypeError(f"encountered unexpected type in Context.key: {ctx.key.__class__.__name__!r}")
+            key = f"[{ctx.key!r}]"
 
         line = f"  {key}: {ctx.datatype}"
         if ctx.location.line or ctx.location.column:
-- 
2.43.0


From 5c1ebf64ebc4c37d5304aa7a883d17a0408855e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 29/59] fix: look up the origin of dataclass fields in the
 method resolution order

---
 databind/src/databind/core/schema.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index dafd295..328bbd6 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -181,15 +181,12 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
     # forward references in field annotations; we can't just use the target
     # dataclass if it was defined in a different module.
     field_origin: t.Dict[str, type] = {}
-    base_queue = [hint.type]
-    while base_queue:
-        base_type = base_queue.pop(0)
+    for base_type in hint.type.__mro__:
         if dataclasses.is_dataclass(base_type):
             annotations = get_annotations(base_type)
             for field in dataclasses.fields(base_type):
                 if field.name in annotations and field.name not in field_origin:
                     field_origin[field.name] = base_type
-        base_queue += base_type.__bases__
 
     # Retrieve the context in which type hints from each field origin type need to be
     # evaluated.
-- 
2.43.0


From 7a09110f1c946e1a992c7492350f27341fc14092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 30/59] fix: typed dict schemas listed their fields in random
 order

---
 databind/src/databind/core/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 328bbd6..87bd082 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -297,7 +297,7 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
 
     annotations = get_annotations(t.cast(type, typed_dict))
     fields: t.Dict[str, Field] = {}
-    for key in typed_dict.__required_keys__ | typed_dict.__optional_keys__:
+    for key in annotations:
         field_hint = TypeHint(annotations[key]).evaluate(eval_context)
 
         has_default = hasattr(typed_dict, key)
-- 
2.43.0


From 1638c51264df4df93b99aa9b1cec9e714790a7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 31/59] fix: ImportUnionMembers looked up the last module name
 again as a member of that module

---
 databind/src/databind/core/union.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 8c09c9b..1ed5b28 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -195,6 +195,8 @@ class ImportUnionMembers(UnionMembers):
                 if sub_module_name in str(exc):
                     break
                 raise
+        else:
+            offset += 1  # The last part was a module, too.
 
         # Read the class.
         target = module
-- 
2.43.0


From c31bd84343d5f9a7890599431462a8512e5e2cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 32/59] fix: loading a flattened field that has a remainder
 field failed

---
 databind/src/databind/json/converters.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index b0773bb..6bd2c28 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -620,11 +620,18 @@ class SchemaConverter(Converter):
             return result
 
         result = {}
+        flattened_remainder: t.Optional[t.Tuple[str, Field, t.Dict[str, t.Any]]] = None
         expanded = get_fields_expanded(schema)
         for field_name, field in schema.fields.items():
             if field.flattened:
                 assert field_name in expanded, field_name
-                value = ctx.spawn(_extract_fields(expanded[field_name]), field.datatype, field_name).convert()
+                had_remainder = remainder_field is not None
+                flattened_values = _extract_fields(expanded[field_name])
+                if remainder_field is not None and not had_remainder:
+                    # The remainder field is in the flattened type. It needs the keys that are not used elsewhere.
+                    flattened_remainder = (field_name, field, flattened_values)
+                    continue
+                value = ctx.spawn(flattened_values, field.datatype, field_name).convert()
             else:
                 container = _extract_field({}, field_name, field, False)
                 if not container:
@@ -638,8 +645,11 @@ class SchemaConverter(Converter):
         # TODO(@NiklasRosenstein): Support deserializing as a type different than what is defined in the schema.
 
         unused_keys = source.keys() - used_keys
-        if remainder_field:
-            remainders = {k: v for k, v in source.items() if k not in used_keys}
+        remainders = {k: v for k, v in source.items() if k not in used_keys}
+        if flattened_remainder:
+            field_name, field, flattened_values = flattened_remainder
+            result[field_name] = ctx.spawn({**flattened_values, **remainders}, field.datatype, field_name).convert()
+        elif remainder_field:
             result[remainder_field[0]] = ctx.spawn(
                 remainders, remainder_field[1].datatype, remainder_field[0]
             ).convert()
-- 
2.43.0


From 6f868001e2f21fe968aaf104a6ecc0c71e50457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:26 +0000
Subject: [PATCH 33/59] fix: databind.core.dataclasses failed on InitVar,
 init=False, slots and re-declared fields

---
 databind/src/databind/core/dataclasses.py | 49 ++++++++++-------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index ef61477..ed654b2 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -11,6 +11,7 @@ following default arguments.
 """
 
 import dataclasses
+import types
 import typing as t
 from dataclasses import (
     MISSING,
@@ -50,44 +51,40 @@ ANNOTATIONS_METADATA_KEY = "databind.core.annotations"
 
 
 def _field_has_default(field: Field) -> bool:
-    return any(x != MISSING for x in (field.default, field.default_factory))  # type: ignore
+    return any(x is not MISSING for x in (field.default, field.default_factory))  # type: ignore
 
 
 def _process_class(cls, **kwargs):
-    # Collect a list of the fields that have no default values but follow after a default argument.
-    no_default_fields: t.List[str] = []
-    existing_fields = getattr(cls, "__dataclass_fields__", {})  # For subclasses of dataclasses
-    annotations = getattr(cls, "__annotations__", {})
-    if "__annotations__" not in cls.__dict__:
-        # Make sure that __annotations__ exists on the class itself.
-        cls.__annotations__ = annotations
+    # Collect the fields that have no default values, but may follow after a default argument.
+    no_default_fields: t.Dict[str, Field] = {}
 
     # Make sure each annotated field actually has a #Field. For fields without
     # defaults, we will set #Field.default to #NotSet.Value so we can later
     # check if the field was set in __post_init__().
-    for key in annotations.keys():
-        if not hasattr(cls, key):
-            f = existing_fields.get(key, field())
+    for key in cls.__dict__.get("__annotations__", {}):
+        f = getattr(cls, key, MISSING)
+        if f is MISSING or isinstance(f, types.MemberDescriptorType):
+            f = field()
             setattr(cls, key, f)
-        else:
-            f = getattr(cls, key)
-            if not isinstance(f, Field):
-                continue
-        if not _field_has_default(f):
+        elif not isinstance(f, Field):
+            continue
+        if f.init and not _field_has_default(f):
             # This prevents a SyntaxError if non-default arguments follow default arguments.
             f.default = NotSet.Value
-            no_default_fields.append(key)
+            no_default_fields[key] = f
 
     # Override the `__post_init__` method that is called by the dataclass `__init__`.
     orig_postinit = getattr(cls, "__post_init__", None)
 
-    def __post_init__(self):
+    def __post_init__(self, *initvars):
         # Ensure that no field has a "uninitialized" value.
-        for key in self.__dataclass_fields__.keys():
-            if getattr(self, key) == NotSet.Value:
-                raise TypeError(f"missing required argument {key!r}")
+        for f in fields(self):
+            if f.init and getattr(self, f.name) is NotSet.Value:
+                raise TypeError(f"missing required argument {f.name!r}")
+        if any(value is NotSet.Value for value in initvars):
+            raise TypeError("missing required argument for an InitVar")
         if orig_postinit:
-            orig_postinit(self)
+            orig_postinit(self, *initvars)
 
     cls.__post_init__ = __post_init__
 
@@ -96,8 +93,8 @@ def _process_class(cls, **kwargs):
 
     # After setting #Field.default for non-default fields, the default will be propagated
     # on the class level, so we delete that again from the class.
-    for key in no_default_fields:
-        if key in no_default_fields:
+    for key, f in no_default_fields.items():
+        if any(vars(cls).get(key) is x for x in (NotSet.Value, f)):
             delattr(cls, key)
 
     return cls
@@ -125,7 +122,5 @@ def field(*, annotations=None, metadata=None, **kwargs):
     """
 
     if annotations:
-        if metadata is None:
-            metadata = {}
-        metadata[ANNOTATIONS_METADATA_KEY] = annotations
+        metadata = {**(metadata or {}), ANNOTATIONS_METADATA_KEY: annotations}
     return dataclasses.field(**kwargs, metadata=metadata)
-- 
2.43.0


From 5db97bf47a3d9b1fe529bd99151a7a6fd2050f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 34/59] fix: respect the totality of the typed dict that
 defines a key

---
 databind/src/databind/core/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 87bd082..8b7d413 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -304,7 +304,7 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
         required = _is_required(field_hint, not has_default)
         fields[key] = Field(
             datatype=field_hint,
-            required=required and typed_dict.__total__,
+            required=required and key in typed_dict.__required_keys__,
             default=getattr(typed_dict, key) if has_default else None if not required else NotSet.Value,
             flattened=_is_flat(field_hint, False),
         )
-- 
2.43.0


From e7cff5a082779b8fa30b6402c641aaf8313fae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 35/59] fix: the UTC offset of time values was lost on
 deserialization

---
 databind/src/databind/core/settings.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 09bbe46..4c7216e 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -579,10 +579,10 @@ class DateFormat(Setting):
         for fmt in self.formats:
             if isinstance(fmt, str):
                 if fmt.startswith("."):
-                    yield self.__get_builtin_format(fmt)
+                    fmt = self.__get_builtin_format(fmt)
                 else:
                     yield type_.compile(fmt)  # type: ignore
-            elif type(fmt) is type_:
+            if type(fmt) is type_:
                 yield fmt
             elif isinstance(fmt, format_set):
                 yield from getattr(fmt, type_.__name__ + "s")
@@ -611,6 +611,9 @@ class DateFormat(Setting):
         }[type_]
         for fmt in self.__iter_formats(format_t):
             try:
+                if isinstance(fmt, time_format):
+                    # NOTE: time_format.parse_time() drops the UTC offset.
+                    return t.cast(DateFormat.T_Dtype, fmt.to_datetime_format().parse_datetime(value).timetz())
                 return t.cast(DateFormat.T_Dtype, getattr(fmt, method_name)(value))
             except ValueError:
                 pass
-- 
2.43.0


From ec3f4eb727efea7a0dfa79f2b89d736a600b2d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 36/59] fix: a format string for another date/time type made
 the other formats of a DateFormat unusable

---
 databind/src/databind/core/settings.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 4c7216e..b5b211f 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -581,7 +581,10 @@ class DateFormat(Setting):
                 if fmt.startswith("."):
                     fmt = self.__get_builtin_format(fmt)
                 else:
-                    yield type_.compile(fmt)  # type: ignore
+                    try:
+                        fmt = type_.compile(fmt)  # type: ignore
+                    except ValueError:
+                        continue  # Not applicable to this type of date/time value.
             if type(fmt) is type_:
                 yield fmt
             elif isinstance(fmt, format_set):
-- 
2.43.0


From 192b9851ba1dee9e539dff4652dd2c9ee5eb4522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 37/59] fix: converting a value that is not iterable to or from
 a collection raised TypeError instead of ConversionError

---
 databind/src/databind/json/converters.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 6bd2c28..b69781e 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -146,22 +146,21 @@ class CollectionConverter(Converter):
             def _length_check() -> None:
                 pass
 
-        values: t.Iterable[t.Any] = (
-            ctx.spawn(val, item_type, idx).convert()
-            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator))
-        )
+        def _convert_values() -> t.Iterator[t.Any]:
+            for idx, (val, item_type) in enumerate(zip(ctx.value, item_types_iterator)):
+                yield ctx.spawn(val, item_type, idx).convert()
 
         if ctx.direction == Direction.SERIALIZE:
             if not isinstance(ctx.value, python_type):
                 raise ConversionError.expected(self, ctx, python_type)
             _length_check()
-            return self.json_collection_type(values)  # type: ignore[call-arg]
+            return self.json_collection_type(_convert_values())  # type: ignore[call-arg]
 
         else:
             if not isinstance(ctx.value, t.Collection) or isinstance(ctx.value, self._FORBIDDEN_COLLECTIONS):
                 raise ConversionError.expected(self, ctx, t.Collection)
             _length_check()
-            values = list(values)
+            values = list(_convert_values())
             if python_type == list:
                 return values
             elif hasattr(python_type, "_fields"):  # For collections.namedtuple
-- 
2.43.0


From 76baa104110b7bbf41f2a9140578a41e970721f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 38/59] fix: report a mapping key that does not convert to a
 hashable value as ConversionError instead of TypeError

---
 databind/src/databind/json/converters.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index b69781e..7c260c2 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -357,8 +357,12 @@ class MappingConverter(Converter):
         result = {}
         for key, value in ctx.value.items():
             value = ctx.spawn(value, value_type, key).convert()
-            key = ctx.spawn(key, key_type, f"Key({key!r})").convert()
-            result[key] = value
+            key_ctx = ctx.spawn(key, key_type, f"Key({key!r})")
+            key = key_ctx.convert()
+            try:
+                result[key] = value
+            except TypeError as exc:  # The converted key is not hashable.
+                raise ConversionError(self, key_ctx, str(exc)) from exc
 
         if ctx.direction == Direction.DESERIALIZE and datatype.type != dict:
             # We assume that the runtime type is constructible from a plain dictionary.
-- 
2.43.0


From a44b1caca7630b5a9aa0bf17c51873d71fd94763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 39/59] fix: report unhashable items of a set as
 ConversionError instead of TypeError

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 7c260c2..6bb1bd3 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -170,7 +170,10 @@ class CollectionConverter(Converter):
                 return python_type(values)
             except TypeError:
                 if issubclass(python_type, t.AbstractSet):
-                    return set(values)
+                    try:
+                        return set(values)
+                    except TypeError as exc:  # There is an unhashable item.
+                        raise ConversionError(self, ctx, str(exc)) from exc
                 # We assume that the native list is an appropriate placeholder for whatever specific Collection type
                 # was chosen in the value's datatype.
                 return values
-- 
2.43.0


From 37e04e44c4be8c15691770150719adb9452764ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 40/59] fix: Settings.add_conditional() raised NameError

---
 databind/src/databind/core/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index b5b211f..9d43cad 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -70,7 +70,7 @@ class Settings(SettingsProvider):
     def add_conditional(self, predicate: t.Callable[["Context"], bool], setting: "Setting") -> None:
         """Adds a setting conditional on the given *predicate*."""
 
-        def _provider(context: Context) -> t.List[Setting]:
+        def _provider(context: "Context") -> "t.List[Setting]":
             if predicate(context):
                 return [setting]
             return []
-- 
2.43.0


From 65683f6f25d64ec635fd3fc161bf503177007696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 41/59] fix: support annotated members of a plain union

---
 databind/src/databind/json/converters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 6bb1bd3..c2ed472 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -823,9 +823,9 @@ class UnionConverter(Converter):
         elif isinstance(datatype, UnionTypeHint):
             if datatype.has_none_type():
                 raise NotImplementedError("unable to handle Union type with None in it")
-            if not all(isinstance(a, ClassTypeHint) for a in datatype):
+            if not all(isinstance(_unwrap_annotated(a), ClassTypeHint) for a in datatype):
                 raise NotImplementedError(f"members of plain Union must be concrete types: {datatype}")
-            members = {t.cast(ClassTypeHint, a).type.__name__: a for a in datatype}
+            members = {t.cast(ClassTypeHint, _unwrap_annotated(a)).type.__name__: a for a in datatype}
             if len(members) != len(datatype):
                 raise NotImplementedError(f"members of plain Union cannot have overlapping type names: {datatype}")
             union = Union(members, Union.BEST_MATCH)
-- 
2.43.0


From b119fc3e0f3d9a1f9dc00e12e422a43883d07028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 42/59] fix: keys of a typed dict that share their name with a
 method of dict had that method as the default

---
 databind/src/databind/core/schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 8b7d413..0b58ca0 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -300,7 +300,8 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
     for key in annotations:
         field_hint = TypeHint(annotations[key]).evaluate(eval_context)
 
-        has_default = hasattr(typed_dict, key)
+        # NOTE: The methods of #dict (e.g. for a key called "items") are not default values.
+        has_default = key in vars(typed_dict)
         required = _is_required(field_hint, not has_default)
         fields[key] = Field(
             datatype=field_hint,
-- 
2.43.0


From ab547eb55441797072936cc30147c30c131e8abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:06 +0000
Subject: [PATCH 43/59] fix: report fields that cannot be flattened as
 ConversionError

---
 databind/src/databind/json/converters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c2ed472..649b339 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -627,7 +627,10 @@ class SchemaConverter(Converter):
 
         result = {}
         flattened_remainder: t.Optional[t.Tuple[str, Field, t.Dict[str, t.Any]]] = None
-        expanded = get_fields_expanded(schema)
+        try:
+            expanded = get_fields_expanded(schema)
+        except (ValueError, RuntimeError) as exc:
+            raise ConversionError(self, ctx, str(exc)) from exc
         for field_name, field in schema.fields.items():
             if field.flattened:
                 assert field_name in expanded, field_name
-- 
2.43.0


From 059190c45ec0f5f6a512cdb7396b26a2e1ffaa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:33 +0000
Subject: [PATCH 44/59] fix: serializing flattened and remainder fields could
 yield a mapping that is deserialized differently

---
 databind/src/databind/json/converters.py | 49 ++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 649b339..b5f9bec 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -501,6 +501,45 @@ class SchemaConverter(Converter):
         except ValueError as exc:
             raise NotImplementedError(str(exc))
 
+    def _get_expanded_fields(self, fields: t.Mapping[str, Field]) -> t.List[t.Tuple[str, Field]]:
+        """Returns the *fields* with flattened fields replaced by their sub fields."""
+
+        result = []
+        for field_name, field in fields.items():
+            if field.flattened:
+                try:
+                    result += self._get_expanded_fields(self.convert_to_schema(field.datatype).fields)
+                except ValueError:
+                    pass  # Not a schema.
+            else:
+                result.append((field_name, field))
+        return result
+
+    def _check_expanded_fields(
+        self, ctx: Context, schema: Schema, keys: t.Mapping[str, t.AbstractSet[str]]
+    ) -> None:
+        """Ensure that the mapping that results from expanding flattened and remainder fields is not understood
+        differently on deserialization. *keys* contains the keys in the mapping that originate from each field."""
+
+        remainder_field: t.Optional[str] = None
+        for owner, owner_field in schema.fields.items():
+            other_keys = {k for name in keys if name != owner for k in keys[name]}
+            for field_name, field in self._get_expanded_fields({owner: owner_field}):
+                field_ctx = ctx.spawn(None, field.datatype, field_name)
+                remainder = field_ctx.get_setting(Remainder)
+                if remainder and remainder.enabled:
+                    if remainder_field is not None:
+                        raise ConversionError(
+                            self, ctx, f"found at least two remainder fields ({remainder_field!r}, {field_name!r})"
+                        )
+                    remainder_field = field_name
+                    continue
+                aliases = self._get_alias_setting(field_ctx, field_name).aliases
+                if aliases[0] not in keys.get(owner, ()) and not other_keys.isdisjoint(aliases):
+                    raise ConversionError(
+                        self, ctx, f"field {field_name!r} is left out but one of its keys {aliases} is used otherwise"
+                    )
+
     def serialize_from_schema(self, ctx: Context, schema: Schema) -> t.MutableMapping[str, t.Any]:
         try:
             is_instance = isinstance(ctx.value, schema.type)
@@ -521,6 +560,8 @@ class SchemaConverter(Converter):
 
         remainder_field: t.Optional[t.Tuple[str, Field]] = None
         remainder_values: t.Optional[t.Mapping[str, t.Any]] = None
+        expanded_keys: t.Dict[str, t.AbstractSet[str]] = {}
+        has_expanded_fields = False
 
         for field_name, field in schema.fields.items():
             if isinstance(ctx.value, t.Mapping) and field_name not in ctx.value:
@@ -547,6 +588,8 @@ class SchemaConverter(Converter):
                         f"cannot expand remainder field {field_name!r} of type {type(value).__name__}",
                     )
                 remainder_values = value
+                expanded_keys[field_name] = value.keys()
+                has_expanded_fields = True
             elif field.flattened:
                 if not isinstance(value, t.Mapping):
                     raise ConversionError(
@@ -561,6 +604,8 @@ class SchemaConverter(Converter):
                         self, field_ctx, f"keys in flattened field collide with other fields: {duplicate_keys}"
                     )
                 result.update(value)
+                expanded_keys[field_name] = value.keys()
+                has_expanded_fields = True
             else:
                 if (
                     serialize_defaults
@@ -572,6 +617,7 @@ class SchemaConverter(Converter):
                     if alias in result:
                         raise ConversionError(self, field_ctx, f"key {alias!r} is used by more than one field")
                     result[alias] = value
+                    expanded_keys[field_name] = {alias}
 
         if remainder_field:
             assert remainder_values is not None
@@ -582,6 +628,9 @@ class SchemaConverter(Converter):
                 )
             result.update(remainder_values)
 
+        if has_expanded_fields:
+            self._check_expanded_fields(ctx, schema, expanded_keys)
+
         return result
 
     def deserialize_from_schema(self, ctx: Context, schema: Schema) -> t.Any:
-- 
2.43.0


From 885adc61c325050f87301b1b34a8a329b1a788bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:11 +0000
Subject: [PATCH 45/59] fix: values and mapping keys that have no repr() broke
 the conversion error about them

---
 databind/src/databind/core/context.py    |  4 +++-
 databind/src/databind/core/utils.py      | 10 ++++++++++
 databind/src/databind/json/converters.py | 14 ++++++++------
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/databind/src/databind/core/context.py b/databind/src/databind/core/context.py
index 2238041..6fba44d 100644
--- a/databind/src/databind/core/context.py
+++ b/databind/src/databind/core/context.py
@@ -4,6 +4,8 @@ import typing as t
 
 from typeapi import TypeHint
 
+from databind.core.utils import safe_repr
+
 if t.TYPE_CHECKING:
     from databind.core.settings import SettingsProvider, T_Setting
 
@@ -148,7 +150,7 @@ def format_context_trace(ctx: Context) -> str:
         elif ctx.key is None:
             key = "^"
         else:
-            key = f"[{ctx.key!r}]"
+            key = f"[{safe_repr(ctx.key)}]"
 
         line = f"  {key}: {ctx.datatype}"
         if ctx.location.line or ctx.location.column:
diff --git a/databind/src/databind/core/utils.py b/databind/src/databind/core/utils.py
index 9f5b53f..8e62a11 100644
--- a/databind/src/databind/core/utils.py
+++ b/databind/src/databind/core/utils.py
@@ -31,6 +31,16 @@ def exception_safe_str(func: Callable[[T], str]) -> Callable[[T], str]:
     return wrapper
 
 
+def safe_repr(value: object) -> str:
+    """Like #repr(), but for use in error messages about arbitrary values: it also works for an object of which the
+    `__repr__()` fails, or an integer with too many digits to be converted to text."""
+
+    try:
+        return repr(value)
+    except Exception:
+        return object.__repr__(value)
+
+
 _T = TypeVar("_T")
 _Message = Union[str, Callable[[], str]]
 _Types = Union[type, Tuple[type, ...]]
diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index b5f9bec..c93037a 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -37,6 +37,7 @@ from databind.core import (
     get_annotation_setting,
     get_fields_expanded,
 )
+from databind.core.utils import safe_repr
 
 T = t.TypeVar("T")
 
@@ -327,7 +328,7 @@ class EnumConverter(Converter):
                 try:
                     return enum_type[value]
                 except KeyError:
-                    raise ConversionError(self, ctx, f"{value!r} is not a member of enumeration {datatype}")
+                    raise ConversionError(self, ctx, f"{safe_repr(value)} is not a member of enumeration {datatype}")
             assert False, enum_type
 
 
@@ -360,7 +361,7 @@ class MappingConverter(Converter):
         result = {}
         for key, value in ctx.value.items():
             value = ctx.spawn(value, value_type, key).convert()
-            key_ctx = ctx.spawn(key, key_type, f"Key({key!r})")
+            key_ctx = ctx.spawn(key, key_type, f"Key({safe_repr(key)})")
             key = key_ctx.convert()
             try:
                 result[key] = value
@@ -854,7 +855,9 @@ class UnionConverter(Converter):
                 )
             member_name = next(iter(value))
             if not isinstance(member_name, str):
-                raise ConversionError(self, ctx, f"expected a string as the discriminator key, got {member_name!r}")
+                raise ConversionError(
+                    self, ctx, f"expected a string as the discriminator key, got {safe_repr(member_name)}"
+                )
         else:
             raise ConversionError(self, ctx, f"unsupported Union.style: {style!r}")
 
@@ -978,10 +981,9 @@ class LiteralConverter(Converter):
             raise NotImplementedError
 
         if ctx.value not in datatype.values:
+            expected = "|".join(map(safe_repr, datatype.values))
             raise ConversionError(
-                self,
-                ctx,
-                f"literal value mismatch: got {ctx.value!r}, expected {'|'.join(map(repr, datatype.values))}",
+                self, ctx, f"literal value mismatch: got {safe_repr(ctx.value)}, expected {expected}"
             )
 
         return ctx.value
-- 
2.43.0


From fac60e216b948608cac49de6ff75377a286607f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:04 +0000
Subject: [PATCH 46/59] fix: threads that evaluated a deferred union member at
 the same time could get different types

---
 databind/src/databind/core/union.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/databind/src/databind/core/union.py b/databind/src/databind/core/union.py
index 1ed5b28..50655d4 100644
--- a/databind/src/databind/core/union.py
+++ b/databind/src/databind/core/union.py
@@ -88,7 +88,7 @@ class StaticUnionMembers(UnionMembers):
     members: _MembersDictType = dataclasses.field(default_factory=dict)
 
     def __post_init__(self) -> None:
-        self._eval_cache: t.Dict[str, t.Tuple[types.FunctionType, StaticUnionMembers._TypeType]] = {}
+        self._eval_cache: t.Dict[types.FunctionType, StaticUnionMembers._TypeType] = {}
 
     def get_type_id(self, type_: t.Any) -> str:
         for type_id in list(self.members):
@@ -108,10 +108,10 @@ class StaticUnionMembers(UnionMembers):
             raise ValueError(f"{type_id!r} is not a type ID of {self}")
 
         if isinstance(member, types.FunctionType):
-            cached = self._eval_cache.get(type_id)
-            if cached is None or cached[0] is not member:
-                cached = self._eval_cache[type_id] = (member, member())
-            return cached[1]
+            if member not in self._eval_cache:
+                # If several threads evaluate the function at the same time, all of them must return the same result.
+                self._eval_cache.setdefault(member, member())
+            return self._eval_cache[member]
 
         return member
 
-- 
2.43.0


From 4a52249d97bb565163534c2c5acefacde0e30850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 47/59] fix: the schema of a dataclass contained fields that it
 re-declares as class variables

---
 databind/src/databind/core/schema.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 0b58ca0..f1082c4 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -180,12 +180,14 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
     # This is important because we need to use the correct context when evaluating
     # forward references in field annotations; we can't just use the target
     # dataclass if it was defined in a different module.
+    # Fields of base classes that the target dataclass re-declares as class variables are not fields anymore.
+    field_names = {field.name for field in dataclasses.fields(dataclass_type)}
     field_origin: t.Dict[str, type] = {}
     for base_type in hint.type.__mro__:
         if dataclasses.is_dataclass(base_type):
             annotations = get_annotations(base_type)
             for field in dataclasses.fields(base_type):
-                if field.name in annotations and field.name not in field_origin:
+                if field.name in field_names and field.name in annotations and field.name not in field_origin:
                     field_origin[field.name] = base_type
 
     # Retrieve the context in which type hints from each field origin type need to be
@@ -214,7 +216,7 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
                 if field.name in fields:
                     # Subclasses override their parent's fields.
                     continue
-                if field_origin[field.name] != hint.type:
+                if field_origin.get(field.name) != hint.type:
                     # If this field does not belong to the current type
                     continue
 
-- 
2.43.0


From 57f82fa88edf7e2d6b08fff663e9390a2e079a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 48/59] fix: forward references of inherited typed dict keys
 were evaluated in the wrong module

---
 databind/src/databind/core/schema.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index f1082c4..0c2f38d 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -295,12 +295,12 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
 
     assert is_typed_dict(typed_dict), typed_dict
 
-    eval_context = vars(sys.modules[typed_dict.__module__])
-
     annotations = get_annotations(t.cast(type, typed_dict))
     fields: t.Dict[str, Field] = {}
     for key in annotations:
-        field_hint = TypeHint(annotations[key]).evaluate(eval_context)
+        # A key may be inherited from a typed dict in another module, in which case its forward reference knows of it.
+        module_name = getattr(annotations[key], "__forward_module__", None) or typed_dict.__module__
+        field_hint = TypeHint(annotations[key]).evaluate(vars(sys.modules[module_name]))
 
         # NOTE: The methods of #dict (e.g. for a key called "items") are not default values.
         has_default = key in vars(typed_dict)
-- 
2.43.0


From ea845e3596b942df0a9dff6b652b75a5f0cd00d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 49/59] fix: named tuples ignored the defaults of their fields
 and their type arguments, and failed for subclasses

---
 databind/src/databind/core/schema.py     | 37 ++++++++++++++++++++++++
 databind/src/databind/json/converters.py | 25 +++++-----------
 2 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 0c2f38d..6e310e4 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -315,6 +315,43 @@ def convert_typed_dict_to_schema(typed_dict: t.Union[TypedDictProtocol, t.Type[t
     return Schema(fields, t.cast("Constructor", typed_dict), t.cast(type, typed_dict))
 
 
+def convert_namedtuple_to_schema(hint: ClassTypeHint) -> Schema:
+    """Converts a #typing.NamedTuple, or a subclass of one, to a #Schema.
+
+    Raises:
+      ValueError: If the *hint* is not a named tuple, or if there is no type information for its fields.
+    """
+
+    origins = {key: base for base in reversed(hint.type.__mro__) for key in vars(base).get("__annotations__", ())}
+    names: t.Sequence[str] = getattr(hint.type, "_fields", ())
+    if not issubclass(hint.type, tuple) or not names or not origins.keys() >= set(names):
+        raise ValueError(f"cannot be converted to a schema (not a typing.NamedTuple): {type_repr(hint)}")
+
+    fields: t.Dict[str, Field] = {}
+    for name in names:
+        # We need to evaluate the type hint to remove forward references. The source is needed to understand the
+        # context in which forward references must be evaluated.
+        origin = origins[name]
+        origin_hint = hint
+        while origin_hint.type != origin:
+            # NOTE: #ClassTypeHint.bases does not work here, because the original base of a class may be #typing.NamedTuple.
+            subclass, parameter_map = origin_hint.type, origin_hint.get_parameter_map()
+            for base in vars(subclass).get("__orig_bases__", subclass.__bases__):
+                base_hint = TypeHint(base, source=subclass)
+                if isinstance(base_hint, ClassTypeHint) and issubclass(base_hint.type, origin):
+                    origin_hint = t.cast(ClassTypeHint, base_hint.evaluate().parameterize(parameter_map))
+                    break
+        datatype = TypeHint(vars(origin)["__annotations__"][name], source=origin).evaluate()
+        default = getattr(hint.type, "_field_defaults", {}).get(name, NotSet.Value)
+        fields[name] = Field(
+            datatype=datatype.parameterize(origin_hint.get_parameter_map()),
+            required=default is NotSet.Value,
+            default=default,
+        )
+
+    return Schema(fields, hint.type, hint.type)
+
+
 def _is_required(datatype: TypeHint, default: bool) -> bool:
     """If *datatype* is a #AnnotatedTypeHint instance, it will look for a #Required settings instance and returns
     that instances #Required.enabled value. Otherwise, it returns *default*."""
diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index c93037a..7e566de 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -37,6 +37,7 @@ from databind.core import (
     get_annotation_setting,
     get_fields_expanded,
 )
+from databind.core.schema import convert_namedtuple_to_schema
 from databind.core.utils import safe_repr
 
 T = t.TypeVar("T")
@@ -93,23 +94,13 @@ class CollectionConverter(Converter):
             raise NotImplementedError
 
         # NamedTuples with type information are a lot like data classes, so we delegate to the SchemaConverter.
-        if (
-            isinstance(datatype, ClassTypeHint)
-            and issubclass(datatype.type, tuple)
-            and getattr(datatype.type, "__annotations__", None)
-        ):
-            schema = Schema(
-                fields={
-                    name: Field(
-                        # We need to evaluate the type hint to remove forward references. The source is needed to
-                        # understand the context in which forward references must be evaluated.
-                        datatype=TypeHint(type_, source=datatype.type).evaluate(),
-                    )
-                    for name, type_ in getattr(datatype.type, "__annotations__").items()
-                },
-                constructor=datatype.type,
-                type=datatype.type,
-            )
+        schema: t.Optional[Schema] = None
+        if isinstance(datatype, ClassTypeHint):
+            try:
+                schema = convert_namedtuple_to_schema(datatype)
+            except ValueError:
+                pass
+        if schema is not None:
             if ctx.direction.is_serialize():
                 return SchemaConverter().serialize_from_schema(ctx, schema)
             elif ctx.direction.is_deserialize():
-- 
2.43.0


From 386277d599799fb99f091e7554ab4d69944a0bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 50/59] fix: the schema of a dataclass did not contain the
 fields of a generic base class without type arguments

---
 databind/src/databind/core/schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 6e310e4..934fa9a 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -243,8 +243,8 @@ def convert_dataclass_to_schema(dataclass_type: t.Union[type, GenericAlias, Clas
             # are overwritten by other fields.
             pass
 
-        # Continue with the base classes.
-        for base in hint.bases or hint.type.__bases__:
+        # Continue with the base classes. Note that a class without generic bases inherits the attribute from its base.
+        for base in vars(hint.type).get("__orig_bases__", hint.type.__bases__):
             base_hint = TypeHint(base, source=hint.type).evaluate().parameterize(parameter_map)
             assert isinstance(base_hint, ClassTypeHint), f"nani? {base_hint}"
             if dataclasses.is_dataclass(base_hint.type):
-- 
2.43.0


From b22efcf3734493c101eeca3372baa490d3ba0f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 51/59] fix: dataclass() removed the slots and descriptors of
 fields without default

---
 databind/src/databind/core/dataclasses.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index ed654b2..7577a11 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -58,12 +58,17 @@ def _process_class(cls, **kwargs):
     # Collect the fields that have no default values, but may follow after a default argument.
     no_default_fields: t.Dict[str, Field] = {}
 
+    # Slots and other descriptors that have no value on the class, but that must be kept.
+    descriptors: t.Dict[str, t.Any] = {}
+
     # Make sure each annotated field actually has a #Field. For fields without
     # defaults, we will set #Field.default to #NotSet.Value so we can later
     # check if the field was set in __post_init__().
     for key in cls.__dict__.get("__annotations__", {}):
         f = getattr(cls, key, MISSING)
         if f is MISSING or isinstance(f, types.MemberDescriptorType):
+            if key in vars(cls):
+                descriptors[key] = vars(cls)[key]
             f = field()
             setattr(cls, key, f)
         elif not isinstance(f, Field):
@@ -95,7 +100,10 @@ def _process_class(cls, **kwargs):
     # on the class level, so we delete that again from the class.
     for key, f in no_default_fields.items():
         if any(vars(cls).get(key) is x for x in (NotSet.Value, f)):
-            delattr(cls, key)
+            if key in descriptors:
+                setattr(cls, key, descriptors[key])
+            else:
+                delattr(cls, key)
 
     return cls
 
-- 
2.43.0


From 8dad94a52be5999bd618ccb3f7b11c058d2878ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 52/59] fix: the DeserializeAs setting was ignored for most
 types and hid the settings of the target type

---
 databind/src/databind/json/module.py | 37 +++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/json/module.py b/databind/src/databind/json/module.py
index 371911a..137204a 100644
--- a/databind/src/databind/json/module.py
+++ b/databind/src/databind/json/module.py
@@ -1,7 +1,11 @@
-from typing import Iterator
+from typing import Any, Iterator
+
+from typeapi import AnnotatedTypeHint, TypeHint, UnionTypeHint
+from typing_extensions import Annotated
 
 from databind.core.context import Context
 from databind.core.converter import Converter, Module
+from databind.core.settings import DeserializeAs, get_annotation_setting
 from databind.json.settings import JsonConverter
 
 
@@ -56,6 +60,37 @@ class JsonModule(Module):
 
         self.register(JsonConverterSupport(), first=True)
 
+    def get_converters(self, ctx: Context) -> Iterator[Converter]:
+        if DeserializeAsConverter.is_applicable(ctx):
+            # The type of the hint, and what is attached to it, does not matter.
+            yield DeserializeAsConverter()
+        else:
+            yield from super().get_converters(ctx)
+
+
+class DeserializeAsConverter(Converter):
+    """
+    Handles type hints that are annotated with the DeserializeAs setting.
+    """
+
+    @staticmethod
+    def is_applicable(ctx: Context) -> bool:
+        if not isinstance(ctx.datatype, AnnotatedTypeHint):
+            return False
+        if get_annotation_setting(ctx.datatype, DeserializeAs) is None:
+            return False
+        # The setting is passed on to the value of an optional.
+        datatype = ctx.datatype[0]
+        return not isinstance(datatype, UnionTypeHint) or not datatype.has_none_type()
+
+    def convert(self, ctx: Context) -> Any:
+        assert isinstance(ctx.datatype, AnnotatedTypeHint), ctx.datatype
+        setting = get_annotation_setting(ctx.datatype, DeserializeAs)
+        assert setting is not None, ctx.datatype
+        metadata = tuple(x for x in ctx.datatype.metadata if not isinstance(x, DeserializeAs))
+        hint = Annotated[(setting.type, *metadata)] if metadata else setting.type  # type: ignore[misc]
+        return ctx.spawn(ctx.value, TypeHint(hint), None).convert()
+
 
 class JsonConverterSupport(Module):
     """
-- 
2.43.0


From 8daea74d0b87f954777cdc88e74fb3ca844552d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 53/59] fix: flattened fields with the DeserializeAs setting
 were expanded as the type of the field

---
 databind/src/databind/core/schema.py     | 11 ++++++++++-
 databind/src/databind/json/converters.py |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 934fa9a..4739e05 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -376,6 +376,15 @@ def _is_flat(datatype: TypeHint, default: bool) -> bool:
     return (get_annotation_setting(datatype, Flattened) or Flattened(default)).enabled
 
 
+def get_flattened_type(field: Field) -> TypeHint:
+    """Returns the type of which the fields are expanded in place of the flattened *field*."""
+
+    from databind.core.settings import DeserializeAs, get_annotation_setting
+
+    deserialize_as = get_annotation_setting(field.datatype, DeserializeAs)
+    return field.datatype if deserialize_as is None else TypeHint(deserialize_as.type)
+
+
 def get_fields_expanded(
     schema: Schema,
     convert_to_schema: t.Callable[[TypeHint], Schema] = convert_to_schema,
@@ -425,7 +434,7 @@ def get_fields_expanded(
     result = {}
     for field_name, field in schema.fields.items():
         if field.flattened:
-            field_schema = convert_to_schema(field.datatype)
+            field_schema = convert_to_schema(get_flattened_type(field))
             result[field_name] = {
                 **{k: v for k, v in field_schema.fields.items() if not v.flattened},
                 **{k: v for sf in get_fields_expanded(field_schema).values() for k, v in sf.items()},
diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 7e566de..1930fa9 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -37,7 +37,7 @@ from databind.core import (
     get_annotation_setting,
     get_fields_expanded,
 )
-from databind.core.schema import convert_namedtuple_to_schema
+from databind.core.schema import convert_namedtuple_to_schema, get_flattened_type
 from databind.core.utils import safe_repr
 
 T = t.TypeVar("T")
@@ -500,7 +500,7 @@ class SchemaConverter(Converter):
         for field_name, field in fields.items():
             if field.flattened:
                 try:
-                    result += self._get_expanded_fields(self.convert_to_schema(field.datatype).fields)
+                    result += self._get_expanded_fields(self.convert_to_schema(get_flattened_type(field)).fields)
                 except ValueError:
                     pass  # Not a schema.
             else:
-- 
2.43.0


From c829adfa494a2330ab298d906d2673cc65f842c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:41 +0000
Subject: [PATCH 54/59] fix: dataclass() could not redefine a field that
 required fields of a standard dataclass follow

---
 databind/src/databind/core/dataclasses.py | 24 +++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/databind/src/databind/core/dataclasses.py b/databind/src/databind/core/dataclasses.py
index 7577a11..52ed1c4 100644
--- a/databind/src/databind/core/dataclasses.py
+++ b/databind/src/databind/core/dataclasses.py
@@ -74,10 +74,23 @@ def _process_class(cls, **kwargs):
         elif not isinstance(f, Field):
             continue
         if f.init and not _field_has_default(f):
-            # This prevents a SyntaxError if non-default arguments follow default arguments.
-            f.default = NotSet.Value
             no_default_fields[key] = f
 
+    # This prevents a SyntaxError if non-default arguments follow default arguments. Fields that override a field
+    # of a base class take its place, and must not get a default if non-default arguments of the base class follow.
+    inherited: t.Dict[str, Field] = {}
+    for base in reversed(cls.__mro__[1:]):
+        inherited.update(vars(base).get("__dataclass_fields__", {}))
+    followed_by_required = False
+    for key in [*no_default_fields.keys() - inherited.keys(), *reversed(inherited)]:
+        if key in no_default_fields:
+            if not followed_by_required:
+                no_default_fields[key].default = NotSet.Value
+        elif key not in cls.__dict__.get("__annotations__", {}):
+            f = inherited[key]
+            if f.init and not getattr(f, "kw_only", False) and not _field_has_default(f):
+                followed_by_required = True
+
     # Override the `__post_init__` method that is called by the dataclass `__init__`.
     orig_postinit = getattr(cls, "__post_init__", None)
 
@@ -100,10 +113,9 @@ def _process_class(cls, **kwargs):
     # on the class level, so we delete that again from the class.
     for key, f in no_default_fields.items():
         if any(vars(cls).get(key) is x for x in (NotSet.Value, f)):
-            if key in descriptors:
-                setattr(cls, key, descriptors[key])
-            else:
-                delattr(cls, key)
+            delattr(cls, key)
+        if key in descriptors and key not in vars(cls) and not kwargs.get("slots"):
+            setattr(cls, key, descriptors[key])
 
     return cls
 
-- 
2.43.0


From d084ec3286932e1c9c9f7bf724d31bae0b02151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 55/59] fix: collections and mappings of types with unhashable
 metadata could not be converted

---
 databind/src/databind/json/converters.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/databind/src/databind/json/converters.py b/databind/src/databind/json/converters.py
index 1930fa9..3c5a023 100644
--- a/databind/src/databind/json/converters.py
+++ b/databind/src/databind/json/converters.py
@@ -122,16 +122,18 @@ class CollectionConverter(Converter):
                     )
 
         else:
-            candidates = set()
+            # NOTE: Type arguments are not hashable if their metadata is not.
+            candidates: t.List[t.Any] = []
             for current in datatype.recurse_bases():
                 if issubclass(current.type, t.Collection) and len(current.args) == 1:
-                    candidates.add(current.args[0])
+                    if current.args[0] not in candidates:
+                        candidates.append(current.args[0])
             if len(candidates) == 0:
                 raise ConversionError(self, ctx, f"could not find item type in {datatype}")
             elif len(candidates) > 1:
                 raise ConversionError(self, ctx, f"found multiple item types in {datatype}: {candidates}")
 
-            item_type = TypeHint(next(iter(candidates)))
+            item_type = TypeHint(candidates[0])
             item_types_iterator = iter(lambda: item_type, None)
             python_type = datatype.type
 
@@ -335,16 +337,17 @@ class MappingConverter(Converter):
             raise NotImplementedError
         if is_typed_dict(datatype.type):
             raise NotImplementedError  # Typed dicts have a schema.
-        candidates = set()
+        candidates: t.List[t.Any] = []
         for current in datatype.recurse_bases():
             if issubclass(current.type, t.Mapping) and len(current.args) == 2:
-                candidates.add(current.args)
+                if current.args not in candidates:
+                    candidates.append(current.args)
         if len(candidates) == 0:
             raise ConversionError(self, ctx, f"could not find key/value type in {datatype}")
         elif len(candidates) > 1:
             raise ConversionError(self, ctx, f"found multiple key/value types in {datatype}: {candidates}")
 
-        key_type, value_type = next(iter(candidates))
+        key_type, value_type = candidates[0]
 
         if not isinstance(ctx.value, t.Mapping):
             raise ConversionError.expected(self, ctx, t.Mapping)
-- 
2.43.0


From 9681c6e9a8e627eb69223b6aa29056712e056e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 56/59] fix: settings providers of length zero were ignored

---
 databind/src/databind/core/mapper.py   | 4 ++--
 databind/src/databind/core/settings.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/databind/src/databind/core/mapper.py b/databind/src/databind/core/mapper.py
index f9e909c..3d13e65 100644
--- a/databind/src/databind/core/mapper.py
+++ b/databind/src/databind/core/mapper.py
@@ -21,7 +21,7 @@ class ObjectMapper(t.Generic[T, U]):
 
         assert isinstance(settings, (type(None), Settings)), settings
         self.module = Module("ObjectMapper.module")
-        self.settings = settings or Settings()
+        self.settings = Settings() if settings is None else settings
 
     def copy(self) -> "ObjectMapper[T, U]":
         new = type(self)(self.settings.copy())
@@ -67,7 +67,7 @@ class ObjectMapper(t.Generic[T, U]):
             direction=direction,
             value=value,
             datatype=datatype,
-            settings=settings or self.settings,
+            settings=self.settings if settings is None else settings,
             key=Context.ROOT,
             location=location or Location.EMPTY,
             convert_func=self.module.convert,
diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 9d43cad..0ae5248 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -121,7 +121,7 @@ class Settings(SettingsProvider):
             for provider in self.providers:
                 yield from provider(context)
             yield from self.global_settings
-            if self.parent:
+            if self.parent is not None:
                 setting = self.parent.get_setting(context, setting_type)
                 if setting is not None:
                     yield setting
-- 
2.43.0


From 7d24613bc216170a5bbd763a200c1aa575b78a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 57/59] fix: copies of mappers whose constructor registers
 converters asked them in a different order

---
 databind/src/databind/core/mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/mapper.py b/databind/src/databind/core/mapper.py
index 3d13e65..b892037 100644
--- a/databind/src/databind/core/mapper.py
+++ b/databind/src/databind/core/mapper.py
@@ -25,7 +25,8 @@ class ObjectMapper(t.Generic[T, U]):
 
     def copy(self) -> "ObjectMapper[T, U]":
         new = type(self)(self.settings.copy())
-        new.module.converters.extend(self.module.converters)
+        # NOTE: The constructor of a subclass may have registered converters already.
+        new.module.converters[:] = self.module.converters
         return new
 
     def convert(
-- 
2.43.0


From 1ac79e279e116834f55f3a2c93d65c449480a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:01 +0000
Subject: [PATCH 58/59] fix: support typing.NamedTuple classes without fields

---
 databind/src/databind/core/schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/databind/src/databind/core/schema.py b/databind/src/databind/core/schema.py
index 4739e05..74d7e2b 100644
--- a/databind/src/databind/core/schema.py
+++ b/databind/src/databind/core/schema.py
@@ -323,8 +323,8 @@ def convert_namedtuple_to_schema(hint: ClassTypeHint) -> Schema:
     """
 
     origins = {key: base for base in reversed(hint.type.__mro__) for key in vars(base).get("__annotations__", ())}
-    names: t.Sequence[str] = getattr(hint.type, "_fields", ())
-    if not issubclass(hint.type, tuple) or not names or not origins.keys() >= set(names):
+    names: t.Optional[t.Sequence[str]] = getattr(hint.type, "_fields", None)
+    if not issubclass(hint.type, tuple) or names is None or not origins.keys() >= set(names):
         raise ValueError(f"cannot be converted to a schema (not a typing.NamedTuple): {type_repr(hint)}")
 
     fields: t.Dict[str, Field] = {}
-- 
2.43.0


From 156a4dc9cbd60d309a92e2dcb7c206a578cdfd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:18 +0000
Subject: [PATCH 59/59] fix: dates and times of a subclass could not be
 formatted

---
 databind/src/databind/core/settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/databind/src/databind/core/settings.py b/databind/src/databind/core/settings.py
index 0ae5248..5c7b30d 100644
--- a/databind/src/databind/core/settings.py
+++ b/databind/src/databind/core/settings.py
@@ -637,11 +637,13 @@ class DateFormat(Setting):
         from nr.date import date_format, datetime_format, time_format
 
         format_t: t.Type[DateFormat.Formatter]
+        # NOTE: The value may be of a subclass, and a datetime is also a date.
+        dtype = next(x for x in (datetime.datetime, datetime.date, datetime.time) if isinstance(dt, x))
         format_t, method_name = {  # type: ignore
             datetime.date: (date_format, "format_date"),
             datetime.time: (time_format, "format_time"),
             datetime.datetime: (datetime_format, "format_datetime"),
-        }[type(dt)]
+        }[dtype]
         for fmt in self.__iter_formats(format_t):
             try:
                 return t.cast(str, getattr(fmt, method_name)(dt))
-- 
2.43.0

