From ceef0d25ecdc5f71f4665ee80dd67828693a9792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:57 +0000
Subject: [PATCH 01/78] fix: keep evaluation context when serializing an
 annotated forward reference

---
 strong_typing/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 8b14156..afc7fd0 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -490,7 +490,7 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
         return LiteralSerializer(typing.get_args(typ), context)
 
     if is_type_annotated(typ):
-        return create_serializer(unwrap_annotated_type(typ))
+        return _get_serializer(unwrap_annotated_type(typ), context)
 
     # check if object has custom serialization method
     convert_func = getattr(typ, "to_json", None)
-- 
2.43.0


From 75898f33c1fd3745221a67eb7a426d1688e977f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:04 +0000
Subject: [PATCH 02/78] fix: support recursive types in serialization

---
 strong_typing/serializer.py | 41 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index afc7fd0..06c4986 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -14,6 +14,7 @@ import functools
 import inspect
 import ipaddress
 import sys
+import threading
 import types
 import typing
 import uuid
@@ -262,6 +263,22 @@ class CustomSerializer(Serializer):
         return self.converter(obj)
 
 
+class DeferredSerializer(Serializer[T]):
+    """
+    Delegates to the serializer of a type that is still under construction.
+
+    Breaks the cycle in recursive types.
+    """
+
+    class_type: type[T]
+
+    def __init__(self, class_type: type[T]) -> None:
+        self.class_type = class_type
+
+    def generate(self, data: T) -> JsonType:
+        return _fetch_serializer(self.class_type).generate(data)
+
+
 class FieldSerializer(Generic[T]):
     """
     Serializes a Python object field into a JSON property.
@@ -414,16 +431,38 @@ def _get_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
         typ = evaluate_type(typ, context)
 
     if isinstance(typ, type):
+        if typ in _get_pending_types():
+            # avoid infinite recursion for recursive types
+            return DeferredSerializer(typ)
+
         return _fetch_serializer(typ)
     else:
         # special forms are not always hashable
         return _create_serializer(typ, context)
 
 
+_PENDING = threading.local()
+
+
+def _get_pending_types() -> set[type]:
+    "Types for which the current thread is in the process of constructing a serializer."
+
+    pending_types: Optional[set[type]] = getattr(_PENDING, "types", None)
+    if pending_types is None:
+        pending_types = set()
+        _PENDING.types = pending_types
+    return pending_types
+
+
 @functools.lru_cache(maxsize=None)
 def _fetch_serializer(typ: type) -> Serializer:
     context = sys.modules[typ.__module__]
-    return _create_serializer(typ, context)
+    pending_types = _get_pending_types()
+    pending_types.add(typ)
+    try:
+        return _create_serializer(typ, context)
+    finally:
+        pending_types.discard(typ)
 
 
 def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
-- 
2.43.0


From e8ab58a665ac127d2ae9d187c82c1692fe9dd5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:34 +0000
Subject: [PATCH 03/78] fix: de-serializer cache mixes up options, same-named
 types and incomplete entries

---
 strong_typing/deserializer.py | 59 ++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 16a0d69..8412297 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -15,6 +15,7 @@ import inspect
 import ipaddress
 import re
 import sys
+import threading
 import types
 import typing
 import uuid
@@ -825,43 +826,62 @@ def create_deserializer(
 
     if options is None:
         options = DeserializerOptions()
+    else:
+        # a cached de-serializer must not be affected if the caller modifies the options later
+        options = dataclasses.replace(options)
 
     return _get_deserializer(typ, context, options)
 
 
-_CACHE: dict[tuple[str, str], Deserializer] = {}
+# fully constructed de-serializers by type (or forward reference) and options
+_CACHE: dict[tuple[Any, ...], Deserializer] = {}
+
+# de-serializers under construction, visible only to the thread that holds the lock
+_PENDING: dict[tuple[Any, ...], Deserializer] = {}
+_CACHE_LOCK = threading.RLock()
 
 
 def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: DeserializerOptions) -> Deserializer:
     "Creates or re-uses a de-serializer engine to parse an object obtained from a JSON string."
 
-    cache_key = None
+    cache_key: Optional[tuple[Any, ...]] = None
 
     if isinstance(typ, (str, typing.ForwardRef)):
         if context is None:
             raise TypeError(f"missing context for evaluating type: {typ}")
 
-        if isinstance(typ, str):
-            if hasattr(context, typ):
-                cache_key = (context.__name__, typ)
-        elif isinstance(typ, typing.ForwardRef):
-            if hasattr(context, typ.__forward_arg__):
-                cache_key = (context.__name__, typ.__forward_arg__)
+        ref = typ.__forward_arg__ if isinstance(typ, typing.ForwardRef) else typ
+        if hasattr(context, ref):
+            cache_key = (context, ref, options.skip_unassigned)
 
         typ = evaluate_type(typ, context)
 
     typ = unwrap_annotated_type(typ) if is_type_annotated(typ) else typ
 
     if isinstance(typ, type) and typing.get_origin(typ) is None:
-        cache_key = (typ.__module__, typ.__name__)
+        cache_key = (typ, options.skip_unassigned)
+
+    if cache_key is None:
+        # special forms are not always hashable, create a new de-serializer every time
+        deserializer = _create_deserializer(typ, options)
+        deserializer.build(context)
+        return deserializer
+
+    cached_deserializer = _CACHE.get(cache_key)
+    if cached_deserializer is not None:
+        return cached_deserializer
 
-    if cache_key is not None:
-        deserializer = _CACHE.get(cache_key)
-        if deserializer is None:
+    with _CACHE_LOCK:
+        cached_deserializer = _CACHE.get(cache_key) or _PENDING.get(cache_key)
+        if cached_deserializer is not None:
+            return cached_deserializer
+
+        is_outermost = not _PENDING
+        try:
             deserializer = _create_deserializer(typ, options)
 
-            # store de-serializer immediately in cache to avoid stack overflow for recursive types
-            _CACHE[cache_key] = deserializer
+            # store de-serializer immediately to avoid stack overflow for recursive types
+            _PENDING[cache_key] = deserializer
 
             if isinstance(typ, type):
                 # use type's own module as context for evaluating member types
@@ -869,10 +889,13 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
 
             # create any de-serializers this de-serializer is depending on
             deserializer.build(context)
-    else:
-        # special forms are not always hashable, create a new de-serializer every time
-        deserializer = _create_deserializer(typ, options)
-        deserializer.build(context)
+
+            if is_outermost:
+                # de-serializers may refer to one another, publish only when all of them are complete
+                _CACHE.update(_PENDING)
+        finally:
+            if is_outermost:
+                _PENDING.clear()
 
     return deserializer
 
-- 
2.43.0


From 4ae169ee1339d44f789d71cd6b616b95c4b11fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:11 +0000
Subject: [PATCH 04/78] fix: honor aliases, keyword names and optional members
 when de-serializing a named tuple

---
 strong_typing/deserializer.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 8412297..f406b67 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -699,14 +699,20 @@ class NamedTupleDeserializer(ClassDeserializer[NamedTuple]):
     "De-serializes a named tuple from a JSON `object`."
 
     def build(self, context: Optional[ModuleType]) -> None:
-        property_parsers: list[FieldDeserializer] = [
-            RequiredFieldDeserializer(
-                field_name,
-                field_name,
-                self.get_deserializer(field_type, context),
-            )
-            for field_name, field_type in get_resolved_hints(self.class_type).items()
-        ]
+        property_parsers: list[FieldDeserializer] = []
+        for field_name, field_type in get_resolved_hints(self.class_type).items():
+            property_name = python_field_to_json_property(field_name, field_type)
+
+            if is_type_optional(field_type):
+                required_type: type = unwrap_optional_type(field_type)
+                parser = self.get_deserializer(required_type, context)
+                field_parser: FieldDeserializer = OptionalFieldDeserializer(property_name, field_name, parser)
+            else:
+                parser = self.get_deserializer(field_type, context)
+                field_parser = RequiredFieldDeserializer(property_name, field_name, parser)
+
+            property_parsers.append(field_parser)
+
         super().assign(property_parsers)
 
     def create(self, **field_values: Any) -> NamedTuple:
-- 
2.43.0


From 5a09409ef6836d00b2ca49be5abe843fee7c1ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:18 +0000
Subject: [PATCH 05/78] fix: try remaining union members when a member rejects
 the value of a JSON string or array

---
 strong_typing/deserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index f406b67..f17ef9a 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -417,10 +417,12 @@ class UnionDeserializer(RecursiveDeserializer):
             # iterate over potential types of discriminated union
             try:
                 return member_parser.parse(data)
-            except (JsonKeyError, JsonTypeError):
+            except (JsonKeyError, JsonTypeError, JsonValueError, ValueError):
                 # indicates a required field is missing from JSON dict
                 # -OR-
                 # the data cannot be cast to the expected type, i.e. we don't have the type that we are looking for
+                # -OR-
+                # the data has the right JSON type but is not a valid literal (e.g. a string that is not a UUID)
                 continue
 
         type_names = ", ".join(python_type_to_str(member_type) for member_type in self.member_types)
-- 
2.43.0


From 3660f1dae5d0520f81dfc1477f80a38b18339599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:25 +0000
Subject: [PATCH 06/78] fix: use JSON property name to discriminate members of
 a tagged union

---
 strong_typing/deserializer.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index f17ef9a..1741233 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -31,7 +31,6 @@ from .inspection import (
     enum_value_types,
     evaluate_type,
     get_class_properties,
-    get_class_property,
     get_resolved_hints,
     is_dataclass_instance,
     is_dataclass_type,
@@ -430,13 +429,25 @@ class UnionDeserializer(RecursiveDeserializer):
 
 
 def get_literal_properties(typ: type) -> set[str]:
-    "Returns the names of all properties in a class that are of a literal type."
+    "Returns the JSON names of all properties in a class that are of a literal type."
 
     return set(
-        property_name for property_name, property_type in get_class_properties(typ) if is_type_literal(property_type)
+        python_field_to_json_property(property_name, property_type)
+        for property_name, property_type in get_class_properties(typ)
+        if is_type_literal(property_type)
     )
 
 
+def get_literal_property_values(typ: type, name: str) -> tuple[Any, ...]:
+    "Returns the values permitted for a literal-typed property in a class, looked up by its JSON name."
+
+    for property_name, property_type in get_class_properties(typ):
+        if is_type_literal(property_type) and python_field_to_json_property(property_name, property_type) == name:
+            return unwrap_literal_values(property_type)
+
+    return ()
+
+
 def get_discriminating_properties(types: tuple[type, ...]) -> set[str]:
     "Returns a set of properties with literal type that are common across all specified classes."
 
@@ -466,11 +477,7 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
         self.member_parsers = {}
         for member_type in self.member_types:
             for property_name in self.disambiguating_properties:
-                literal_type = get_class_property(member_type, property_name)
-                if not literal_type:
-                    continue
-
-                for literal_value in unwrap_literal_values(literal_type):
+                for literal_value in get_literal_property_values(member_type, property_name):
                     tpl = (property_name, literal_value)
                     if tpl in self.member_parsers:
                         raise JsonTypeError(
-- 
2.43.0


From 67d806da9d9dd3002426dda5bbd61d5b536346d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:03 +0000
Subject: [PATCH 07/78] fix: raise documented error for an object or array as a
 tagged union discriminator

---
 strong_typing/deserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 1741233..249e7a7 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -503,7 +503,9 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
             if disambiguating_value is None:
                 continue
 
-            member_parser = self.member_parsers.get((property_name, disambiguating_value))
+            member_parser = None
+            if not isinstance(disambiguating_value, (dict, list)):  # not hashable
+                member_parser = self.member_parsers.get((property_name, disambiguating_value))
             if member_parser is None:
                 raise JsonTypeError(
                     f"disambiguating property value is invalid for tagged union type `{self.union_type}`: {data}"
-- 
2.43.0


From 95c99f896ed3f1b7fbc96564cfd7b9a7152fbb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:11 +0000
Subject: [PATCH 08/78] fix: match enumeration literals of a tagged union by
 their JSON value

---
 strong_typing/deserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 249e7a7..b2889c5 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -478,7 +478,9 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
         for member_type in self.member_types:
             for property_name in self.disambiguating_properties:
                 for literal_value in get_literal_property_values(member_type, property_name):
-                    tpl = (property_name, literal_value)
+                    # enumeration members are represented in JSON by their value
+                    tag = literal_value.value if isinstance(literal_value, enum.Enum) else literal_value
+                    tpl = (property_name, tag)
                     if tpl in self.member_parsers:
                         raise JsonTypeError(
                             f"disambiguating property `{property_name}` in type `{self.union_type}` "
-- 
2.43.0


From aec7d0c7f77eee4c265bf5f0e930da84dbaab59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:19 +0000
Subject: [PATCH 09/78] fix: reject JSON boolean where a number is expected

---
 strong_typing/deserializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index b2889c5..b14b11b 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -117,7 +117,7 @@ class IntDeserializer(Deserializer[int]):
     "Parses JSON `number` values into Python `int` type."
 
     def parse(self, data: JsonType) -> int:
-        if not isinstance(data, int):
+        if isinstance(data, bool) or not isinstance(data, int):  # `bool` is a subclass of `int` in Python
             raise JsonTypeError(f"`int` type expects integer data as JSON `number` but instead received: {data}")
         return int(data)
 
@@ -126,7 +126,7 @@ class FloatDeserializer(Deserializer[float]):
     "Parses JSON `number` values into Python `float` type."
 
     def parse(self, data: JsonType) -> float:
-        if not isinstance(data, float) and not isinstance(data, int):
+        if isinstance(data, bool) or not isinstance(data, (float, int)):  # `bool` is a subclass of `int` in Python
             raise JsonTypeError(f"`int` type expects data as JSON `number` but instead received: {data}")
         return float(data)
 
-- 
2.43.0


From 640ea3db1172123ecf2167677dfc8fd6e94332b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:26 +0000
Subject: [PATCH 10/78] fix: reject JSON value of a different type that equals
 an enumeration value in Python

---
 strong_typing/deserializer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index b14b11b..a43c474 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -559,7 +559,17 @@ class EnumDeserializer(Deserializer[E]):
         self.enum_type = enum_type
 
     def parse(self, data: JsonType) -> E:
-        return self.enum_type(data)
+        member = self.enum_type(data)
+
+        # Python treats `True`, `1` and `1.0` as equal in a lookup by value
+        if (
+            isinstance(data, bool) != isinstance(member.value, bool)
+            or isinstance(data, float)
+            and not isinstance(member.value, float)
+        ):
+            raise JsonTypeError(f"type `{self.enum_type.__name__}` could not be instantiated from: {data}")
+
+        return member
 
 
 class CustomDeserializer(Deserializer[T]):
-- 
2.43.0


From a51e436dff78b8db8a81d72109cb4533d658d963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:12 +0000
Subject: [PATCH 11/78] fix: de-serialize negative durations produced by the
 serializer

---
 strong_typing/deserializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index a43c474..a54afd5 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -200,7 +200,7 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
         pattern = re.compile(
             r"^P"  # starts with 'P'
             r"(?:(?P<weeks>\d+)W)?"  # optional weeks
-            r"(?:(?P<days>\d+)D)?"  # optional days
+            r"(?:(?P<days>-?\d+)D)?"  # optional days (negative for a `timedelta` less than zero)
             r"(?:T"  # start of time part
             r"(?:(?P<hours>\d+)H)?"  # optional hours
             r"(?:(?P<minutes>\d+)M)?"  # optional minutes
-- 
2.43.0


From 121e4e90b37cba1a510728bad2bd62553e47b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:19 +0000
Subject: [PATCH 12/78] fix: raise documented error for a JSON number or
 duration that is out of range

---
 strong_typing/deserializer.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index a54afd5..91c68fd 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -128,7 +128,10 @@ class FloatDeserializer(Deserializer[float]):
     def parse(self, data: JsonType) -> float:
         if isinstance(data, bool) or not isinstance(data, (float, int)):  # `bool` is a subclass of `int` in Python
             raise JsonTypeError(f"`int` type expects data as JSON `number` but instead received: {data}")
-        return float(data)
+        try:
+            return float(data)
+        except OverflowError as ex:
+            raise JsonValueError("`float` type cannot represent the JSON `number` received") from ex
 
 
 class StringDeserializer(Deserializer[str]):
@@ -231,11 +234,14 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
         if nanoseconds % 1000 != 0:  # timedelta type supports microsecond precision only
             raise JsonValueError(f"`timedelta` type supports microsecond precision only but received: {data}")
 
-        return datetime.timedelta(
-            days=7 * weeks + days,
-            seconds=3600 * hours + 60 * minutes + seconds,
-            microseconds=nanoseconds // 1000,
-        )
+        try:
+            return datetime.timedelta(
+                days=7 * weeks + days,
+                seconds=3600 * hours + 60 * minutes + seconds,
+                microseconds=nanoseconds // 1000,
+            )
+        except OverflowError as ex:
+            raise JsonValueError(f"`timedelta` type cannot represent the duration received: {data}") from ex
 
 
 class UUIDDeserializer(Deserializer[uuid.UUID]):
-- 
2.43.0


From 96fed16f3819848c57e04cf155bffce3e8685575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:24 +0000
Subject: [PATCH 13/78] fix: evaluate forward references in the module of the
 caller of json_to_object

---
 strong_typing/serialization.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/strong_typing/serialization.py b/strong_typing/serialization.py
index 218781c..8ffa74c 100644
--- a/strong_typing/serialization.py
+++ b/strong_typing/serialization.py
@@ -8,7 +8,7 @@ import inspect
 import json
 import sys
 import typing
-from types import ModuleType
+from types import FrameType, ModuleType
 from typing import Any, Optional, TextIO, TypeVar
 
 from .core import JsonType
@@ -38,6 +38,15 @@ def object_to_json(obj: Any) -> JsonType:
     return generator.generate(obj)
 
 
+def _get_caller_module(frame: Optional[FrameType]) -> Optional[ModuleType]:
+    "Returns the module of the function that has called the function executing in the given frame."
+
+    if frame is None or frame.f_back is None:
+        return None
+
+    return sys.modules[frame.f_back.f_globals["__name__"]]
+
+
 def json_to_object(
     typ: type[T],
     data: JsonType,
@@ -65,6 +74,10 @@ def json_to_object(
     :raises JsonTypeError: Deserialization for data has failed due to a type mismatch.
     """
 
+    # use caller context for evaluating types if no context is supplied
+    if context is None:
+        context = _get_caller_module(inspect.currentframe())
+
     return typing.cast(T, json_to_generic(typ, data, context=context, options=options))
 
 
@@ -84,16 +97,7 @@ def json_to_generic(
 
     # use caller context for evaluating types if no context is supplied
     if context is None:
-        this_frame = inspect.currentframe()
-        if this_frame is not None:
-            caller_frame = this_frame.f_back
-            del this_frame
-
-            if caller_frame is not None:
-                try:
-                    context = sys.modules[caller_frame.f_globals["__name__"]]
-                finally:
-                    del caller_frame
+        context = _get_caller_module(inspect.currentframe())
 
     parser = create_deserializer(typ, context, options=options)
     return parser.parse(data)
-- 
2.43.0


From 0a3dcdde85d3072d1ff4e0882130aaeb5dd6e799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:31 +0000
Subject: [PATCH 14/78] fix: write enumeration keys of an untyped dictionary as
 strings

---
 strong_typing/serializer.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 06c4986..f839b5d 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -177,11 +177,9 @@ class UntypedListSerializer(Serializer[list]):
 
 class UntypedDictSerializer(Serializer[dict]):
     def generate(self, obj: dict) -> dict[str, JsonType]:
-        if obj and isinstance(next(iter(obj.keys())), enum.Enum):
-            iterator = ((key.value, object_to_json(value)) for key, value in obj.items())
-        else:
-            iterator = ((str(key), object_to_json(value)) for key, value in obj.items())
-        return dict(iterator)
+        return {
+            str(key.value if isinstance(key, enum.Enum) else key): object_to_json(value) for key, value in obj.items()
+        }
 
 
 class UntypedSetSerializer(Serializer[set]):
-- 
2.43.0


From b79822e28edd128c9918d3b9cc979921cec50e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 15/78] fix: honor custom de-serialization method of
 enumerations and named tuples

---
 strong_typing/deserializer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 91c68fd..b02e12e 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -1011,17 +1011,17 @@ def _create_deserializer(typ: TypeLike, options: DeserializerOptions) -> Deseria
         else:
             raise TypeError(f"unable to de-serialize unrecognized type: {typ}")
 
+    # check if object has custom serialization method
+    convert_func = getattr(typ, "from_json", None)
+    if callable(convert_func):
+        return CustomDeserializer(convert_func)
+
     if issubclass(typ, enum.Enum):
         return EnumDeserializer(typ)
 
     if is_named_tuple_type(typ):
         return NamedTupleDeserializer(typ, options)
 
-    # check if object has custom serialization method
-    convert_func = getattr(typ, "from_json", None)
-    if callable(convert_func):
-        return CustomDeserializer(convert_func)
-
     if is_dataclass_type(typ):
         dataclass_params = getattr(typ, "__dataclass_params__", None)
         if dataclass_params is not None and dataclass_params.frozen:
-- 
2.43.0


From b12927163e6323ef278a31a074c5ea7bbb81e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:23 +0000
Subject: [PATCH 16/78] fix: drop trailing underscore of Python keywords in
 JSON schema property names

---
 strong_typing/schema.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 81f8930..2d705f2 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -19,12 +19,11 @@ from typing import Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, o
 import jsonschema
 
 from . import docstring
-from .auxiliary import Alias, IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
+from .auxiliary import IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
 from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
     enum_value_types,
-    get_annotation,
     get_class_properties,
     is_type_enum,
     is_type_like,
@@ -33,6 +32,7 @@ from .inspection import (
     unwrap_optional_type,
     unwrap_union_types,
 )
+from .mapping import python_field_to_json_property
 from .name import python_type_to_name
 from .serialization import object_to_json
 
@@ -432,12 +432,8 @@ class JsonSchemaGenerator:
         properties: dict[str, Schema] = {}
         required: list[str] = []
         for property_name, property_type in get_class_properties(typ):
-            # rename property if an alias name is specified
-            alias = get_annotation(property_type, Alias)
-            if alias:
-                output_name = alias.name
-            else:
-                output_name = property_name
+            # rename property if an alias name is specified or it would clash with a Python keyword
+            output_name = python_field_to_json_property(property_name, property_type)
 
             if is_type_optional(property_type):
                 optional_type: type = unwrap_optional_type(property_type)
-- 
2.43.0


From 0089f6da0e15ad7d0153b6827f2a42e1910846da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:29 +0000
Subject: [PATCH 17/78] fix: generate JSON schema for literal types with
 several values

---
 strong_typing/schema.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 2d705f2..6d6200e 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -416,9 +416,15 @@ class JsonSchemaGenerator:
                 "prefixItems": [self.type_to_schema(member_type) for member_type in args],
             }
         elif origin_type is Literal:
-            (literal_value,) = typing.get_args(typ)  # unpack value of literal type
-            schema = self.type_to_schema(type(literal_value))
-            schema["const"] = literal_value
+            literal_values = typing.get_args(typ)
+            literal_types = set(type(literal_value) for literal_value in literal_values)
+            if len(literal_types) != 1:
+                raise ValueError(f"literal values must have a consistent type but several types found: {literal_types}")
+            schema = self.type_to_schema(literal_types.pop())
+            if len(literal_values) > 1:
+                schema["enum"] = [object_to_json(literal_value) for literal_value in literal_values]
+            else:
+                schema["const"] = object_to_json(literal_values[0])
             return schema
         elif origin_type is type:
             (concrete_type,) = typing.get_args(typ)  # unpack single tuple element
-- 
2.43.0


From 6c6bd9a061211531c148a009fe1f06b0c69af60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:38 +0000
Subject: [PATCH 18/78] fix: generate JSON schema for optional types outside of
 class properties

---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 6d6200e..04275bb 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -368,7 +368,7 @@ class JsonSchemaGenerator:
                     enum_schema.update(docstring_to_schema(typ))
                 return enum_schema
 
-        if is_type_union(typ):
+        if is_type_union(typ) or is_type_optional(typ):
             return {"oneOf": [self.type_to_schema(union_type) for union_type in unwrap_union_types(typ)]}
 
         origin_type = typing.get_origin(typ)
-- 
2.43.0


From 47f877b6258adc5ff769141f7ab232e9e2468757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:43 +0000
Subject: [PATCH 19/78] fix: generate JSON schema for IP addresses

---
 strong_typing/schema.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 04275bb..e6366b0 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -10,6 +10,7 @@ import decimal
 import enum
 import functools
 import inspect
+import ipaddress
 import json
 import typing
 import uuid
@@ -260,6 +261,12 @@ class JsonSchemaGenerator:
         elif typ is uuid.UUID:
             # f81d4fae-7dec-11d0-a765-00a0c91e6bf6
             return {"type": "string", "format": "uuid"}
+        elif typ is ipaddress.IPv4Address:
+            # 192.0.2.1
+            return {"type": "string", "format": "ipv4"}
+        elif typ is ipaddress.IPv6Address:
+            # 2001:db8::1
+            return {"type": "string", "format": "ipv6"}
         elif typ is Any:
             return {
                 "oneOf": [
-- 
2.43.0


From 21938e2375bf58bebc50872258fd81f061b1fe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 20/78] fix: escape enumeration values in JSON schema property
 name pattern

---
 strong_typing/schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index e6366b0..65c294e 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -12,6 +12,7 @@ import functools
 import inspect
 import ipaddress
 import json
+import re
 import typing
 import uuid
 from copy import deepcopy
@@ -393,7 +394,7 @@ class JsonSchemaGenerator:
                 enum_values = [str(e.value) for e in key_type]
                 if len(enum_values) > OBJECT_ENUM_EXPANSION_LIMIT:
                     dict_schema = {
-                        "propertyNames": {"pattern": "^(" + "|".join(enum_values) + ")$"},
+                        "propertyNames": {"pattern": "^(" + "|".join(re.escape(value) for value in enum_values) + ")$"},
                         "additionalProperties": value_schema,
                     }
                 else:
-- 
2.43.0


From a4c35674964d8fb7deb9ade914d096afe2dbfa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:59 +0000
Subject: [PATCH 21/78] fix: accept time with time zone or fractional seconds
 when validating an object

---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 65c294e..ad72a71 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -611,7 +611,7 @@ def validate_object(data_type: TypeLike, json_dict: JsonType) -> None:
     """
 
     schema_dict = classdef_to_schema(data_type)
-    jsonschema.validate(json_dict, schema_dict, format_checker=jsonschema.FormatChecker())
+    jsonschema.validate(json_dict, schema_dict, format_checker=Validator.Latest.value.FORMAT_CHECKER)
 
 
 def print_schema(data_type: type) -> None:
-- 
2.43.0


From 9651b5dcf8ea4f0e30e18365aa2582941acb971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:58 +0000
Subject: [PATCH 22/78] fix: resolve forward references in JSON schema in the
 module of the referencing class

---
 strong_typing/schema.py | 59 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 56 insertions(+), 3 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index ad72a71..1809303 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -13,6 +13,8 @@ import inspect
 import ipaddress
 import json
 import re
+import sys
+import types
 import typing
 import uuid
 from copy import deepcopy
@@ -26,6 +28,7 @@ from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
     enum_value_types,
+    evaluate_type,
     get_class_properties,
     is_type_enum,
     is_type_like,
@@ -124,6 +127,7 @@ class TypeCatalogEntry:
     schema: Optional[Schema]
     identifier: str
     examples: Optional[JsonType] = None
+    data_type: Optional[TypeLike] = None
 
 
 class TypeCatalog:
@@ -157,7 +161,7 @@ class TypeCatalog:
         if data_type in self._by_type:
             raise ValueError(f"type {data_type} is already registered in the catalog")
 
-        entry = TypeCatalogEntry(schema, identifier, examples)
+        entry = TypeCatalogEntry(schema, identifier, examples, data_type)
         self._by_type[data_type] = entry
         self._by_name[identifier] = entry
 
@@ -187,6 +191,8 @@ class JsonSchemaGenerator:
     type_catalog: ClassVar[TypeCatalog] = TypeCatalog()
     types_used: dict[str, TypeLike]
     options: SchemaOptions
+    contexts: dict[str, types.ModuleType]
+    context: Optional[types.ModuleType]
 
     def __init__(self, options: Optional[SchemaOptions] = None):
         if options is None:
@@ -194,6 +200,22 @@ class JsonSchemaGenerator:
         else:
             self.options = options
         self.types_used = {}
+        self.contexts = {}
+        self.context = None
+
+    def _evaluate_reference(self, data_type: Union[typing.ForwardRef, str]) -> Optional[TypeLike]:
+        """
+        Evaluates a forward reference in the module of the class whose property has the reference.
+
+        :returns: The type referenced, or `None` if the type cannot be found.
+        """
+
+        if self.context is None:
+            return None
+        try:
+            return typing.cast(TypeLike, evaluate_type(data_type, self.context))
+        except NameError:
+            return None
 
     @functools.singledispatchmethod
     def _metadata_to_schema(self, arg: object) -> Schema:
@@ -304,10 +326,29 @@ class JsonSchemaGenerator:
 
         # types registered in the type catalog of well-known types
         type_catalog = JsonSchemaGenerator.type_catalog
+
+        # forward references in the properties of a class
+        if isinstance(data_type, (str, typing.ForwardRef)):
+            evaluated_type = self._evaluate_reference(data_type)
+            if evaluated_type is not None:
+                identifier = id_from_ref(data_type)
+                if (
+                    not identifier.isidentifier()
+                    or evaluated_type in type_catalog
+                    or self._simple_type_to_schema(evaluated_type) is not None
+                ):
+                    return self.type_to_schema(evaluated_type, force_expand=force_expand)
+
+                # may be a recursive type
+                self.types_used[identifier] = evaluated_type
+                self.contexts[identifier] = typing.cast(types.ModuleType, self.context)
+                return {"$ref": f"{self.options.definitions_path}{identifier}"}
+
         if not force_expand and data_type in type_catalog:
             # user-defined type
-            identifier = type_catalog.get(data_type).identifier
-            self.types_used.setdefault(identifier, data_type)
+            entry = type_catalog.get(data_type)
+            identifier = entry.identifier
+            self.types_used.setdefault(identifier, entry.data_type)
             return {"$ref": f"{self.options.definitions_path}{identifier}"}
 
         # unwrap annotated types
@@ -445,6 +486,8 @@ class JsonSchemaGenerator:
 
         properties: dict[str, Schema] = {}
         required: list[str] = []
+        outer_context = self.context
+        self.context = sys.modules.get(typ.__module__)
         for property_name, property_type in get_class_properties(typ):
             # rename property if an alias name is specified or it would clash with a Python keyword
             output_name = python_field_to_json_property(property_name, property_type)
@@ -483,6 +526,7 @@ class JsonSchemaGenerator:
                 property_def["description"] = property_doc
 
             properties[output_name] = property_def
+        self.context = outer_context
 
         schema = {"type": "object"}
         if len(properties) > 0:
@@ -502,6 +546,10 @@ class JsonSchemaGenerator:
         :returns: The JSON schema associated with the type.
         """
 
+        if data_type not in JsonSchemaGenerator.type_catalog:
+            # type used via a forward reference
+            return self.type_to_schema(data_type, force_expand=True)
+
         entry = JsonSchemaGenerator.type_catalog.get(data_type)
         if entry.schema is None:
             type_schema = self.type_to_schema(data_type, force_expand=True)
@@ -533,6 +581,8 @@ class JsonSchemaGenerator:
             raise TypeError(f"expected a type-like object but got: {data_type}")
 
         self.types_used = {}
+        self.contexts = {}
+        self.context = None
         try:
             type_schema = self.type_to_schema(data_type, force_expand=force_expand)
 
@@ -547,11 +597,14 @@ class JsonSchemaGenerator:
 
                 # expand undefined types, which may lead to additional types to be defined
                 for sub_name, sub_type in types_undefined.items():
+                    self.context = self.contexts.get(sub_name)
                     types_defined[sub_name] = self._type_to_schema_with_lookup(sub_type)
 
             type_definitions = dict(sorted(types_defined.items()))
         finally:
             self.types_used = {}
+            self.contexts = {}
+            self.context = None
 
         return type_schema, type_definitions
 
-- 
2.43.0


From b5142db3719aa874b0ead22f5e0bff10c607541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:03 +0000
Subject: [PATCH 23/78] fix: use reference to registered type in JSON schema
 when type is annotated

---
 strong_typing/schema.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 1809303..ffc07a5 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -367,6 +367,9 @@ class JsonSchemaGenerator:
                 else:
                     return self._with_metadata(schema, metadata)
 
+            # annotations do not alter how other types are represented
+            return self.type_to_schema(typ, force_expand=force_expand)
+
         else:
             # type is a regular type
             typ = data_type
-- 
2.43.0


From 872b3c5ce65d7f69ee038fd2c5d6fb0cc313f60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:33 +0000
Subject: [PATCH 24/78] fix: include default values of data-classes with slots
 in JSON schema

---
 strong_typing/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index ffc07a5..218d405 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -30,6 +30,7 @@ from .inspection import (
     enum_value_types,
     evaluate_type,
     get_class_properties,
+    is_dataclass_type,
     is_type_enum,
     is_type_like,
     is_type_optional,
@@ -484,6 +485,9 @@ class JsonSchemaGenerator:
 
         # dictionary of class attributes
         members = dict(inspect.getmembers(typ, lambda a: not inspect.isroutine(a)))
+        if is_dataclass_type(typ):
+            # data-classes with slots have no class attributes to hold default values
+            members.update((f.name, f.default) for f in dataclasses.fields(typ))
 
         property_docstrings = get_class_property_docstrings(typ, self.options.property_description_fun)
 
-- 
2.43.0


From 8113f6f63e480290002a6b294a4e75122b78071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:39 +0000
Subject: [PATCH 25/78] fix: resolve string annotations of data-class fields

---
 strong_typing/inspection.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 27e4508..e98f2f0 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -559,7 +559,18 @@ def get_class_properties(typ: type) -> Iterable[tuple[str, TypeLike]]:
     "Returns all properties of a class."
 
     if is_dataclass_type(typ):
-        return ((field.name, field.type) for field in dataclasses.fields(typ))
+        fields = dataclasses.fields(typ)
+        if any(isinstance(field.type, str) for field in fields):
+            # field annotations are strings with `from __future__ import annotations`
+            try:
+                resolved_hints = get_resolved_hints(typ)
+            except NameError:
+                resolved_hints = {}
+            return (
+                (field.name, resolved_hints.get(field.name, field.type) if isinstance(field.type, str) else field.type)
+                for field in fields
+            )
+        return ((field.name, field.type) for field in fields)
     else:
         resolved_hints = get_resolved_hints(typ)
         return resolved_hints.items()
-- 
2.43.0


From 571414a74a2c90cf67a1b745addb95981bada269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:16 +0000
Subject: [PATCH 26/78] fix: generate JSON schema for recursive types that are
 not registered

---
 strong_typing/schema.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 218d405..7e20183 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -194,6 +194,7 @@ class JsonSchemaGenerator:
     options: SchemaOptions
     contexts: dict[str, types.ModuleType]
     context: Optional[types.ModuleType]
+    expanding: list[TypeLike]
 
     def __init__(self, options: Optional[SchemaOptions] = None):
         if options is None:
@@ -203,6 +204,7 @@ class JsonSchemaGenerator:
         self.types_used = {}
         self.contexts = {}
         self.context = None
+        self.expanding = []
 
     def _evaluate_reference(self, data_type: Union[typing.ForwardRef, str]) -> Optional[TypeLike]:
         """
@@ -483,6 +485,12 @@ class JsonSchemaGenerator:
             (concrete_type,) = typing.get_args(typ)  # unpack single tuple element
             return {"const": self.type_to_schema(concrete_type, force_expand=True)}
 
+        # class that has itself as the type of a direct or nested property
+        if typ in self.expanding:
+            identifier = id_from_ref(typing.cast(type, typ))
+            self.types_used[identifier] = typ
+            return {"$ref": f"{self.options.definitions_path}{identifier}"}
+
         # dictionary of class attributes
         members = dict(inspect.getmembers(typ, lambda a: not inspect.isroutine(a)))
         if is_dataclass_type(typ):
@@ -495,6 +503,7 @@ class JsonSchemaGenerator:
         required: list[str] = []
         outer_context = self.context
         self.context = sys.modules.get(typ.__module__)
+        self.expanding.append(typ)
         for property_name, property_type in get_class_properties(typ):
             # rename property if an alias name is specified or it would clash with a Python keyword
             output_name = python_field_to_json_property(property_name, property_type)
@@ -533,6 +542,7 @@ class JsonSchemaGenerator:
                 property_def["description"] = property_doc
 
             properties[output_name] = property_def
+        self.expanding.pop()
         self.context = outer_context
 
         schema = {"type": "object"}
@@ -590,6 +600,7 @@ class JsonSchemaGenerator:
         self.types_used = {}
         self.contexts = {}
         self.context = None
+        self.expanding = []
         try:
             type_schema = self.type_to_schema(data_type, force_expand=force_expand)
 
@@ -612,6 +623,7 @@ class JsonSchemaGenerator:
             self.types_used = {}
             self.contexts = {}
             self.context = None
+            self.expanding = []
 
         return type_schema, type_definitions
 
-- 
2.43.0


From e2471a9293aa6ced74e454284254333984c5c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:46 +0000
Subject: [PATCH 27/78] fix: parse doc-string with a line that starts with a
 colon but is not a field

---
 strong_typing/docstring.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index 8871b93..6a1727d 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -278,7 +278,11 @@ def parse_text(text: str) -> Docstring:
         if not chunk:
             continue
 
-        args_chunk, desc_chunk = chunk.lstrip(":").split(":", 1)
+        args_chunk, separator, desc_chunk = chunk.lstrip(":").partition(":")
+        if not separator:
+            # line starts with a colon but is not a field, e.g. `:-)`
+            continue
+
         args = args_chunk.split()
         desc = re.sub(r"\s+", " ", desc_chunk.strip())
 
-- 
2.43.0


From 585cdd78938e35141b73ae012584f43d4fdc4ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:53 +0000
Subject: [PATCH 28/78] fix: retain long description in doc-string without a
 short description

---
 strong_typing/docstring.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index 6a1727d..c9d5f48 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -132,10 +132,8 @@ class Docstring:
     def full_description(self) -> Optional[str]:
         if self.short_description and self.long_description:
             return f"{self.short_description}\n\n{self.long_description}"
-        elif self.short_description:
-            return self.short_description
         else:
-            return None
+            return self.short_description or self.long_description or None
 
     def __str__(self) -> str:
         output = StringIO()
@@ -148,8 +146,8 @@ class Docstring:
                 output.write(self.short_description)
                 output.write("\n\n")
                 output.write(self.long_description)
-            elif self.short_description:
-                output.write(self.short_description)
+            else:
+                output.write(self.short_description or self.long_description or "")
 
         if has_blocks:
             if has_description:
-- 
2.43.0


From efe3735f78707dfd5216f853414390b13a175ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:59 +0000
Subject: [PATCH 29/78] fix: assign a name to nested composite types and
 annotated composite types

---
 strong_typing/name.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index c52d34c..3196fe7 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -240,7 +240,7 @@ def python_type_to_name(data_type: TypeLike, *, force: bool = False) -> str:
     if metadata is not None:
         # type is Annotated[T, ...]
         arg = typing.get_args(data_type)[0]
-        return python_type_to_name(arg)
+        return python_type_to_name(arg, force=force)
 
     if force:
         # generic types
@@ -250,34 +250,34 @@ def python_type_to_name(data_type: TypeLike, *, force: bool = False) -> str:
 
             if origin is dict:  # dict[K, V]
                 (key_type, value_type) = data_type_args
-                key_name = python_type_to_name(key_type)
-                value_name = python_type_to_name(value_type)
+                key_name = python_type_to_name(key_type, force=True)
+                value_name = python_type_to_name(value_type, force=True)
                 return f"Dict__{key_name}__{value_name}"
             elif origin is list:  # list[T]
                 (list_type,) = data_type_args  # unpack single tuple element
-                item_name = python_type_to_name(list_type)
+                item_name = python_type_to_name(list_type, force=True)
                 return f"List__{item_name}"
             elif origin is set:  # set[T]
                 (set_type,) = data_type_args  # unpack single tuple element
-                item_name = python_type_to_name(set_type)
+                item_name = python_type_to_name(set_type, force=True)
                 return f"Set__{item_name}"
             elif origin is frozenset:  # frozenset[T]
                 (set_type,) = data_type_args  # unpack single tuple element
-                item_name = python_type_to_name(set_type)
+                item_name = python_type_to_name(set_type, force=True)
                 return f"FrozenSet__{item_name}"
             elif origin is tuple:  # tuple[T]
-                member_names = "__".join(python_type_to_name(member_type) for member_type in data_type_args)
+                member_names = "__".join(python_type_to_name(member_type, force=True) for member_type in data_type_args)
                 return f"Tuple__{member_names}"
             elif origin is type:  # type[T]
                 (type_type,) = data_type_args  # unpack single tuple element
-                item_name = python_type_to_name(type_type)
+                item_name = python_type_to_name(type_type, force=True)
                 return f"Type__{item_name}"
             elif is_type_optional(data_type, strict=True):
-                inner_name = python_type_to_name(unwrap_optional_type(data_type))
+                inner_name = python_type_to_name(unwrap_optional_type(data_type), force=True)
                 return f"Optional__{inner_name}"
             elif is_type_union(data_type):
                 member_types = unwrap_union_types(data_type)
-                member_names = "__".join(python_type_to_name(member_type) for member_type in member_types)
+                member_names = "__".join(python_type_to_name(member_type, force=True) for member_type in member_types)
                 return f"Union__{member_names}"
 
     # named system or user-defined type
-- 
2.43.0


From 1c1635a5a786e190b09fa1485366e8cabd2a4a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 30/78] fix: print type of empty tuple as a valid type
 expression

---
 strong_typing/name.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index 3196fe7..fea716a 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -140,6 +140,8 @@ class TypeFormatter:
             elif origin is frozenset:  # frozenset[T]
                 origin_name = "frozenset"
             elif origin is tuple:  # tuple[T, ...]
+                if not data_type_args:
+                    return "tuple[()]"
                 origin_name = "tuple"
             elif origin is type:  # type[T]
                 args = ", ".join(self.python_type_to_str(t) for t in data_type_args)
-- 
2.43.0


From 2a053a98b8006ffeb3ba3d8b92b82d2c98c9ccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:12 +0000
Subject: [PATCH 31/78] fix: exclude internal root, retain references and
 accept iterables in topological sort of types

---
 strong_typing/topological.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index 3bb93c7..99efd5e 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -6,7 +6,7 @@ Type-safe data interchange for Python data classes.
 
 from typing import Callable, Iterable, Optional, TypeVar
 
-from .inspection import TypeCollector
+from .inspection import _ROOT, TypeCollector
 
 T = TypeVar("T")
 
@@ -65,20 +65,21 @@ def type_topological_sort(
     :returns: The list of types in topological order.
     """
 
+    types = list(types)  # may be a one-time iterable
     if not all(isinstance(typ, type) for typ in types):
         raise TypeError("expected a list of types")
 
     collector = TypeCollector()
     collector.traverse_all(types)
-    graph = collector.graph
+    graph = {typ: references for typ, references in collector.graph.items() if typ is not _ROOT}
 
     if dependency_fn:
         new_types: set[type] = set()
         for source_type, references in graph.items():
-            dependent_types = dependency_fn(source_type)
+            dependent_types = set(dependency_fn(source_type))
             references.update(dependent_types)
             new_types.update(dependent_types)
         for new_type in new_types:
-            graph[new_type] = set()
+            graph.setdefault(new_type, set())
 
     return topological_sort(graph)
-- 
2.43.0


From 78b5786789385e7596b07c3981bc312bb6108682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:18 +0000
Subject: [PATCH 32/78] fix: sort types referenced by additional dependencies
 in topological order

---
 strong_typing/topological.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index 99efd5e..b9d3d5a 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -71,15 +71,17 @@ def type_topological_sort(
 
     collector = TypeCollector()
     collector.traverse_all(types)
-    graph = {typ: references for typ, references in collector.graph.items() if typ is not _ROOT}
 
     if dependency_fn:
-        new_types: set[type] = set()
-        for source_type, references in graph.items():
+        # additional dependencies may themselves reference further types
+        unvisited = [typ for typ in collector.graph if typ is not _ROOT]
+        while unvisited:
+            source_type = unvisited.pop()
+            known_types = set(collector.graph)
             dependent_types = set(dependency_fn(source_type))
-            references.update(dependent_types)
-            new_types.update(dependent_types)
-        for new_type in new_types:
-            graph.setdefault(new_type, set())
+            collector.traverse_all(dependent_types)
+            collector.graph[source_type].update(dependent_types)
+            unvisited.extend(typ for typ in collector.graph if typ not in known_types)
 
+    graph = {typ: references for typ, references in collector.graph.items() if typ is not _ROOT}
     return topological_sort(graph)
-- 
2.43.0


From 21998f65f44f5baf0b1eec9ff62e5360073afcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:00 +0000
Subject: [PATCH 33/78] fix: check tuple length, annotated types and union
 operator in recursive type checks

---
 strong_typing/inspection.py | 38 ++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index e98f2f0..cb70c54 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -823,6 +823,16 @@ def create_object(typ: type[T]) -> T:
 TypeOrGeneric = Union[type, types.GenericAlias]
 
 
+def _get_tuple_item_types(typ: TypeLike, obj: tuple) -> tuple[TypeLike, ...]:
+    "Item types of a tuple type, expanding a variable-length tuple type `tuple[T, ...]` to the length of the object."
+
+    args = typing.get_args(typ)
+    if len(args) == 2 and args[1] is Ellipsis:
+        return (args[0],) * len(obj)
+    else:
+        return args
+
+
 def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
     """
     Returns whether an object is an instance of a generic class, a standard class or of a subclass thereof.
@@ -847,6 +857,8 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
         else:
             return False
 
+    typ = unwrap_annotated_type(typ)
+
     # generic types (e.g. list, dict, set, etc.)
     origin_type = typing.get_origin(typ)
     if origin_type is list:
@@ -873,14 +885,11 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
     elif origin_type is tuple:
         if not isinstance(obj, tuple):
             return False
-        return all(
-            is_generic_instance(item, tuple_item_type)
-            for tuple_item_type, item in zip(
-                (tuple_item_type for tuple_item_type in typing.get_args(typ)),
-                (item for item in obj),
-            )
+        tuple_item_types = _get_tuple_item_types(typ, obj)
+        return len(tuple_item_types) == len(obj) and all(
+            is_generic_instance(item, tuple_item_type) for tuple_item_type, item in zip(tuple_item_types, obj)
         )
-    elif origin_type is Union:
+    elif _is_union_like(typ):
         return any(is_generic_instance(obj, member_type) for member_type in typing.get_args(typ))
     elif isinstance(typ, type):
         return isinstance(obj, typ)
@@ -915,6 +924,8 @@ class RecursiveChecker:
         :returns: True if all member properties pass the filter predicate.
         """
 
+        typ = unwrap_annotated_type(typ)
+
         # check for well-known types
         if (
             typ is type(None)
@@ -954,14 +965,11 @@ class RecursiveChecker:
         elif origin_type is tuple:
             if not isinstance(obj, tuple):
                 raise TypeError(f"expected `tuple` but got: {obj}")
-            return all(
-                self.check(tuple_item_type, item)
-                for tuple_item_type, item in zip(
-                    (tuple_item_type for tuple_item_type in typing.get_args(typ)),
-                    (item for item in obj),
-                )
-            )
-        elif origin_type is Union:
+            tuple_item_types = _get_tuple_item_types(typ, obj)
+            if len(tuple_item_types) != len(obj):
+                raise TypeError(f"expected `tuple` of length {len(tuple_item_types)} but got: {obj}")
+            return all(self.check(tuple_item_type, item) for tuple_item_type, item in zip(tuple_item_types, obj))
+        elif _is_union_like(typ):
             return self.pred(typ, obj)  # type: ignore[arg-type]
 
         if not inspect.isclass(typ):
-- 
2.43.0


From 67b87039b83a65b50a6bf04f4de5e7aa5f2bf6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 34/78] fix: support literal types in recursive type checks

---
 strong_typing/inspection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index cb70c54..bd90c09 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -889,6 +889,8 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
         return len(tuple_item_types) == len(obj) and all(
             is_generic_instance(item, tuple_item_type) for tuple_item_type, item in zip(tuple_item_types, obj)
         )
+    elif origin_type is Literal:
+        return any(type(obj) is type(value) and obj == value for value in typing.get_args(typ))
     elif _is_union_like(typ):
         return any(is_generic_instance(obj, member_type) for member_type in typing.get_args(typ))
     elif isinstance(typ, type):
@@ -969,7 +971,7 @@ class RecursiveChecker:
             if len(tuple_item_types) != len(obj):
                 raise TypeError(f"expected `tuple` of length {len(tuple_item_types)} but got: {obj}")
             return all(self.check(tuple_item_type, item) for tuple_item_type, item in zip(tuple_item_types, obj))
-        elif _is_union_like(typ):
+        elif origin_type is Literal or _is_union_like(typ):
             return self.pred(typ, obj)  # type: ignore[arg-type]
 
         if not inspect.isclass(typ):
-- 
2.43.0


From b420f4c370c81318737fec05e4cdaa09e4ff8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:14 +0000
Subject: [PATCH 35/78] fix: recognize annotated union and named tuple types

---
 strong_typing/inspection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index bd90c09..6e814b1 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -188,11 +188,11 @@ def is_named_tuple_type(typ: Any) -> TypeGuard[type[NamedTuple]]:
     with a member named `_fields` that is a tuple whose items are all strings.
     """
 
+    typ = unwrap_annotated_type(typ)
+
     if not isinstance(typ, type):
         return False
 
-    typ = unwrap_annotated_type(typ)
-
     b = getattr(typ, "__bases__", None)
     if b is None:
         return False
@@ -342,7 +342,7 @@ def unwrap_union_types(typ: object) -> tuple[object, ...]:
     :returns: The inner types `T1`, `T2`, etc.
     """
 
-    return _unwrap_union_types(typ)
+    return _unwrap_union_types(unwrap_annotated_type(typ))
 
 
 def _unwrap_union_types(typ: object) -> tuple[object, ...]:
-- 
2.43.0


From e6d212acda533ea9eb4ef0f48ce49b2c34cd699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:19 +0000
Subject: [PATCH 36/78] fix: collect types referenced by variable-length tuples
 and recursive type aliases

---
 strong_typing/inspection.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 6e814b1..f30c538 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -615,6 +615,7 @@ class TypeCollector:
     """
 
     graph: dict[type, set[type]]
+    evaluated: set[tuple[type, types.ModuleType, str]]
 
     @property
     def references(self) -> set[type]:
@@ -627,6 +628,7 @@ class TypeCollector:
 
     def __init__(self) -> None:
         self.graph = {_ROOT: set()}
+        self.evaluated = set()
 
     def traverse(self, typ: type) -> None:
         "Finds all dependent types of a type."
@@ -657,7 +659,7 @@ class TypeCollector:
         :returns: Types referenced by the given type or special form.
         """
 
-        if typ is type(None) or typ is Any:
+        if typ is type(None) or typ is Any or typ is Ellipsis:
             return
 
         origin = typing.get_origin(typ)
@@ -681,6 +683,12 @@ class TypeCollector:
             if module is None:
                 raise ValueError("missing context for evaluating types")
 
+            # avoid infinite recursion for type aliases that reference themselves
+            key = (cls, module, typ.__forward_arg__ if isinstance(typ, typing.ForwardRef) else typ)
+            if key in self.evaluated:
+                return
+            self.evaluated.add(key)
+
             evaluated_type = evaluate_type(typ, module)
             return self.run(evaluated_type, cls, module)
 
-- 
2.43.0


From 3fa5be5a04194f3a5ec896489eaedb07e225246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:40 +0000
Subject: [PATCH 37/78] fix: do not reassign module of types not created from
 the JSON schema

---
 strong_typing/classdef.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index e129a41..6929010 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -180,7 +180,6 @@ def schema_to_type(schema: Schema, *, module: types.ModuleType, class_name: str)
             if type_def.default is not dataclasses.MISSING:
                 raise TypeError("disallowed: `default` for top-level type definitions")
 
-            type_def.type.__module__ = module.__name__
             setattr(module, type_name, type_def.type)
 
     return node_to_typedef(module, class_name, top_node).type
-- 
2.43.0


From 0eaf41330ba92c517be5bb99396cda63dcce15b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:46 +0000
Subject: [PATCH 38/78] fix: allow JSON schema definitions to refer to later
 definitions or themselves

---
 strong_typing/classdef.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 6929010..d60c3b7 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -175,12 +175,15 @@ def schema_to_type(schema: Schema, *, module: types.ModuleType, class_name: str)
 
     top_node = json_to_object(JsonSchemaTopLevelObject, schema)
     if top_node.definitions is not None:
+        defined: set[str] = set()
         for type_name, type_node in top_node.definitions.items():
-            type_def = node_to_typedef(module, type_name, type_node)
+            pending = frozenset(name for name in top_node.definitions if name not in defined)
+            type_def = node_to_typedef(module, type_name, type_node, pending)
             if type_def.default is not dataclasses.MISSING:
                 raise TypeError("disallowed: `default` for top-level type definitions")
 
             setattr(module, type_name, type_def.type)
+            defined.add(type_name)
 
     return node_to_typedef(module, class_name, top_node).type
 
@@ -198,13 +201,28 @@ def json_to_value(target_type: type[T], data: JsonType) -> Any:
         return typing.cast(Any, dataclasses.MISSING)
 
 
-def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode) -> TypeDef:
+def node_to_typedef(
+    module: types.ModuleType, context: str, node: JsonSchemaNode, pending: frozenset[str] = frozenset()
+) -> TypeDef:
+    """
+    Creates a Python type from a node in a JSON schema.
+
+    :param module: The module in which to create new types.
+    :param context: The name assigned to a newly created type.
+    :param node: The JSON schema node.
+    :param pending: Names of JSON schema definitions that are yet to be converted into types.
+    """
+
     if isinstance(node, JsonSchemaRef):
         match_obj = re.match(r"^#/definitions/(\w+)$", node.ref)
         if not match_obj:
             raise ValueError(f"invalid reference: {node.ref}")
 
         type_name = match_obj.group(1)
+        if type_name in pending:
+            # type is part of a cycle or is defined later
+            return TypeDef(typing.ForwardRef(type_name), dataclasses.MISSING)
+
         return TypeDef(getattr(module, type_name), dataclasses.MISSING)
 
     elif isinstance(node, JsonSchemaBoolean):
@@ -311,7 +329,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
         return TypeDef(string_type, default)
 
     elif isinstance(node, JsonSchemaArray):
-        type_def = node_to_typedef(module, context, node.items)
+        type_def = node_to_typedef(module, context, node.items, pending)
         if type_def.default is not dataclasses.MISSING:
             raise TypeError("disallowed: `default` for array element type")
         list_type = list[(type_def.type,)]  # type: ignore
@@ -331,7 +349,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
         fields: list[tuple[str, Any, dataclasses.Field]] = []  # type: ignore[type-arg]
         params: dict[str, DocstringParam] = {}
         for prop_name, prop_node in node.properties.items():
-            type_def = node_to_typedef(module, f"{class_name}__{prop_name}", prop_node)
+            type_def = node_to_typedef(module, f"{class_name}__{prop_name}", prop_node, pending)
             if prop_name in required:
                 prop_type = type_def.type
             else:
@@ -357,7 +375,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
         return TypeDef(class_type, dataclasses.MISSING)
 
     elif isinstance(node, JsonSchemaOneOf):
-        union_defs = tuple(node_to_typedef(module, context, n) for n in node.oneOf)
+        union_defs = tuple(node_to_typedef(module, context, n, pending) for n in node.oneOf)
         if any(d.default is not dataclasses.MISSING for d in union_defs):
             raise TypeError("disallowed: `default` for union member type")
         union_types = tuple(d.type for d in union_defs)
-- 
2.43.0


From c351ac2e461ddca8ae9a6b8f59269fe412fbc5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:29 +0000
Subject: [PATCH 39/78] fix: keep all values of a JSON schema enumeration whose
 names clash or are reserved

---
 strong_typing/classdef.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index d60c3b7..823cc47 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -142,11 +142,24 @@ def enum_safe_name(name: str) -> str:
     name = re.sub(r"\W", "_", name)
     is_dunder = name.startswith("__")
     is_sunder = name.startswith("_") and name.endswith("_")
-    if is_dunder or is_sunder:  # provide an alternative for dunder and sunder names
+    is_reserved = name in ("", "mro")
+    if is_dunder or is_sunder or is_reserved:  # provide an alternative for dunder, sunder and reserved names
         name = f"v{name}"
     return name
 
 
+def enum_safe_names(values: list[str]) -> dict[str, str]:
+    "Assigns a distinct enumeration member name to each string value."
+
+    members: dict[str, str] = {}
+    for value in values:
+        name = enum_safe_name(value)
+        while name in members:
+            name = f"{name}_1"
+        members[name] = value
+    return members
+
+
 def enum_values_to_type(
     module: types.ModuleType,
     name: str,
@@ -314,7 +327,7 @@ def node_to_typedef(
             string_type = enum_values_to_type(
                 module,
                 context,
-                {enum_safe_name(e): e for e in node.enum},
+                enum_safe_names(node.enum),
                 title=node.title,
                 description=node.description,
             )
-- 
2.43.0


From aefdaf35628eef2145842d44281adf2e036d2dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:54 +0000
Subject: [PATCH 40/78] fix: create data-class from JSON schema with property
 names that are Python keywords

---
 strong_typing/classdef.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 823cc47..6d5ecc5 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -4,6 +4,7 @@ import datetime
 import decimal
 import enum
 import ipaddress
+import keyword
 import math
 import re
 import sys
@@ -17,6 +18,7 @@ from .auxiliary import Alias, MaxLength, Precision, float32, float64, int16, int
 from .core import JsonType, Schema
 from .docstring import Docstring, DocstringParam
 from .inspection import TypeLike
+from .mapping import python_field_to_json_property
 from .serialization import json_to_object, object_to_json
 
 T = TypeVar("T")
@@ -367,10 +369,14 @@ def node_to_typedef(
                 prop_type = type_def.type
             else:
                 prop_type = Union[(None, type_def.type)]
-            fields.append((prop_name, prop_type, dataclasses.field(default=type_def.default)))
+            # append an underscore if the name would clash with a Python keyword
+            field_name = f"{prop_name}_" if keyword.iskeyword(prop_name) else prop_name
+            if python_field_to_json_property(field_name) != prop_name:
+                prop_type = Annotated[prop_type, Alias(prop_name)]
+            fields.append((field_name, prop_type, dataclasses.field(default=type_def.default)))
             prop_desc = prop_node.title or prop_node.description
             if prop_desc is not None:
-                params[prop_name] = DocstringParam(prop_name, prop_desc)
+                params[field_name] = DocstringParam(field_name, prop_desc)
 
         fields.sort(key=lambda t: t[2].default is not dataclasses.MISSING)
         if sys.version_info >= (3, 12):
-- 
2.43.0


From 3bfb105ce239ecb8d2dd4e11374de8c768b8e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:01 +0000
Subject: [PATCH 41/78] fix: keep unrestricted objects when flattening a JSON
 schema

---
 strong_typing/classdef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 6d5ecc5..2dcf1e4 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -433,7 +433,7 @@ class SchemaFlattener:
         target_reqs: list[str] = []
 
         for name, prop in source_props.items():
-            if not isinstance(prop, JsonSchemaObject):
+            if not isinstance(prop, JsonSchemaObject) or prop.properties is None:
                 target_props[name] = prop
                 if name in source_reqs:
                     target_reqs.append(name)
-- 
2.43.0


From 6d8bfbb4e2da38b9c7ca573156c02ec9616585e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:08 +0000
Subject: [PATCH 42/78] fix: use unbounded integer type for a JSON schema range
 that exceeds 64 bits

---
 strong_typing/classdef.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 2dcf1e4..338a002 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -136,8 +136,10 @@ def integer_range_to_type(min_value: float, max_value: float) -> type:
         return int16
     elif min_value >= -(2**31) and max_value < 2**31:
         return int32
-    else:
+    elif min_value >= -(2**63) and max_value < 2**63:
         return int64
+    else:
+        return int
 
 
 def enum_safe_name(name: str) -> str:
-- 
2.43.0


From 2edb6b4e52e8c2e03f8846ce7ac7bf2284230e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:06 +0000
Subject: [PATCH 43/78] fix: refuse durations without components or with a
 trailing newline

---
 strong_typing/deserializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index b02e12e..58bb3c9 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -201,14 +201,14 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
             raise JsonTypeError(f"`timedelta` type expects JSON `string` data but instead received: {data}")
 
         pattern = re.compile(
-            r"^P"  # starts with 'P'
+            r"^P(?!\Z)"  # starts with 'P', followed by at least one component
             r"(?:(?P<weeks>\d+)W)?"  # optional weeks
             r"(?:(?P<days>-?\d+)D)?"  # optional days (negative for a `timedelta` less than zero)
-            r"(?:T"  # start of time part
+            r"(?:T(?!\Z)"  # start of time part, followed by at least one component
             r"(?:(?P<hours>\d+)H)?"  # optional hours
             r"(?:(?P<minutes>\d+)M)?"  # optional minutes
             r"(?:(?P<seconds>\d+)(?:\.(?P<fractional>\d{1,9}))?S)?"  # optional seconds (integer and fractional part)
-            r")?$",  # end of time part
+            r")?\Z",  # end of time part
             flags=re.ASCII,
         )
 
-- 
2.43.0


From 2d45f46f4fb9597cd1ee437810c26fc31b4314f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:14 +0000
Subject: [PATCH 44/78] fix: do not share registered examples with generated
 JSON schema

---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 7e20183..1ceb71c 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -580,7 +580,7 @@ class JsonSchemaGenerator:
 
         # add example (if present)
         if self.options.use_examples and entry.examples:
-            type_schema["examples"] = entry.examples
+            type_schema["examples"] = deepcopy(entry.examples)
 
         return type_schema
 
-- 
2.43.0


From a34f6d44e6edab075f45a0e6f23458fb26537fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:47 +0000
Subject: [PATCH 45/78] fix: resolve forward references in inherited data-class
 fields in the module of the base class

---
 strong_typing/inspection.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index f30c538..12abbd9 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -560,14 +560,22 @@ def get_class_properties(typ: type) -> Iterable[tuple[str, TypeLike]]:
 
     if is_dataclass_type(typ):
         fields = dataclasses.fields(typ)
-        if any(isinstance(field.type, str) for field in fields):
-            # field annotations are strings with `from __future__ import annotations`
+
+        # field annotations are strings with `from __future__ import annotations`
+        unresolved = {field.name for field in fields if isinstance(field.type, str)}
+
+        # forward references in inherited fields are relative to the module of the base class
+        for base in inspect.getmro(typ):
+            if base.__module__ != typ.__module__ and dataclasses.is_dataclass(base):
+                unresolved.update(field.name for field in dataclasses.fields(base))
+
+        if unresolved:
             try:
                 resolved_hints = get_resolved_hints(typ)
             except NameError:
                 resolved_hints = {}
             return (
-                (field.name, resolved_hints.get(field.name, field.type) if isinstance(field.type, str) else field.type)
+                (field.name, resolved_hints.get(field.name, field.type) if field.name in unresolved else field.type)
                 for field in fields
             )
         return ((field.name, field.type) for field in fields)
-- 
2.43.0


From 914a6f4ddb19f63dd6252a0711d909b49f7628f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:08 +0000
Subject: [PATCH 46/78] fix: deserialize classes with a member named self

---
 strong_typing/deserializer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 58bb3c9..146d68c 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -703,7 +703,7 @@ class ClassDeserializer(RecursiveDeserializer[T]):
             type_name = python_type_to_str(self.class_type)
             raise JsonTypeError(f"`type `{type_name}` expects JSON `object` data but instead received: {data}")
 
-        field_values = {}
+        field_values: dict[str, Any] = {}
         for property_parser in self.property_parsers:
             field_values[property_parser.field_name] = property_parser.parse_field(data)
 
@@ -711,9 +711,9 @@ class ClassDeserializer(RecursiveDeserializer[T]):
             unassigned_names = [name for name in data if name not in self.property_fields]
             raise JsonKeyError(f"unrecognized fields in JSON object: {unassigned_names}")
 
-        return self.create(**field_values)
+        return self.create(field_values)
 
-    def create(self, **field_values: Any) -> T:
+    def create(self, field_values: dict[str, Any]) -> T:
         "Instantiates an object with a collection of property values."
 
         obj: T = create_object(self.class_type)
@@ -744,7 +744,7 @@ class NamedTupleDeserializer(ClassDeserializer[NamedTuple]):
 
         super().assign(property_parsers)
 
-    def create(self, **field_values: Any) -> NamedTuple:
+    def create(self, field_values: dict[str, Any]) -> NamedTuple:
         return typing.cast(NamedTuple, self.class_type(**field_values))
 
 
@@ -794,7 +794,7 @@ class DataclassDeserializer(ClassDeserializer[T]):
 class FrozenDataclassDeserializer(DataclassDeserializer[T]):
     "De-serializes a frozen data class from a JSON `object`."
 
-    def create(self, **field_values: Any) -> T:
+    def create(self, field_values: dict[str, Any]) -> T:
         "Instantiates an object with a collection of property values."
 
         # create object instance without calling `__init__`
-- 
2.43.0


From d1258650749dded2c47ed78382d7d76bd37fb132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:49 +0000
Subject: [PATCH 47/78] fix: schema of a data class without members admits no
 members

---
 strong_typing/schema.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 1ceb71c..724728a 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -548,6 +548,7 @@ class JsonSchemaGenerator:
         schema = {"type": "object"}
         if len(properties) > 0:
             schema["properties"] = typing.cast(JsonType, properties)
+        if len(properties) > 0 or is_dataclass_type(typ):
             schema["additionalProperties"] = False
         if len(required) > 0:
             schema["required"] = typing.cast(JsonType, required)
-- 
2.43.0


From 51fc0f5a6900dcf0cc4fc8433f86fc2b62d85ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:56 +0000
Subject: [PATCH 48/78] fix: ignore auto-generated doc-string of named tuples

---
 strong_typing/docstring.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index c9d5f48..7cca71b 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -26,6 +26,7 @@ from .inspection import (
     get_class_properties,
     get_signature,
     is_dataclass_type,
+    is_named_tuple_type,
     is_type_enum,
 )
 
@@ -315,7 +316,7 @@ def parse_text(text: str) -> Docstring:
 
 
 def has_default_docstring(typ: SupportsDoc) -> bool:
-    "Check if class has the auto-generated string assigned by @dataclass."
+    "Check if class has the auto-generated string assigned by @dataclass or NamedTuple."
 
     if not isinstance(typ, type):
         return False
@@ -326,6 +327,9 @@ def has_default_docstring(typ: SupportsDoc) -> bool:
     if is_type_enum(typ):
         return typ.__doc__ is not None and typ.__doc__ == "An enumeration."
 
+    if is_named_tuple_type(typ):
+        return typ.__doc__ is not None and typ.__doc__ == f"{typ.__name__}({', '.join(typ._fields)})"
+
     return False
 
 
-- 
2.43.0


From 3211a83f750d0b9cb1f14e55177c8df280de5707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:44 +0000
Subject: [PATCH 49/78] fix: include defaults of named tuple fields in schema

---
 strong_typing/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 724728a..9696de4 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -31,6 +31,7 @@ from .inspection import (
     evaluate_type,
     get_class_properties,
     is_dataclass_type,
+    is_named_tuple_type,
     is_type_enum,
     is_type_like,
     is_type_optional,
@@ -496,6 +497,9 @@ class JsonSchemaGenerator:
         if is_dataclass_type(typ):
             # data-classes with slots have no class attributes to hold default values
             members.update((f.name, f.default) for f in dataclasses.fields(typ))
+        elif is_named_tuple_type(typ):
+            # class attributes of named tuples are item getters
+            members.update(typ._field_defaults)
 
         property_docstrings = get_class_property_docstrings(typ, self.options.property_description_fun)
 
-- 
2.43.0


From 4cc880d82da38ca7cb05e559745b200da46f4ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:58 +0000
Subject: [PATCH 50/78] fix: ignore auto-generated doc-string of named tuples
 with a single field

---
 strong_typing/docstring.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index 7cca71b..11e00b2 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -328,7 +328,9 @@ def has_default_docstring(typ: SupportsDoc) -> bool:
         return typ.__doc__ is not None and typ.__doc__ == "An enumeration."
 
     if is_named_tuple_type(typ):
-        return typ.__doc__ is not None and typ.__doc__ == f"{typ.__name__}({', '.join(typ._fields)})"
+        # a named tuple with a single field has a trailing comma
+        fields = ", ".join(typ._fields)
+        return typ.__doc__ is not None and typ.__doc__ in (f"{typ.__name__}({fields})", f"{typ.__name__}({fields},)")
 
     return False
 
-- 
2.43.0


From d3033f455e598f9025f2ab28bb6d3c1e66bbfd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:01 +0000
Subject: [PATCH 51/78] fix: keep defaults of constants when building types
 from a schema

---
 strong_typing/classdef.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 338a002..a32712a 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -244,14 +244,14 @@ def node_to_typedef(
 
     elif isinstance(node, JsonSchemaBoolean):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(bool, node.default))
 
         default = json_to_value(bool, node.default)
         return TypeDef(bool, default)
 
     elif isinstance(node, JsonSchemaInteger):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(int, node.default))
 
         integer_type: TypeLike
         if node.format == "int16":
@@ -273,7 +273,7 @@ def node_to_typedef(
 
     elif isinstance(node, JsonSchemaNumber):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(float, node.default))
 
         number_type: TypeLike
         if node.format == "float32":
@@ -309,7 +309,7 @@ def node_to_typedef(
 
     elif isinstance(node, JsonSchemaString):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(str, node.default))
 
         string_type: TypeLike
         if node.format == "date-time":
-- 
2.43.0


From a19d90a04bd7dc346b89295ef049e4f5ed7489ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:07 +0000
Subject: [PATCH 52/78] fix: keep minimum length when building types from a
 schema

---
 strong_typing/classdef.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index a32712a..be28e58 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -14,7 +14,7 @@ import uuid
 from dataclasses import dataclass
 from typing import Annotated, Any, Literal, Optional, TypeVar, Union
 
-from .auxiliary import Alias, MaxLength, Precision, float32, float64, int16, int32, int64
+from .auxiliary import Alias, MaxLength, MinLength, Precision, float32, float64, int16, int32, int64
 from .core import JsonType, Schema
 from .docstring import Docstring, DocstringParam
 from .inspection import TypeLike
@@ -336,8 +336,13 @@ def node_to_typedef(
                 description=node.description,
             )
 
-        elif node.maxLength is not None:
-            string_type = Annotated[str, MaxLength(node.maxLength)]
+        elif node.minLength is not None or node.maxLength is not None:
+            if node.minLength is None:
+                string_type = Annotated[str, MaxLength(node.maxLength)]
+            elif node.maxLength is None:
+                string_type = Annotated[str, MinLength(node.minLength)]
+            else:
+                string_type = Annotated[str, MinLength(node.minLength), MaxLength(node.maxLength)]
             string_type = typing.cast(type[str], string_type)
         else:
             string_type = str
-- 
2.43.0


From 5944d3edd28f6b0607960bfa58e53bb499037198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:12 +0000
Subject: [PATCH 53/78] fix: build an empty data class from the schema of one

---
 strong_typing/classdef.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index be28e58..5f43d9e 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -358,7 +358,7 @@ def node_to_typedef(
         return TypeDef(list_type, dataclasses.MISSING)
 
     elif isinstance(node, JsonSchemaObject):
-        if node.properties is None:
+        if node.properties is None and node.additionalProperties is not False:
             return TypeDef(JsonType, dataclasses.MISSING)
 
         if node.additionalProperties is None or node.additionalProperties is not False:
@@ -370,7 +370,7 @@ def node_to_typedef(
 
         fields: list[tuple[str, Any, dataclasses.Field]] = []  # type: ignore[type-arg]
         params: dict[str, DocstringParam] = {}
-        for prop_name, prop_node in node.properties.items():
+        for prop_name, prop_node in (node.properties or {}).items():
             type_def = node_to_typedef(module, f"{class_name}__{prop_name}", prop_node, pending)
             if prop_name in required:
                 prop_type = type_def.type
-- 
2.43.0


From fad075229a80a62628212f06eab1b9845b4438ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:41 +0000
Subject: [PATCH 54/78] fix: make JsonType available to types built from a
 schema

---
 strong_typing/classdef.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 5f43d9e..5549df8 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -359,6 +359,8 @@ def node_to_typedef(
 
     elif isinstance(node, JsonSchemaObject):
         if node.properties is None and node.additionalProperties is not False:
+            # forward references in the recursive type are evaluated in the module of the defining class
+            module.__dict__.setdefault("JsonType", JsonType)
             return TypeDef(JsonType, dataclasses.MISSING)
 
         if node.additionalProperties is None or node.additionalProperties is not False:
-- 
2.43.0


From 53d9ed5710562f800e7238dc868a8bf935de3608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:05 +0000
Subject: [PATCH 55/78] fix: evaluate forward references in the scope of their
 module only

---
 strong_typing/inspection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 12abbd9..b763345 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -106,21 +106,21 @@ def evaluate_type(typ: Any, module: types.ModuleType) -> Any:
 
     if isinstance(typ, str):
         # evaluate data-class field whose type annotation is a string
-        return eval(typ, module.__dict__, locals())
+        return eval(typ, module.__dict__, {})
     if isinstance(typ, typing.ForwardRef):
         if sys.version_info >= (3, 14):
             return typing.evaluate_forward_ref(typ, owner=module)
         elif sys.version_info >= (3, 13):
             return typ._evaluate(
                 module.__dict__,
-                locals(),
+                {},
                 type_params=(),
                 recursive_guard=frozenset(),
             )
         else:
             return typ._evaluate(
                 module.__dict__,
-                locals(),
+                {},
                 recursive_guard=frozenset(),
             )
     else:
-- 
2.43.0


From e6a7d1f6a078ed9679e1ef02a49e155f2d184abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 56/78] fix: do not store the result of evaluation in shared
 forward references

---
 strong_typing/inspection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index b763345..4828d29 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -6,6 +6,7 @@ Type-safe data interchange for Python data classes.
 
 # mypy: disable-error-code="type-arg"
 
+import copy
 import dataclasses
 import datetime
 import enum
@@ -110,7 +111,10 @@ def evaluate_type(typ: Any, module: types.ModuleType) -> Any:
     if isinstance(typ, typing.ForwardRef):
         if sys.version_info >= (3, 14):
             return typing.evaluate_forward_ref(typ, owner=module)
-        elif sys.version_info >= (3, 13):
+
+        # the reference may be shared among types, do not store the result of the evaluation in it
+        typ = copy.copy(typ)
+        if sys.version_info >= (3, 13):
             return typ._evaluate(
                 module.__dict__,
                 {},
-- 
2.43.0


From c83a41350a696708297ea66b2d84f2e04d940788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:48 +0000
Subject: [PATCH 57/78] fix: serialize recursive type aliases

---
 strong_typing/serializer.py | 40 +++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index f839b5d..5591512 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -277,6 +277,24 @@ class DeferredSerializer(Serializer[T]):
         return _fetch_serializer(self.class_type).generate(data)
 
 
+class DeferredAliasSerializer(Serializer[T]):
+    """
+    Delegates to the serializer of a type alias that is still under construction.
+
+    Breaks the cycle in recursive type aliases.
+    """
+
+    ref: str
+    context: ModuleType
+
+    def __init__(self, ref: str, context: ModuleType) -> None:
+        self.ref = ref
+        self.context = context
+
+    def generate(self, data: T) -> JsonType:
+        return _get_serializer(self.ref, self.context).generate(data)
+
+
 class FieldSerializer(Generic[T]):
     """
     Serializes a Python object field into a JSON property.
@@ -426,7 +444,19 @@ def _get_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
         if context is None:
             raise TypeError(f"missing context for evaluating type: {typ}")
 
+        ref = typ.__forward_arg__ if isinstance(typ, typing.ForwardRef) else typ
         typ = evaluate_type(typ, context)
+        if not isinstance(typ, type):
+            pending_aliases = _get_pending_aliases()
+            if (context, ref) in pending_aliases:
+                # avoid infinite recursion for recursive type aliases
+                return DeferredAliasSerializer(ref, context)
+
+            pending_aliases.add((context, ref))
+            try:
+                return _create_serializer(typ, context)
+            finally:
+                pending_aliases.discard((context, ref))
 
     if isinstance(typ, type):
         if typ in _get_pending_types():
@@ -452,6 +482,16 @@ def _get_pending_types() -> set[type]:
     return pending_types
 
 
+def _get_pending_aliases() -> set[tuple[ModuleType, str]]:
+    "Type aliases for which the current thread is in the process of constructing a serializer."
+
+    pending_aliases: Optional[set[tuple[ModuleType, str]]] = getattr(_PENDING, "aliases", None)
+    if pending_aliases is None:
+        pending_aliases = set()
+        _PENDING.aliases = pending_aliases
+    return pending_aliases
+
+
 @functools.lru_cache(maxsize=None)
 def _fetch_serializer(typ: type) -> Serializer:
     context = sys.modules[typ.__module__]
-- 
2.43.0


From 3e883bc562233b3b6176163c0aba1b2724642ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:45 +0000
Subject: [PATCH 58/78] fix: ignore blank lines in front of the short
 description of a doc-string

---
 strong_typing/docstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index 11e00b2..09b86f5 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -257,7 +257,7 @@ def parse_text(text: str) -> Docstring:
         meta_chunk = ""
 
     # split description text into short and long description
-    parts = desc_chunk.split("\n\n", 1)
+    parts = desc_chunk.strip().split("\n\n", 1)
 
     # ensure short description has no newlines
     short_description = parts[0].strip().replace("\n", " ") or None
-- 
2.43.0


From 0dfafafab37a2d6cfbb8c260be58b9f337478f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:34 +0000
Subject: [PATCH 59/78] fix: permit doc-strings of members that a derived data
 class declares again

---
 strong_typing/docstring.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index 09b86f5..1817e50 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -378,17 +378,16 @@ def check_dataclass_docstring(typ: type[DataclassInstance], docstring: Docstring
     if not is_dataclass_type(typ):
         raise TypeError("not a data-class type")
 
-    base_props: set[str] = set()
-    for base in inspect.getmro(typ):
-        if base is typ:
-            continue
-        for name, _ in get_class_properties(base):
-            base_props.add(name)
-
-    properties: list[str] = []
-    for name, _ in get_class_properties(typ):
-        if name not in base_props:
-            properties.append(name)
+    # members that a class declares again are not inherited
+    inherited = [
+        field
+        for base in inspect.getmro(typ)[1:]
+        if is_dataclass_type(base)
+        for field in dataclasses.fields(base)
+    ]
+    properties = [
+        field.name for field in dataclasses.fields(typ) if not any(field is base_field for base_field in inherited)
+    ]
 
     class_name = typ.__name__
 
-- 
2.43.0


From 7886ef04719f9bf6262c8a0ef8f6fb32ec40bf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:21 +0000
Subject: [PATCH 60/78] fix: print enumeration members in literal types as
 expressions

---
 strong_typing/name.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index fea716a..5181276 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -4,6 +4,7 @@ Type-safe data interchange for Python data classes.
 :see: https://github.com/hunyadi/strong_typing
 """
 
+import enum
 import sys
 import typing
 from types import ModuleType
@@ -64,6 +65,9 @@ class TypeFormatter:
 
         if self.value_transform is not None:
             return self.value_transform(value)
+        elif isinstance(value, enum.Enum):
+            # `repr` of an enumeration member is not a Python expression
+            return f"{type(value).__name__}.{value.name}"
         else:
             return repr(value)
 
-- 
2.43.0


From c0a2993ef5e545a82d8e7dc44b6c6f29875aa14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:54 +0000
Subject: [PATCH 61/78] fix: print annotated None as a type expression

---
 strong_typing/name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index 5181276..0b5c4c6 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -211,7 +211,7 @@ class TypeFormatter:
 
             # type is an annotated type
             args = ", ".join(repr(m) for m in metatuple)
-            return f"Annotated[{self.plain_type_to_str(arg)}, {args}]"
+            return f"Annotated[{self.python_type_to_str(arg)}, {args}]"
         else:
             # type is a regular type
             return self.plain_type_to_str(data_type)
-- 
2.43.0


From 1c292278dd5a02968c757d30c0471ed5cb2f2f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:03 +0000
Subject: [PATCH 62/78] fix: keep all annotations when printing an auxiliary
 type with extra annotations

---
 strong_typing/name.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index 0b5c4c6..fda1d77 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -194,7 +194,6 @@ class TypeFormatter:
             arg = typing.get_args(data_type)[0]
 
             # check for auxiliary types with user-defined annotations
-            metaset = set(metatuple)
             for auxiliary_type, auxiliary_name in _auxiliary_types.items():
                 auxiliary_arg = typing.get_args(auxiliary_type)[0]
                 if arg is not auxiliary_arg:
@@ -204,9 +203,10 @@ class TypeFormatter:
                 if auxiliary_metatuple is None:
                     continue
 
-                if metaset.issuperset(auxiliary_metatuple):
+                count = len(auxiliary_metatuple)
+                if len(metatuple) > count and metatuple[:count] == auxiliary_metatuple:
                     # type is an auxiliary type with extra annotations
-                    auxiliary_args = ", ".join(repr(m) for m in metatuple if m not in auxiliary_metatuple)
+                    auxiliary_args = ", ".join(repr(m) for m in metatuple[count:])
                     return f"Annotated[{auxiliary_name}, {auxiliary_args}]"
 
             # type is an annotated type
-- 
2.43.0


From f904b4c1b26f30b8f0c5bd4be8222d94b7f9a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:22 +0000
Subject: [PATCH 63/78] fix: print and name types with annotations that are not
 hashable

---
 strong_typing/name.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index fda1d77..66ac04b 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -26,6 +26,16 @@ else:
     from typing_extensions import Self as Self
 
 
+def _auxiliary_type_name(data_type: TypeLike) -> Optional[str]:
+    "Returns the compact name of an auxiliary type."
+
+    try:
+        return _auxiliary_types.get(data_type)
+    except TypeError:
+        # type has an annotation that is not hashable
+        return None
+
+
 class TypeFormatter:
     """
     Converts a simple, composite or generic type to a string representation.
@@ -183,7 +193,7 @@ class TypeFormatter:
             return f"[{items}]"
 
         # use compact name for alias types
-        name = _auxiliary_types.get(data_type)
+        name = _auxiliary_type_name(data_type)
         if name is not None:
             return name
 
@@ -237,7 +247,7 @@ def python_type_to_name(data_type: TypeLike, *, force: bool = False) -> str:
     """
 
     # use compact name for alias types
-    name = _auxiliary_types.get(data_type)
+    name = _auxiliary_type_name(data_type)
     if name is not None:
         return name
 
-- 
2.43.0


From 1a18edfa4f442c15de748abaa4783751ce9e7409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 64/78] fix: apply type transformation to type references that
 are strings

---
 strong_typing/name.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index 66ac04b..3d0424c 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -133,6 +133,10 @@ class TypeFormatter:
 
             if data_type.isidentifier() and data_type in self.context.__dict__:
                 # simple type name that is defined in the current context
+                context_type = self.context.__dict__[data_type]
+                if isinstance(context_type, type) and self.type_transform is not None:
+                    return self.type_transform(context_type)
+
                 return data_type
 
             return self.python_type_to_str(evaluate_type(data_type, self.context))
-- 
2.43.0


From 71bac431e427ff3ba82a5ff8f5d75fd8b193eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:32 +0000
Subject: [PATCH 65/78] fix: apply predicate to IP addresses in a recursive
 check

---
 strong_typing/inspection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 4828d29..2400565 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -14,6 +14,7 @@ import importlib
 import importlib.machinery
 import importlib.util
 import inspect
+import ipaddress
 import re
 import sys
 import types
@@ -961,6 +962,8 @@ class RecursiveChecker:
             or typ is datetime.time
             or typ is datetime.timedelta
             or typ is uuid.UUID
+            or typ is ipaddress.IPv4Address
+            or typ is ipaddress.IPv6Address
         ):
             return self.pred(typing.cast(type, typ), obj)
 
-- 
2.43.0


From 03e532f716ba757e0417cad8c9896d9828cad161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:52 +0000
Subject: [PATCH 66/78] fix: evaluate types of inherited data-class fields in
 the module of the base class

---
 strong_typing/inspection.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 2400565..777064e 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -162,11 +162,20 @@ class DataclassField:
         self.default = default
 
 
+def _field_owner(cls: type[DataclassInstance], field: dataclasses.Field) -> type:
+    "The class in a hierarchy of data-classes that declares a field."
+
+    for base in reversed(inspect.getmro(cls)):
+        if base.__dict__.get("__dataclass_fields__", {}).get(field.name) is field:
+            return base
+    return cls
+
+
 def dataclass_fields(cls: type[DataclassInstance]) -> Iterable[DataclassField]:
     "Generates the fields of a data-class resolving forward references."
 
     for field in dataclasses.fields(cls):
-        yield DataclassField(field.name, evaluate_member_type(field.type, cls), field.default)
+        yield DataclassField(field.name, evaluate_member_type(field.type, _field_owner(cls, field)), field.default)
 
 
 def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> DataclassField:
@@ -174,7 +183,7 @@ def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> Dataclas
 
     for field in dataclasses.fields(cls):
         if field.name == name:
-            return DataclassField(field.name, evaluate_member_type(field.type, cls))
+            return DataclassField(field.name, evaluate_member_type(field.type, _field_owner(cls, field)))
 
     raise LookupError(f"field `{name}` missing from class `{cls.__name__}`")
 
-- 
2.43.0


From 9c9552fa88bf92d8c372c0c24bb37023874223e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:58 +0000
Subject: [PATCH 67/78] fix: include default value when looking up a data-class
 field by name

---
 strong_typing/inspection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 777064e..c985741 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -183,7 +183,9 @@ def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> Dataclas
 
     for field in dataclasses.fields(cls):
         if field.name == name:
-            return DataclassField(field.name, evaluate_member_type(field.type, _field_owner(cls, field)))
+            return DataclassField(
+                field.name, evaluate_member_type(field.type, _field_owner(cls, field)), field.default
+            )
 
     raise LookupError(f"field `{name}` missing from class `{cls.__name__}`")
 
-- 
2.43.0


From 71c686f8c813bdc3fc965fc1fb2a613eaf7dcc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 68/78] fix: add fields of annotation classes that derive from
 another annotation class

---
 strong_typing/auxiliary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/auxiliary.py b/strong_typing/auxiliary.py
index f112c8e..815d967 100644
--- a/strong_typing/auxiliary.py
+++ b/strong_typing/auxiliary.py
@@ -70,7 +70,8 @@ def typeannotation(
 
     def wrap(cls: type[T]) -> type[T]:
         cls.__repr__ = _compact_dataclass_repr  # type: ignore[method-assign]
-        if dataclasses.is_dataclass(cls):
+        if "__dataclass_fields__" in cls.__dict__:
+            # already a data-class, other than by inheritance
             return typing.cast(type[T], cls)
         else:
             return typing.cast(
-- 
2.43.0


From f7ed421d44757dab7b101c3fd7f32e4b6a0606f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:30 +0000
Subject: [PATCH 69/78] fix: refuse function, method, module and type objects
 in de-serializer as in serializer

---
 strong_typing/deserializer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 146d68c..2d39545 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -20,7 +20,7 @@ import types
 import typing
 import uuid
 from dataclasses import dataclass
-from types import ModuleType
+from types import FunctionType, MethodType, ModuleType
 from typing import Any, Callable, Generic, Literal, NamedTuple, Optional, TypeVar, Union
 
 from .core import JsonType
@@ -1011,6 +1011,10 @@ def _create_deserializer(typ: TypeLike, options: DeserializerOptions) -> Deseria
         else:
             raise TypeError(f"unable to de-serialize unrecognized type: {typ}")
 
+    # fail early if caller passes a type that has no representation in JSON
+    if typ is FunctionType or typ is MethodType or typ is type or typ is ModuleType:
+        raise TypeError(f"object of type {typ} cannot be represented in JSON")
+
     # check if object has custom serialization method
     convert_func = getattr(typ, "from_json", None)
     if callable(convert_func):
-- 
2.43.0


From 1789063a61f7999a8b16bff2d130189e93ed9af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:22 +0000
Subject: [PATCH 70/78] fix: de-serialize annotated forward reference

---
 strong_typing/deserializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 2d39545..d007a37 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -881,6 +881,9 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
 
     cache_key: Optional[tuple[Any, ...]] = None
 
+    # annotated type may wrap a forward reference
+    typ = unwrap_annotated_type(typ) if is_type_annotated(typ) else typ
+
     if isinstance(typ, (str, typing.ForwardRef)):
         if context is None:
             raise TypeError(f"missing context for evaluating type: {typ}")
-- 
2.43.0


From 5a4b7394f3b227d524558f3e3a6914c69b602594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:33 +0000
Subject: [PATCH 71/78] fix: do not retain serializers of types that refer to
 an unsupported type

---
 strong_typing/serializer.py | 66 ++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 5591512..c482bf0 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -8,9 +8,9 @@ Type-safe data interchange for Python data classes.
 
 import abc
 import base64
+import contextlib
 import datetime
 import enum
-import functools
 import inspect
 import ipaddress
 import sys
@@ -19,7 +19,7 @@ import types
 import typing
 import uuid
 from types import FunctionType, MethodType, ModuleType
-from typing import Any, Callable, Generic, Literal, NamedTuple, Optional, TypeVar, Union
+from typing import Any, Callable, Generic, Iterator, Literal, NamedTuple, Optional, TypeVar, Union
 
 from .core import JsonType
 from .exception import JsonTypeError, JsonValueError
@@ -447,19 +447,15 @@ def _get_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
         ref = typ.__forward_arg__ if isinstance(typ, typing.ForwardRef) else typ
         typ = evaluate_type(typ, context)
         if not isinstance(typ, type):
-            pending_aliases = _get_pending_aliases()
-            if (context, ref) in pending_aliases:
+            if (context, ref) in _PENDING.aliases:
                 # avoid infinite recursion for recursive type aliases
                 return DeferredAliasSerializer(ref, context)
 
-            pending_aliases.add((context, ref))
-            try:
+            with _under_construction(_PENDING.aliases, (context, ref)):
                 return _create_serializer(typ, context)
-            finally:
-                pending_aliases.discard((context, ref))
 
     if isinstance(typ, type):
-        if typ in _get_pending_types():
+        if typ in _PENDING.types:
             # avoid infinite recursion for recursive types
             return DeferredSerializer(typ)
 
@@ -469,38 +465,42 @@ def _get_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
         return _create_serializer(typ, context)
 
 
-_PENDING = threading.local()
+class _Pending(threading.local):
+    "Tracks what the current thread is in the process of constructing a serializer for."
 
+    def __init__(self) -> None:
+        self.types: set[type] = set()
+        self.aliases: set[tuple[ModuleType, str]] = set()
+        self.complete: dict[type, Serializer] = {}
 
-def _get_pending_types() -> set[type]:
-    "Types for which the current thread is in the process of constructing a serializer."
 
-    pending_types: Optional[set[type]] = getattr(_PENDING, "types", None)
-    if pending_types is None:
-        pending_types = set()
-        _PENDING.types = pending_types
-    return pending_types
+_CACHE: dict[type, Serializer] = {}
+_PENDING = _Pending()
 
 
-def _get_pending_aliases() -> set[tuple[ModuleType, str]]:
-    "Type aliases for which the current thread is in the process of constructing a serializer."
-
-    pending_aliases: Optional[set[tuple[ModuleType, str]]] = getattr(_PENDING, "aliases", None)
-    if pending_aliases is None:
-        pending_aliases = set()
-        _PENDING.aliases = pending_aliases
-    return pending_aliases
+@contextlib.contextmanager
+def _under_construction(pending: set[T], key: T) -> Iterator[None]:
+    is_outermost = not _PENDING.types and not _PENDING.aliases
+    pending.add(key)
+    try:
+        yield
+        if is_outermost:
+            # serializers may refer to one another, publish only when all of them are complete
+            _CACHE.update(_PENDING.complete)
+    finally:
+        pending.discard(key)
+        if is_outermost:
+            _PENDING.complete.clear()
 
 
-@functools.lru_cache(maxsize=None)
 def _fetch_serializer(typ: type) -> Serializer:
-    context = sys.modules[typ.__module__]
-    pending_types = _get_pending_types()
-    pending_types.add(typ)
-    try:
-        return _create_serializer(typ, context)
-    finally:
-        pending_types.discard(typ)
+    serializer = _CACHE.get(typ) or _PENDING.complete.get(typ)
+    if serializer is None:
+        context = sys.modules[typ.__module__]
+        with _under_construction(_PENDING.types, typ):
+            serializer = _create_serializer(typ, context)
+            _PENDING.complete[typ] = serializer
+    return serializer
 
 
 def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
-- 
2.43.0


From 30ad6c5713e2ba8e50e914a00461938872ffc715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 72/78] fix: generate a valid schema for an empty tuple type

---
 strong_typing/schema.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 9696de4..852423e 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -465,12 +465,14 @@ class JsonSchemaGenerator:
             }
         elif origin_type is tuple:
             args = typing.get_args(typ)
-            return {
+            schema = {
                 "type": "array",
                 "minItems": len(args),
                 "maxItems": len(args),
-                "prefixItems": [self.type_to_schema(member_type) for member_type in args],
             }
+            if args:  # list of item schemas must not be empty
+                schema["prefixItems"] = [self.type_to_schema(member_type) for member_type in args]
+            return schema
         elif origin_type is Literal:
             literal_values = typing.get_args(typ)
             literal_types = set(type(literal_value) for literal_value in literal_values)
-- 
2.43.0


From 80e94300b3d432841a6404819e6c9e3171ecddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:57 +0000
Subject: [PATCH 73/78] fix: forward references to special forms follow the
 name when another type is assigned to it

---
 strong_typing/deserializer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index d007a37..614126e 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -868,10 +868,11 @@ def create_deserializer(
     return _get_deserializer(typ, context, options)
 
 
-# fully constructed de-serializers by type (or forward reference) and options
+# fully constructed de-serializers by type and options
 _CACHE: dict[tuple[Any, ...], Deserializer] = {}
 
-# de-serializers under construction, visible only to the thread that holds the lock
+# de-serializers under construction by type (or forward reference) and options; visible only to the thread that holds the
+# lock
 _PENDING: dict[tuple[Any, ...], Deserializer] = {}
 _CACHE_LOCK = threading.RLock()
 
@@ -929,8 +930,9 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
             deserializer.build(context)
 
             if is_outermost:
-                # de-serializers may refer to one another, publish only when all of them are complete
-                _CACHE.update(_PENDING)
+                # de-serializers may refer to one another, publish only when all of them are complete; do not keep those
+                # for forward references to special forms because another type may be assigned to the name later
+                _CACHE.update((key, value) for key, value in _PENDING.items() if isinstance(key[0], type))
         finally:
             if is_outermost:
                 _PENDING.clear()
-- 
2.43.0


From 091ac76aa6da46486e52df8f344bf9c5e3378d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:00 +0000
Subject: [PATCH 74/78] fix: JSON schema of types whose annotations are not
 hashable

---
 strong_typing/auxiliary.py | 6 +++++-
 strong_typing/schema.py    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/strong_typing/auxiliary.py b/strong_typing/auxiliary.py
index 815d967..7492e68 100644
--- a/strong_typing/auxiliary.py
+++ b/strong_typing/auxiliary.py
@@ -212,4 +212,8 @@ for var in dir(module):
 def get_auxiliary_format(data_type: object) -> Optional[str]:
     "Returns the JSON format string corresponding to an auxiliary type."
 
-    return _auxiliary_types.get(data_type)
+    try:
+        return _auxiliary_types.get(data_type)
+    except TypeError:
+        # annotations of a type are not necessarily hashable
+        return None
diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 852423e..08bb221 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -148,7 +148,11 @@ class TypeCatalog:
             name = fwd.__forward_arg__
             return name in self._by_name
         else:
-            return data_type in self._by_type
+            try:
+                return data_type in self._by_type
+            except TypeError:
+                # annotations of a type are not necessarily hashable
+                return False
 
     def add(
         self,
-- 
2.43.0


From dc42b58949e7ff35062a45fccb1b2c195e6440bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:49 +0000
Subject: [PATCH 75/78] fix: collect types of inherited data-class fields in
 the module of the base class

---
 strong_typing/inspection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index c985741..ac150fa 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -740,8 +740,10 @@ class TypeCollector:
         if is_dataclass_type(typ) or is_type_enum(typ) or isinstance(typ, type):
             context = sys.modules[typ.__module__]
             if is_dataclass_type(typ):
-                for field in dataclass_fields(typ):
-                    self.run(field.type, typ, context)
+                for field in dataclasses.fields(typ):
+                    # inherited members are relative to the module of the base class
+                    owner = _field_owner(typ, field)
+                    self.run(field.type, typ, sys.modules[owner.__module__])
             else:
                 for _, field_type in get_resolved_hints(typ).items():
                     self.run(field_type, typ, context)
-- 
2.43.0


From a0e975a06853d0ef7eddd281538791c1ea07a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:43 +0000
Subject: [PATCH 76/78] fix: read frozen data classes with members that are not
 initialized by the constructor

---
 strong_typing/deserializer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 614126e..3db03c4 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -801,7 +801,13 @@ class FrozenDataclassDeserializer(DataclassDeserializer[T]):
         obj: T = create_object(self.class_type)
 
         # can't use `setattr` on frozen dataclasses, pass member variable values to `__init__`
-        obj.__init__(**field_values)  # type: ignore
+        init_fields = set(field.name for field in dataclasses.fields(self.class_type) if field.init)  # type: ignore
+        obj.__init__(**{name: value for name, value in field_values.items() if name in init_fields})  # type: ignore
+
+        # assign member variables that `__init__` does not take
+        for field_name, field_value in field_values.items():
+            if field_name not in init_fields:
+                object.__setattr__(obj, field_name, field_value)
         return obj
 
 
-- 
2.43.0


From 2cc21dd2603649df539f58d2c975c3278fcaf39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:15 +0000
Subject: [PATCH 77/78] fix: do not try to serialize static methods of objects
 without type annotations

---
 strong_typing/serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index c482bf0..67f3776 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -405,8 +405,8 @@ class UntypedClassSerializer(Serializer):
             if value is None:
                 continue
 
-            # filter instance methods
-            if inspect.ismethod(value):
+            # filter instance, class and static methods
+            if inspect.ismethod(value) or isinstance(inspect.getattr_static(obj, name, None), staticmethod):
                 continue
 
             object_dict[python_field_to_json_property(name)] = object_to_json(value)
-- 
2.43.0


From ca92397d38337da2ab31ea013f6e935b652c3b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:57 +0000
Subject: [PATCH 78/78] fix: check members of named tuples by their declared
 type, with annotations

---
 strong_typing/inspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index ac150fa..b91b040 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -1025,7 +1025,7 @@ class RecursiveChecker:
                 raise TypeError(f"expected `NamedTuple` but got: {obj}")
             return all(
                 self.check(field_type, getattr(obj, field_name))
-                for field_name, field_type in typing.get_type_hints(typ).items()
+                for field_name, field_type in get_resolved_hints(typ).items()
             )
         elif is_dataclass_type(typ):
             if not isinstance(obj, typ):
-- 
2.43.0

