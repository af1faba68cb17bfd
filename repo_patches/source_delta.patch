From ef4462aea6cd5964384588288ce15300b9bbee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 01/54] fix: do not use the value handler to load dictionary
 keys

When the handler for the value type of a Dict was not cached yet, it was
assigned to key_f, so on the first load keys were loaded with the wrong
handler (e.g. a NewType key was returned without being loaded at all).
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7c8ff81..e903d24 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -393,7 +393,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         value_f = value_handler
     else:
         try:
-            key_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
+            value_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
         except ValueError:
             raise TypedloadValueError(
                 'Cannot deal with value of type %s (value of %s)' % (tname(value_type), tname(type_)),
-- 
2.43.0


From a7947198964137af052c999bfc2610f3cb54a1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 02/54] fix: loading a TypedDict must not change its
 annotations

NotRequired was being removed from the annotations of the class itself.
---
 typedload/dataloader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index e903d24..fd8adc6 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -631,7 +631,8 @@ def _typeddictload(l: Loader, value: Any, type_) -> Any:
     if l.pep563:
         type_hints = get_type_hints(type_)
     else:
-        type_hints = type_.__annotations__
+        # Copy, because it is changed below
+        type_hints = dict(type_.__annotations__)
     fields = set(type_hints.keys())
 
     if hasattr(type_, '__required_keys__') and hasattr(type_, '__optional_keys__'):
-- 
2.43.0


From e89309f1207a083f27da68fde9234d9036df26b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 03/54] fix: raise TypedloadTypeError when loading a tuple from
 a value with no length

load(None, Tuple[int, int]) was an AssertionError, and made unions fail
instead of trying the next type.
---
 typedload/dataloader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index fd8adc6..35c1ce2 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -434,9 +434,13 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     # Tuple[something, something, somethingelse]
     if isinstance(value, dict):
         raise TypedloadTypeError('Unable to load dictionary as a tuple', value=value, type_=type_)
-    if l.failonextra and len(value) > len(args):
+    try:
+        length = len(value)
+    except TypeError as e:
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
+    if l.failonextra and length > len(args):
         raise TypedloadValueError('Value is too long for type %s' % tname(type_), value=value, type_=type_)
-    elif len(value) < len(args):
+    elif length < len(args):
         raise TypedloadValueError('Value is too short for type %s' % tname(type_), value=value, type_=type_)
 
     ctr = count(1)  # Keep track of the position in the tuple
-- 
2.43.0


From c258c6825e3e277e3e80ddf2314caf00ca1869cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 04/54] fix: raise TypedloadValueError for a timedelta out of
 range

NaN, infinity and values that are too big were an AssertionError.
---
 typedload/dataloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 35c1ce2..db19a1b 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -842,6 +842,8 @@ def _timedeltaload(l: Loader, value, type_) -> datetime.timedelta:
         return type_(0, value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
+    except (ValueError, OverflowError) as e:
+        raise TypedloadValueError(str(e), type_=type_, value=value)
 
 def _get_attr_converter_type(c: "Callable"):
     """
-- 
2.43.0


From d3177726897c2f9841fa442c732d2bb5bdcba7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 05/54] fix: raise TypedloadValueError for a date with numbers
 that are too big

The OverflowError became an AssertionError.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index db19a1b..dd2e23d 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -820,7 +820,7 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
             return type_(*value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
-    except ValueError as e:
+    except (ValueError, OverflowError) as e:
         raise TypedloadValueError(str(e), type_=type_, value=value)
 
 
-- 
2.43.0


From 15ad5825982b0d9188a67553e7bfddb1ece82649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 06/54] fix: enforce the argument of Pattern

The check was looking at the attributes of the builtin type rather than at
the type being loaded, so Pattern[str] was accepting bytes.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index dd2e23d..be105c4 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -825,7 +825,7 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
 
 
 def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
-    if hasattr(type, "__args__"):
+    if hasattr(type_, "__args__"):
         (input_type,) = type_.__args__
         if input_type in {bytes, str} and type(value) != input_type:
             raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
-- 
2.43.0


From f9ae979bff2733f2ad94bdcaee00cff5d99b0ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 07/54] fix: raise TypedloadException for every pattern that
 does not compile

For example 'a{99999999999999999999}' is an OverflowError, that became an
AssertionError.
---
 typedload/dataloader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index be105c4..e46d3e7 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -831,10 +831,11 @@ def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
             raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
     try:
         return re.compile(value)
-    except re.error as e:
-        raise TypedloadException(str(e), value=value, type_=type_)
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
+    except Exception as e:
+        # Mostly re.error, but also OverflowError, RecursionError...
+        raise TypedloadException(str(e), value=value, type_=type_)
 
 
 def _timedeltaload(l: Loader, value, type_) -> datetime.timedelta:
-- 
2.43.0


From 8a021d5d9566d439a137ec60eef4403761da509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 08/54] fix: union of tagged objects when the value of the tag
 is not hashable

{'type': []} was an AssertionError rather than a TypedloadValueError.
---
 typedload/dataloader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index e46d3e7..fb2ca4b 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -707,7 +707,11 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
         # Cache is created, use it
         # It's a tuple key, {value: type}
         if discriminatorscache[1]:
-            preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
+            try:
+                preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
+            except TypeError:
+                # Not hashable, so it can't be any of the literals
+                preferredtype = None
             if preferredtype:
                 # Place best value on top
                 sorted_args.remove(preferredtype)
-- 
2.43.0


From 8f32dfeb1ddcfea65de6adec8fbb4b3debbe4201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 09/54] fix: failonextra when the name of the extra field is
 not a string

Generating the error message was raising a TypeError that became an
AssertionError.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index fb2ca4b..d5e08a8 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -572,7 +572,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         )
 
     if l.failonextra and len(extra_fields := vfields.difference(fields)):
-        extra = ', '.join(extra_fields)
+        extra = ', '.join(map(str, extra_fields))
         raise TypedloadValueError(
             'Dictionary has unrecognized fields: %s and cannot be loaded into %s' % (extra, tname(type_)),
             value=value,
-- 
2.43.0


From 146a6bd387c239531cbb1190306abcbade8a174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 10/54] fix: keep the trace of AttributeErrors raised inside of
 a Dict

They were taken for a failure of the dictionary itself, so the path of the
error was lost. Also raise a TypedloadTypeError when keys load into
something that can't be a key.
---
 typedload/dataloader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index d5e08a8..86f2dd9 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -418,8 +418,14 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         return {
             l.load(k, key_type, annotation=Annotation(AnnotationType.KEY, k)): l.load(v, value_type, annotation=Annotation(AnnotationType.VALUE, v))
             for k, v in value.items()}
+    except TypedloadException:
+        # Raised while loading a key or a value, it has the trace
+        raise
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), type_=type_, value=value)
+    except TypeError as e:
+        # The loaded keys are not hashable
+        raise TypedloadTypeError(str(e), type_=type_, value=value)
 
 
 def _tupleload(l: Loader, value: Any, type_) -> Tuple:
-- 
2.43.0


From 0f36da1f742122555e39f08850dc1dbc578dbdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 11/54] fix: raise TypedloadException for any error in the
 constructor of an object

Only TypeError and ValueError were handled, any other exception, for
example from __post_init__, became an AssertionError. The exceptions also
miss value and type_.
---
 typedload/dataloader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 86f2dd9..cb607ec 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -614,9 +614,11 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     try:
         return type_(**params)
     except TypeError as e:
-        raise TypedloadTypeError(e)
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
     except ValueError as e:
-        raise TypedloadValueError(e)
+        raise TypedloadValueError(str(e), value=value, type_=type_)
+    except Exception as e:
+        raise TypedloadException(str(e), value=value, type_=type_)
 
 
 def _namedtupleload(l: Loader, value: Any, type_) -> Any:
-- 
2.43.0


From 36f6c857f53e616aa0c381d4abeb439df978ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 12/54] fix: attrs converter with a type hint only for the
 return value

The StopIteration was an AssertionError, and within a list it silently
truncated the list.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index cb607ec..97a4d86 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -870,7 +870,7 @@ def _get_attr_converter_type(c: "Callable"):
     if len(hints) > 0 and len(hints) <= 2:
         if 'return' in hints:
             del hints['return']
-        return next(iter(hints.values()))
+        return next(iter(hints.values()), Any)
     return Any
 
 
-- 
2.43.0


From 98e99897ef647e75249941a5c909c32860b9c938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 13/54] fix: attrs converter that is not a function

get_type_hints() raises an exception on things like functools.partial, that
became an AssertionError.
---
 typedload/dataloader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 97a4d86..7f69ada 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -866,7 +866,11 @@ def _get_attr_converter_type(c: "Callable"):
 
     If it's typed, return the type of the parameter. Otherwise return Any
     """
-    hints = get_type_hints(c)
+    try:
+        hints = get_type_hints(c)
+    except Exception:
+        # Not all callables can be inspected, for example functools.partial
+        return Any
     if len(hints) > 0 and len(hints) <= 2:
         if 'return' in hints:
             del hints['return']
-- 
2.43.0


From c543eacce8f90826d1b02640b1dc3107c93821b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 14/54] fix: dump attrs fields which have a factory that takes
 self

It was a TypeError, because the factory was called with no parameter.
---
 typedload/datadumper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index cdf3664..7d4ee13 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -214,8 +214,10 @@ def _attrdump(d, value, t) -> Dict[str, Any]:
         if d.hidedefault:
             if attrval == attr.default:
                 continue
-            elif hasattr(attr.default, 'factory') and attrval == attr.default.factory():
-                continue
+            elif hasattr(attr.default, 'factory'):
+                default = attr.default.factory(value) if attr.default.takes_self else attr.default.factory()
+                if attrval == default:
+                    continue
         name = attr.metadata.get(d.mangle_key, attr.name)
         r[name] = d.dump(attrval)
     return r
-- 
2.43.0


From e76ec373537e09951cd9eed384406558511202b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 15/54] fix: dump dataclasses that have no fields, or have
 forward references

get_type_hints() fails for those.
---
 typedload/datadumper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 7d4ee13..1f7c5ca 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -270,7 +270,11 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
         field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
-        type_hints = get_type_hints(value)
+        try:
+            type_hints = get_type_hints(value)
+        except Exception:
+            # No hints or forward references. They are only used to be faster
+            type_hints = {}
         d._dataclasscache[t] = (fields, defaults, type_hints)
     else:
         fields, defaults, type_hints = cached
-- 
2.43.0


From 19b74ad1d6b4a29c0879d089afbccbdb6daf6c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 16/54] fix: load(None, None) as shown in the documentation

Also dataclass fields annotated with None could not be loaded.
---
 typedload/typechecks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typedload/typechecks.py b/typedload/typechecks.py
index 3bcc7ee..57d7443 100644
--- a/typedload/typechecks.py
+++ b/typedload/typechecks.py
@@ -143,8 +143,10 @@ def is_optional(type_: Any) -> bool:
 def is_nonetype(type_: Any) -> bool:
     '''
     type_ == type(None)
+
+    None in type hints is the same as type(None)
     '''
-    return type_ == NONETYPE
+    return type_ is None or type_ == NONETYPE
 
 
 def _generic_type_check(type_: Any, native, from_typing) -> bool:
-- 
2.43.0


From 6286ccabce61364a17c1fbe98930aaa6480cfe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 17/54] fix: resolve ForwardRef to types that are not the one
 passed to load()

The loaders of lists, objects, unions... find the handlers without calling
load(), so the types found there were not added to the known types, and
for example a recursive class could be loaded but a list of it could not.

The name is now known before the handler is in the cache, or another thread
using the same loader could use the cached handler and fail to resolve the
reference.
---
 typedload/dataloader.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7f69ada..de1c223 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -257,6 +257,11 @@ class Loader:
                     raise
                 match = False
             if match:
+                # Add type to known types, to resolve ForwardRef later on
+                if self.frefs is not None and hasattr(type_, '__name__'):
+                    typename = type_.__name__
+                    if typename not in self.frefs:
+                        self.frefs[typename] = type_
                 return i
         raise ValueError('No matching condition found')
 
@@ -289,12 +294,6 @@ class Loader:
 
             func = self._indexcache[type_] = self.handlers[index][1]
 
-            # Add type to known types, to resolve ForwardRef later on
-            if self.frefs is not None and hasattr(type_, '__name__'):
-                typename = type_.__name__
-                if typename not in self.frefs:
-                    self.frefs[typename] = type_
-
         try:
             return func(self, value, type_)
         except Exception as e:
-- 
2.43.0


From 993e15c108d8ad383e9031c91e5eb5755b83c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 18/54] fix: ClassVar is not a field of the dataclass

It was required when loading, and with hidedefault=False it was dumped, and
the dump could not be loaded back.
---
 typedload/datadumper.py | 10 ++++++----
 typedload/dataloader.py |  9 ++++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 1f7c5ca..5718167 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -265,10 +265,12 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
     t = type(value)
     cached = d._dataclasscache.get(t)
     if cached is None:
-        from dataclasses import _MISSING_TYPE as DT_MISSING_TYPE
-        fields = set(value.__dataclass_fields__.keys())
-        field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
-        field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
+        from dataclasses import _MISSING_TYPE as DT_MISSING_TYPE, fields as dataclassfields
+        # This leaves out ClassVar, unlike __dataclass_fields__
+        dcfields = {i.name: i for i in dataclassfields(value)}
+        fields = set(dcfields.keys())
+        field_defaults = {k: v.default for k,v in dcfields.items() if not isinstance (v.default, DT_MISSING_TYPE)}
+        field_factories = {k: v.default_factory() for k,v in dcfields.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
         try:
             type_hints = get_type_hints(value)
diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index de1c223..7d33ed5 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -21,6 +21,7 @@ Module to load data into typed data structures
 # author Salvo "LtWorf" Tomaselli <tiposchi@tiscali.it>
 
 
+import dataclasses
 import datetime
 from enum import Enum
 import ipaddress
@@ -504,15 +505,17 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
     if cached:
         fields, necessary_fields, type_hints, transforms = cached
     else:
-        fields = set(type_.__dataclass_fields__.keys())
-        necessary_fields = {k for k,v in type_.__dataclass_fields__.items() if
+        # This leaves out ClassVar, unlike __dataclass_fields__
+        dcfields = {i.name: i for i in dataclasses.fields(type_)}  # type: Dict[str, Any]
+        fields = set(dcfields.keys())
+        necessary_fields = {k for k,v in dcfields.items() if
                             v.init == True and # Is a field for the constructor
                             v.default == v.default_factory # Has no default or factory
                             }
         if l.pep563:
             type_hints = get_type_hints(type_)
         else:
-            type_hints = {k: v.type for k,v in type_.__dataclass_fields__.items()}
+            type_hints = {k: v.type for k,v in dcfields.items()}
 
         #Name mangling
 
-- 
2.43.0


From 34dd80dcfbe1ab0a76dbcc352997737b6990b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 19/54] fix: load back the dump of objects that have init=False
 fields

Those fields are dumped, but loading them was a TypedloadTypeError because
they were passed to the constructor. Now they are skipped.
---
 typedload/dataloader.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7d33ed5..ddb47f8 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -239,7 +239,7 @@ class Loader:
 
         self._indexcache = {}  # type: Dict[Any, Callable[[Loader, Any, Any], Any]]
 
-        self._objfieldscache = {}  # type: Dict[Type, Tuple[Set[str], Set[str], Dict[str, Type], Dict[str, str]]]
+        self._objfieldscache = {}  # type: Dict[Type, Tuple[Set[str], Set[str], Dict[str, Type], Dict[str, str], Set[str]]]
 
         self._unionload_discriminatorcache = {}  # type: Dict[Type, Tuple[Optional[str], Optional[Dict[Any, Type]]]]
 
@@ -503,7 +503,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
     """
     cached = l._objfieldscache.get(type_)
     if cached:
-        fields, necessary_fields, type_hints, transforms = cached
+        fields, necessary_fields, type_hints, transforms, noinit_fields = cached
     else:
         # This leaves out ClassVar, unlike __dataclass_fields__
         dcfields = {i.name: i for i in dataclasses.fields(type_)}  # type: Dict[str, Any]
@@ -526,7 +526,8 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
                 name = type_.__dataclass_fields__[pyname].metadata.get(l.mangle_key)
                 if name:
                     transforms[name] = pyname
-        l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms)
+        noinit_fields = {k for k,v in dcfields.items() if not v.init}
+        l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms, noinit_fields)
 
     try:
         value = _mangle_names(transforms, value, l.failonextra)
@@ -535,7 +536,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
-    return _objloader(l, fields, necessary_fields, type_hints, value, type_)
+    return _objloader(l, fields, necessary_fields, type_hints, value, type_, noinit_fields)
 
 
 def _dictequivalence(l: Loader, value: Any) -> Any:
@@ -554,9 +555,11 @@ def _dictequivalence(l: Loader, value: Any) -> Any:
     return value
 
 
-def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hints, value: Any, type_) -> Any:
+def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hints, value: Any, type_, noinit_fields: Collection[str]=()) -> Any:
     '''
     Helper function to load dict-like data into an object.
+
+    noinit_fields are in the dumped data, but the constructor doesn't accept them.
     '''
     try:
         vfields = set(value.keys())
@@ -589,8 +592,8 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
 
     params = {}
     for k, v in value.items():
-        if k not in fields:
-            # Field in value is not in the type
+        if k not in fields or k in noinit_fields:
+            # Field in value is not in the type, or the type decides its value
             continue
 
         # loading field directly, skipping load()
@@ -887,6 +890,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
     necessary_fields = set()
     type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__}
     namesmap = {}  # type: Dict[str, str]
+    noinit_fields = {i.name for i in type_.__attrs_attrs__ if not i.init}
 
     for attribute in type_.__attrs_attrs__:
         if attribute.default is NOTHING and attribute.init:
@@ -903,7 +907,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
-    return _objloader(l, fields, necessary_fields, type_hints, value, type_)
+    return _objloader(l, fields, necessary_fields, type_hints, value, type_, noinit_fields)
 
 
 def _strconstructload(l: Loader, value, type_):
-- 
2.43.0


From 7fec43b2cd251e58d51576cc6d12834364f50bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 20/54] fix: loading objects from things that have keys but are
 not dictionaries

A Namespace that contains an item named 'keys', or an object that has keys()
and no items(), were an AssertionError.
---
 typedload/dataloader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index ddb47f8..6a50357 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -563,7 +563,8 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     '''
     try:
         vfields = set(value.keys())
-    except AttributeError as e:
+        items = value.items()
+    except (AttributeError, TypeError) as e:
         newvalue = _dictequivalence(l, value)
 
         if newvalue is value:
@@ -571,6 +572,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         else:
             value = newvalue
             vfields = set(value.keys())
+            items = value.items()
 
     if len(necessary_fields.intersection(vfields)) != len(necessary_fields):
         raise TypedloadValueError(
@@ -591,7 +593,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         )
 
     params = {}
-    for k, v in value.items():
+    for k, v in items:
         if k not in fields or k in noinit_fields:
             # Field in value is not in the type, or the type decides its value
             continue
-- 
2.43.0


From fabe8fb8886fec9504fd88e0237d750e144f9d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 21/54] fix: load argparse.Namespace into objects that use name
 mangling

It was being converted to a dictionary only after the mangling, that needs
a dictionary.
---
 typedload/dataloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 6a50357..85f00fa 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -529,6 +529,8 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         noinit_fields = {k for k,v in dcfields.items() if not v.init}
         l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms, noinit_fields)
 
+    if transforms:
+        value = _dictequivalence(l, value)
     try:
         value = _mangle_names(transforms, value, l.failonextra)
     except ValueError as e:
@@ -902,6 +904,8 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
         if l.mangle_key in attribute.metadata:
             namesmap[attribute.metadata[l.mangle_key]] = attribute.name
 
+    if namesmap:
+        value = _dictequivalence(l, value)
     try:
         value = _mangle_names(namesmap, value, l.failonextra)
     except ValueError as e:
-- 
2.43.0


From 314977a6d18aefcaa4b7b4dc65da53afe6b5e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 22/54] fix: do not show None in the path of errors inside of a
 NewType

The path was '.field.None', but there is no None in the data.
---
 typedload/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/exceptions.py b/typedload/exceptions.py
index a485bcb..9ebc050 100644
--- a/typedload/exceptions.py
+++ b/typedload/exceptions.py
@@ -107,10 +107,10 @@ class TypedloadException(Exception):
         Compact representation of where in the data the exception happened
         '''
         path = []
-        for i in trace:
+        for n, i in enumerate(trace):
             if i.annotation:
                 path.append('[%d]' % i.annotation[1] if isinstance(i.annotation[1], int) else str(i.annotation[1]))
-            else:
+            elif n == 0:
                 path.append(str(None))
         if len(path) == 1 and path[0] == str(None):
             return '.'
-- 
2.43.0


From 352a5bfa483f1605dcd7d472c1988ccefbfcdfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 23/54] fix: load attrs with private fields

attrs drops the leading underscore from the name of the parameter of the
constructor, so those objects could be dumped but not loaded.
---
 typedload/dataloader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 85f00fa..90a58de 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -557,11 +557,12 @@ def _dictequivalence(l: Loader, value: Any) -> Any:
     return value
 
 
-def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hints, value: Any, type_, noinit_fields: Collection[str]=()) -> Any:
+def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hints, value: Any, type_, noinit_fields: Collection[str]=(), argnames: Dict[str, str]={}) -> Any:
     '''
     Helper function to load dict-like data into an object.
 
     noinit_fields are in the dumped data, but the constructor doesn't accept them.
+    argnames are the fields whose constructor parameter has a different name.
     '''
     try:
         vfields = set(value.keys())
@@ -615,7 +616,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
                     type_=field_type
                 )
         try:
-            params[k] = loader_f(l, v, field_type)
+            params[argnames.get(k, k)] = loader_f(l, v, field_type)
         except TypedloadException as e:
             annotation=Annotation(AnnotationType.FIELD, k)
             e.trace.insert(0, TraceItem(value, type_, annotation))
@@ -895,6 +896,8 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
     type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__}
     namesmap = {}  # type: Dict[str, str]
     noinit_fields = {i.name for i in type_.__attrs_attrs__ if not i.init}
+    # The constructor takes 'x' for the attribute '_x'. Versions before 22.2.0 have no alias.
+    argnames = {i.name: getattr(i, 'alias', i.name.lstrip('_')) for i in type_.__attrs_attrs__}
 
     for attribute in type_.__attrs_attrs__:
         if attribute.default is NOTHING and attribute.init:
@@ -913,7 +916,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
-    return _objloader(l, fields, necessary_fields, type_hints, value, type_, noinit_fields)
+    return _objloader(l, fields, necessary_fields, type_hints, value, type_, noinit_fields, argnames)
 
 
 def _strconstructload(l: Loader, value, type_):
-- 
2.43.0


From ac4b113e4436f06a8504d5d4a5ddc45e039c4f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 24/54] fix: rendering the error of an enum with type hints

The list of exceptions contained a ValueError, which has no path, so
converting the TypedloadException to a string raised an AttributeError.
---
 typedload/dataloader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 90a58de..a786a9d 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -804,12 +804,16 @@ def _enumload(l: Loader, value: Any, type_) -> Enum:
         pass
 
     # Try with the typing hints
-    exceptions = []
+    exceptions = []  # type: List[TypedloadException]
     for _, t in get_type_hints(type_).items():
+        annotation = Annotation(AnnotationType.UNION, t)
         try:
-            return type_(l.load(value, t, annotation=Annotation(AnnotationType.UNION, t)))
-        except Exception as e:
+            return type_(l.load(value, t, annotation=annotation))
+        except TypedloadException as e:
             exceptions.append(e)
+        except Exception as e:
+            # Loaded, but it is not a value of the enum
+            exceptions.append(TypedloadValueError(str(e), trace=[TraceItem(value, t, annotation)], value=value, type_=t))
     if len(type_.__members__) <= 10 and all(type(i.value) in l.basictypes for i in type_.__members__.values()):
         lst = '\nValue %s not between: ' % repr(value) + \
         ', '.join(repr(i.value) for i in type_.__members__.values())
-- 
2.43.0


From 82b7484bd4c6a1564a89c7f330a619d7cd0bd731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 25/54] fix: errors on values that have no repr

Integers with thousands of digits can't be converted to a string, so
reporting that they were wrong failed with an AssertionError.
---
 typedload/dataloader.py | 10 +++++-----
 typedload/exceptions.py |  9 ++++++++-
 typedload/helpers.py    | 14 ++++++++++++++
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index a786a9d..393760c 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -35,7 +35,7 @@ import uuid
 from .exceptions import *
 from .typechecks import *
 from .typechecks import discriminatorliterals
-from .helpers import tname
+from .helpers import tname, vrepr
 
 
 __all__ = [
@@ -358,7 +358,7 @@ def _basicload(l: Loader, value: Any, type_) -> Any:
             except Exception as e:
                 raise TypedloadException(str(e), value=value, type_=type_)
         else:
-            raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
+            raise TypedloadValueError('Got %s of type %s, expected %s' % (vrepr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
     return value
 
 
@@ -815,8 +815,8 @@ def _enumload(l: Loader, value: Any, type_) -> Enum:
             # Loaded, but it is not a value of the enum
             exceptions.append(TypedloadValueError(str(e), trace=[TraceItem(value, t, annotation)], value=value, type_=t))
     if len(type_.__members__) <= 10 and all(type(i.value) in l.basictypes for i in type_.__members__.values()):
-        lst = '\nValue %s not between: ' % repr(value) + \
-        ', '.join(repr(i.value) for i in type_.__members__.values())
+        lst = '\nValue %s not between: ' % vrepr(value) + \
+        ', '.join(vrepr(i.value) for i in type_.__members__.values())
     else:
         lst = ''
     raise TypedloadValueError(
@@ -854,7 +854,7 @@ def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
     if hasattr(type_, "__args__"):
         (input_type,) = type_.__args__
         if input_type in {bytes, str} and type(value) != input_type:
-            raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
+            raise TypedloadValueError('Got %s of type %s, expected %s' % (vrepr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
     try:
         return re.compile(value)
     except TypeError as e:
diff --git a/typedload/exceptions.py b/typedload/exceptions.py
index 9ebc050..0cb594a 100644
--- a/typedload/exceptions.py
+++ b/typedload/exceptions.py
@@ -24,6 +24,8 @@ Exceptions
 from enum import Enum
 from typing import Any, List, NamedTuple, Optional, Type, Union
 
+from .helpers import vrepr
+
 
 __all__ = [
     'TypedloadException',
@@ -109,7 +111,12 @@ class TypedloadException(Exception):
         path = []
         for n, i in enumerate(trace):
             if i.annotation:
-                path.append('[%d]' % i.annotation[1] if isinstance(i.annotation[1], int) else str(i.annotation[1]))
+                name = i.annotation[1]
+                try:
+                    path.append('[%d]' % name if isinstance(name, int) else str(name))
+                except Exception:
+                    # Keys and values of dictionaries can be anything
+                    path.append(vrepr(name))
             elif n == 0:
                 path.append(str(None))
         if len(path) == 1 and path[0] == str(None):
diff --git a/typedload/helpers.py b/typedload/helpers.py
index 1aa8d71..82de329 100644
--- a/typedload/helpers.py
+++ b/typedload/helpers.py
@@ -27,6 +27,7 @@ from typing import Any, Tuple, Union, Set, List, Dict, Type, FrozenSet
 
 __all__ = [
     'tname',
+    'vrepr',
 ]
 
 
@@ -35,3 +36,16 @@ def tname(type_) -> str:
     Return a nice string for a type
     '''
     return getattr(type_, '__qualname__', str(type_))
+
+
+def vrepr(value) -> str:
+    '''
+    repr() that can be used while reporting errors.
+
+    Integers with thousands of digits have no repr, and for
+    unknown classes it might fail.
+    '''
+    try:
+        return repr(value)
+    except Exception:
+        return object.__repr__(value)
-- 
2.43.0


From 276fe12286c850777a0a20a1f6138e15dba9da72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 26/54] fix: data lost when a Dict contains an iterator that
 can't be loaded

After a failure everything was loaded again to find the location of the error.
The iterators were already consumed, so the second time it worked, and the
result was missing their items.
---
 typedload/dataloader.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 393760c..0459f2c 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -403,24 +403,23 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
 
     value = _dictequivalence(l, value)
 
-    # Try fast load
-    try:
-        return {
-            k if key_type_basic and isinstance(k, key_type) else key_f(l, k, key_type): \
-            v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type) \
-            for k, v in value.items()
-        }
-    except Exception:
-        # Failed, do the slow method with exception tracking
-        pass
-
+    # In a single pass, because the data can contain iterators
+    r = {}
+    key_loaded = False
     try:
-        return {
-            l.load(k, key_type, annotation=Annotation(AnnotationType.KEY, k)): l.load(v, value_type, annotation=Annotation(AnnotationType.VALUE, v))
-            for k, v in value.items()}
-    except TypedloadException:
-        # Raised while loading a key or a value, it has the trace
-        raise
+        for k, v in value.items():
+            key_loaded = False
+            newk = k if key_type_basic and isinstance(k, key_type) else key_f(l, k, key_type)
+            key_loaded = True
+            r[newk] = v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type)
+        return r
+    except TypedloadException as e:
+        # Raised while loading a key or a value
+        if key_loaded:
+            e.trace.insert(0, TraceItem(v, value_type, Annotation(AnnotationType.VALUE, v)))
+        else:
+            e.trace.insert(0, TraceItem(k, key_type, Annotation(AnnotationType.KEY, k)))
+        raise e
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), type_=type_, value=value)
     except TypeError as e:
-- 
2.43.0


From b9c232bc87874d7e99d730a425988b762e408bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 27/54] fix: failonextra when the name of the extra field has
 no string form

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 0459f2c..c6d2d10 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -587,7 +587,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         )
 
     if l.failonextra and len(extra_fields := vfields.difference(fields)):
-        extra = ', '.join(map(str, extra_fields))
+        extra = ', '.join(i if isinstance(i, str) else vrepr(i) for i in extra_fields)
         raise TypedloadValueError(
             'Dictionary has unrecognized fields: %s and cannot be loaded into %s' % (extra, tname(type_)),
             value=value,
-- 
2.43.0


From b6bc54a20bb765e3d37de7cd67c57b05dc1cd52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 28/54] fix: raise TypedloadException when iterating the items
 of a date fails

---
 typedload/dataloader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index c6d2d10..76467dc 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -847,6 +847,9 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
         raise TypedloadTypeError(str(e), type_=type_, value=value)
     except (ValueError, OverflowError) as e:
         raise TypedloadValueError(str(e), type_=type_, value=value)
+    except Exception as e:
+        # Raised while iterating value
+        raise TypedloadException(str(e), type_=type_, value=value)
 
 
 def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
-- 
2.43.0


From 38fa4c35c9daf2eb38c4dafb474b6a5deb785855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 29/54] fix: load into objects that use name mangling from
 things that are not dictionaries

---
 typedload/dataloader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 76467dc..b20576e 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -534,7 +534,8 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         value = _mangle_names(transforms, value, l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
-    except AttributeError as e:
+    except (AttributeError, TypeError) as e:
+        # Not something like a dictionary
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_, noinit_fields)
@@ -919,7 +920,8 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
         value = _mangle_names(namesmap, value, l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
-    except AttributeError as e:
+    except (AttributeError, TypeError) as e:
+        # Not something like a dictionary
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_, noinit_fields, argnames)
-- 
2.43.0


From 83c1441493e1477cbb924d074d678db95cceded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 30/54] fix: load dataclass fields whose name in the data is
 the empty string

---
 typedload/dataloader.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index b20576e..b76a2b3 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -521,10 +521,9 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         # Prepare the list of the needed name changes
         transforms = {}
         for pyname in fields:
-            if type_.__dataclass_fields__[pyname].metadata:
-                name = type_.__dataclass_fields__[pyname].metadata.get(l.mangle_key)
-                if name:
-                    transforms[name] = pyname
+            metadata = type_.__dataclass_fields__[pyname].metadata
+            if l.mangle_key in metadata:
+                transforms[metadata[l.mangle_key]] = pyname
         noinit_fields = {k for k,v in dcfields.items() if not v.init}
         l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms, noinit_fields)
 
-- 
2.43.0


From 8c25d8034e3db5947e5e1bcffa685dbc5998a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 31/54] fix: dump type hints bypassed a replaced handler for
 basic types

---
 typedload/datadumper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 5718167..6754e89 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -153,6 +153,9 @@ class Dumper:
             (lambda value: type(value) in self.strconstructed, lambda l, value, t: str(value)),
         ]  # type: List[Tuple[Callable[[Any], bool], Callable[['Dumper', Any, Any], Any]|Callable[['Dumper', Any], Any]]]
 
+        # To know if the default handler for basic types is still in place
+        self._basichandler = self.handlers[0]
+
         self._handlerscache = {}  # type: Dict[Type[Any], Callable[['Dumper', Any, Any], Any]]
         self._dataclasscache = {}  # type: Dict[Type[Any], Tuple[Set[str], Dict[str, Any], Dict[str, Any]]]
 
@@ -296,7 +299,7 @@ def _iteratordump(d: Dumper, value: Any, t: Any) -> List[Any]:
     else:
         itertype = Any
 
-    if itertype in d.basictypes and d.handlers[0][1] == _identitydump:
+    if itertype in d.basictypes and d.handlers[0] is d._basichandler:
         # Iterable of basic types, unchanged default handler for basic types
         if isinstance(value, list):
             # Just copy the list if it's a list
-- 
2.43.0


From ec790c63fa52bcc9e32ba4e5afe14bf870e690b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:13 +0000
Subject: [PATCH 32/54] fix: a type with no handler inside of a Dict or of a
 Union is a type error

As in all the other cases.
---
 typedload/dataloader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index b76a2b3..b771e24 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -381,7 +381,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         try:
             key_f = l._indexcache[key_type] = l.handlers[l.index(key_type)][1]
         except ValueError:
-            raise TypedloadValueError(
+            raise TypedloadTypeError(
                 'Cannot deal with value of type %s (key of %s)' % (tname(key_type), tname(type_)),
                 value=value,
                 type_=key_type
@@ -395,7 +395,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         try:
             value_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
         except ValueError:
-            raise TypedloadValueError(
+            raise TypedloadTypeError(
                 'Cannot deal with value of type %s (value of %s)' % (tname(value_type), tname(type_)),
                 value=value,
                 type_=value_type
@@ -747,8 +747,8 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
                 try:
                     f = l._indexcache[t] = l.handlers[l.index(t)][1]
                 except ValueError:
-                    raise TypedloadValueError(
-                        'Cannot deal with value of type %s (key of %s)' % (tname(t), tname(type_)),
+                    raise TypedloadTypeError(
+                        'Cannot deal with value of type %s (member of %s)' % (tname(t), tname(type_)),
                         value=value,
                         type_=t
                     )
-- 
2.43.0


From b1d72c5ad42942de30755755afa0f819309b5de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 33/54] fix: resolve forward references that are strings

list['Node'] and the fields of dataclass and attrs keep the string,
while List['Node'] and NamedTuple make it a ForwardRef.
---
 typedload/dataloader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index b771e24..1d3ddd1 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -223,6 +223,8 @@ class Loader:
             (is_namedtuple, _namedtupleload),
             (is_dataclass, _dataclassload),
             (is_forwardref, _forwardrefload),
+            # builtin generics, dataclass and attrs keep forward references as strings
+            (lambda type_: isinstance(type_, str) and type_ in (self.frefs or {}), _forwardrefload),
             (is_literal, _literalload),
             (is_typeddict, _typeddictload),
             (lambda type_: type_ in {datetime.date, datetime.time, datetime.datetime}, _datetimeload),
@@ -312,7 +314,7 @@ def _forwardrefload(l: Loader, value: Any, type_) -> Any:
     """
     if l.frefs is None:
         raise TypedloadException('ForwardRef resolving is disabled for the loader', value=value, type_=type_)
-    tname = type_.__forward_arg__  # type: ignore
+    tname = type_ if isinstance(type_, str) else type_.__forward_arg__  # type: ignore
     t = l.frefs.get(tname)
     if t is None:
         raise TypedloadValueError(
-- 
2.43.0


From 1082b0b1fa61d88260d4455ed749199b502907d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 34/54] fix: carry value and type in the error of an iterator
 that raises

---
 typedload/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 1d3ddd1..c652828 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -468,7 +468,7 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
     except Exception as e:
-        raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException')
+        raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException', value=value, type_=type_)
 
 
 def _mangle_names(namesmap: Dict[str, str], value: Dict[str, Any], failonextra: bool) -> Dict[str, Any]:
@@ -989,4 +989,4 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
     except Exception as e:
-        raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException')
+        raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException', value=value, type_=type_)
-- 
2.43.0


From c7405089e1b44b6c1305d613308a1f402ed6a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 35/54] fix: tell which type has no handler also when it is in
 a tuple

---
 typedload/dataloader.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index c652828..6ac4555 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -450,15 +450,22 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     elif length < len(args):
         raise TypedloadValueError('Value is too short for type %s' % tname(type_), value=value, type_=type_)
 
+    handlers = []
+    for t in args:
+        try:
+            handlers.append(l._indexcache.get(t) or l.handlers[l.index(t)][1])
+        except ValueError:
+            raise TypedloadTypeError(
+                'Cannot deal with value of type %s' % tname(t),
+                value=value,
+                type_=t
+            )
+
     ctr = count(1)  # Keep track of the position in the tuple
 
     try:
         return tuple(v if t in l.basictypes and type(v) == t else h(l, v, t)
-            for v, h, t in zip(
-                compress(value, ctr),
-                (l._indexcache.get(t) or l.handlers[l.index(t)][1] for t in args),
-                args
-            )
+            for v, h, t in zip(compress(value, ctr), handlers, args)
         )
     except TypedloadException as e:
         index = next(ctr) - 2
-- 
2.43.0


From 94b58b9aa04fffdeae3ad8c09c9b49b509df9dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 36/54] fix: is_namedtuple is false for collections.namedtuple

---
 typedload/typechecks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typedload/typechecks.py b/typedload/typechecks.py
index 57d7443..1b61b24 100644
--- a/typedload/typechecks.py
+++ b/typedload/typechecks.py
@@ -196,7 +196,10 @@ def is_namedtuple(type_: Any) -> bool:
     '''
     Generated with typing.NamedTuple
     '''
-    return _issubclass(type_, tuple) and hasattr(type_, '__annotations__') and hasattr(type_, '_fields')
+    if not (_issubclass(type_, tuple) and hasattr(type_, '__annotations__') and hasattr(type_, '_fields')):
+        return False
+    # Since 3.10 all the classes have __annotations__, also those from collections.namedtuple
+    return all(any(f in getattr(t, '__annotations__', ()) for t in type_.__mro__) for f in type_._fields)
 
 
 def is_dataclass(type_: Any) -> bool:
-- 
2.43.0


From ad6274b3a7960f67e714591cb980c768517a7082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 37/54] fix: prefer the type with the matching literal also for
 argparse.Namespace

---
 typedload/dataloader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 6ac4555..a1629d2 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -707,7 +707,8 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
     sorted_args.sort(key=lambda i: i in l.basictypes)
 
     # For object types, bump up the type whose literal is matching
-    if hasattr(value, 'get'):
+    dictvalue = _dictequivalence(l, value)
+    if hasattr(dictvalue, 'get'):
         # Seems we have an object
         # Bump up if the Literal field matches
         discriminatorscache = l._unionload_discriminatorcache.get(type_)  # type: Optional[Tuple[Optional[str], Optional[Dict[Any, Type]]]]
@@ -734,7 +735,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
         # It's a tuple key, {value: type}
         if discriminatorscache[1]:
             try:
-                preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
+                preferredtype = discriminatorscache[1].get(dictvalue.get(discriminatorscache[0]))
             except TypeError:
                 # Not hashable, so it can't be any of the literals
                 preferredtype = None
-- 
2.43.0


From d165b8b6fa87937bb8f36ce8bd1e2726887b7e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 38/54] fix: load into unions objects whose get() raises

---
 typedload/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index a1629d2..b717c35 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -736,8 +736,8 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
         if discriminatorscache[1]:
             try:
                 preferredtype = discriminatorscache[1].get(dictvalue.get(discriminatorscache[0]))
-            except TypeError:
-                # Not hashable, so it can't be any of the literals
+            except Exception:
+                # Not hashable, so it can't be any of the literals, or get() is not that of a dict
                 preferredtype = None
             if preferredtype:
                 # Place best value on top
-- 
2.43.0


From fca310ac69ca3be1105571745a1a80ebeb57d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 39/54] fix: attributes of argparse.Namespace with the names of
 the methods of dict

---
 typedload/dataloader.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index b717c35..b55295e 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -560,8 +560,9 @@ def _dictequivalence(l: Loader, value: Any) -> Any:
     in all other cases this simply returns value.
     '''
     # Convert argparse.Namespace to dictionary
-    if l.dictequivalence and hasattr(value, '_get_kwargs'):
-        return {k: v for k,v in value._get_kwargs()}
+    # Looked up in the class, because the attributes of the object are its data
+    if l.dictequivalence and hasattr(type(value), '_get_kwargs'):
+        return {k: v for k,v in type(value)._get_kwargs(value)}
     return value
 
 
@@ -572,18 +573,12 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     noinit_fields are in the dumped data, but the constructor doesn't accept them.
     argnames are the fields whose constructor parameter has a different name.
     '''
+    value = _dictequivalence(l, value)
     try:
         vfields = set(value.keys())
         items = value.items()
     except (AttributeError, TypeError) as e:
-        newvalue = _dictequivalence(l, value)
-
-        if newvalue is value:
-            raise TypedloadAttributeError(str(e), value=value, type_=type_)
-        else:
-            value = newvalue
-            vfields = set(value.keys())
-            items = value.items()
+        raise TypedloadAttributeError(str(e), value=value, type_=type_)
 
     if len(necessary_fields.intersection(vfields)) != len(necessary_fields):
         raise TypedloadValueError(
-- 
2.43.0


From 709cf8898e0eb1bc37f7d5dd5697508fdca6c616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:25 +0000
Subject: [PATCH 40/54] fix: mappings whose methods raise

---
 typedload/dataloader.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index b55295e..048a540 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -427,6 +427,9 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
     except TypeError as e:
         # The loaded keys are not hashable
         raise TypedloadTypeError(str(e), type_=type_, value=value)
+    except Exception as e:
+        # The methods of value can raise anything
+        raise TypedloadException(str(e), type_=type_, value=value)
 
 
 def _tupleload(l: Loader, value: Any, type_) -> Tuple:
@@ -545,6 +548,8 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
     except (AttributeError, TypeError) as e:
         # Not something like a dictionary
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
+    except Exception as e:
+        raise TypedloadException(str(e), value=value, type_=type_)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_, noinit_fields)
 
@@ -576,9 +581,12 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     value = _dictequivalence(l, value)
     try:
         vfields = set(value.keys())
-        items = value.items()
+        items = value.items() if type(value) is dict else [(k, v) for k, v in value.items()]
     except (AttributeError, TypeError) as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
+    except Exception as e:
+        # The methods of value can raise anything
+        raise TypedloadException(str(e), value=value, type_=type_)
 
     if len(necessary_fields.intersection(vfields)) != len(necessary_fields):
         raise TypedloadValueError(
@@ -927,6 +935,8 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
     except (AttributeError, TypeError) as e:
         # Not something like a dictionary
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
+    except Exception as e:
+        raise TypedloadException(str(e), value=value, type_=type_)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_, noinit_fields, argnames)
 
-- 
2.43.0


From 19c73e36ae23190cfb9b5e4a5261c5ee1f14cfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:12 +0000
Subject: [PATCH 41/54] fix: generic aliases do not hide classes with their
 name in frefs

The name of List[X] is List, so loading it registered the alias and a class
called List could not refer to itself by name.
---
 typedload/dataloader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 048a540..83a7406 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -261,7 +261,8 @@ class Loader:
                 match = False
             if match:
                 # Add type to known types, to resolve ForwardRef later on
-                if self.frefs is not None and hasattr(type_, '__name__'):
+                # The name of a generic alias is that of the generic, it would hide a class with that name
+                if self.frefs is not None and hasattr(type_, '__name__') and not hasattr(type_, '__origin__'):
                     typename = type_.__name__
                     if typename not in self.frefs:
                         self.frefs[typename] = type_
-- 
2.43.0


From 839735ad3eeef5f1fd8284a85ebc4b7e2e567d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 42/54] fix: annotations that can not be resolved raise
 typedload exceptions

They raised AssertionError, for enums and when pep563 is enabled.
---
 typedload/dataloader.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 83a7406..737377a 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -482,6 +482,16 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
         raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException', value=value, type_=type_)
 
 
+def _resolve_hints(value: Any, type_) -> Dict[str, Any]:
+    """
+    Annotations of type_ with the names in them resolved.
+    """
+    try:
+        return get_type_hints(type_)
+    except Exception as e:
+        raise TypedloadTypeError('Cannot resolve the annotations of %s: %s' % (tname(type_), e), value=value, type_=type_)
+
+
 def _mangle_names(namesmap: Dict[str, str], value: Dict[str, Any], failonextra: bool) -> Dict[str, Any]:
     """
     Mangling names of a dictionary.
@@ -525,7 +535,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
                             v.default == v.default_factory # Has no default or factory
                             }
         if l.pep563:
-            type_hints = get_type_hints(type_)
+            type_hints = _resolve_hints(value, type_)
         else:
             type_hints = {k: v.type for k,v in dcfields.items()}
 
@@ -648,7 +658,7 @@ def _namedtupleload(l: Loader, value: Any, type_) -> Any:
     This loads a Dict[str, Any] into a NamedTuple.
     """
     if l.pep563:
-        type_hints = get_type_hints(type_)
+        type_hints = _resolve_hints(value, type_)
     else:
         type_hints = type_.__annotations__
     fields = set(type_hints.keys())
@@ -663,7 +673,7 @@ def _typeddictload(l: Loader, value: Any, type_) -> Any:
     This loads a Dict[str, Any] into a NamedTuple.
     """
     if l.pep563:
-        type_hints = get_type_hints(type_)
+        type_hints = _resolve_hints(value, type_)
     else:
         # Copy, because it is changed below
         type_hints = dict(type_.__annotations__)
@@ -818,7 +828,7 @@ def _enumload(l: Loader, value: Any, type_) -> Enum:
 
     # Try with the typing hints
     exceptions = []  # type: List[TypedloadException]
-    for _, t in get_type_hints(type_).items():
+    for _, t in _resolve_hints(value, type_).items():
         annotation = Annotation(AnnotationType.UNION, t)
         try:
             return type_(l.load(value, t, annotation=annotation))
-- 
2.43.0


From 848543c088923d0ca443dcd6a4cdfb86b0f5bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:09 +0000
Subject: [PATCH 43/54] fix: attrs converters: use the type of the first
 parameter

With other typed parameters it used the type of another parameter or none at
all, with classes it used the annotations of the attributes of the class, and
callable objects were used as if they had no hints (or ignored, if false).
---
 typedload/dataloader.py | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 737377a..1493233 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -24,9 +24,11 @@ Module to load data into typed data structures
 import dataclasses
 import datetime
 from enum import Enum
+import functools
+from functools import reduce
+import inspect
 import ipaddress
 from itertools import compress, count, repeat
-from functools import reduce
 from pathlib import Path
 import re
 from typing import *
@@ -900,21 +902,34 @@ def _timedeltaload(l: Loader, value, type_) -> datetime.timedelta:
 
 def _get_attr_converter_type(c: "Callable"):
     """
-    c is a converter function passed to an attr field
-
-    it is supposed to have 1 parameter only
+    c is a converter passed to an attr field: a function, a class or any other callable
 
-    If it's typed, return the type of the parameter. Otherwise return Any
+    If it's typed, return the type of its first parameter. Otherwise return Any
     """
+    import attr
+    if isinstance(c, getattr(attr, 'Converter', ())):
+        c = c.converter  # type: ignore
     try:
-        hints = get_type_hints(c)
+        parameter = next(iter(inspect.signature(c).parameters))
     except Exception:
-        # Not all callables can be inspected, for example functools.partial
+        # Builtin classes have no signature
         return Any
-    if len(hints) > 0 and len(hints) <= 2:
-        if 'return' in hints:
-            del hints['return']
-        return next(iter(hints.values()), Any)
+
+    # The function that has the type hints for that parameter
+    f = c  # type: Any
+    while isinstance(f, functools.partial):
+        f = f.func
+    candidates = [f]
+    if isinstance(f, type):
+        candidates.insert(0, f.__new__ if f.__init__ is object.__init__ else f.__init__)
+    elif not inspect.isroutine(inspect.unwrap(f)):
+        candidates = [type(f).__call__]
+    for i in candidates:
+        try:
+            return get_type_hints(i).get(parameter, Any)
+        except Exception:
+            # Names that can not be resolved
+            pass
     return Any
 
 
@@ -923,7 +938,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
 
     fields = {i.name for i in type_.__attrs_attrs__}
     necessary_fields = set()
-    type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__}
+    type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter is not None else i.type) for i in type_.__attrs_attrs__}
     namesmap = {}  # type: Dict[str, str]
     noinit_fields = {i.name for i in type_.__attrs_attrs__ if not i.init}
     # The constructor takes 'x' for the attribute '_x'. Versions before 22.2.0 have no alias.
-- 
2.43.0


From 2c02c853b0b8774379a5727861d843d174c215b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:12 +0000
Subject: [PATCH 44/54] fix: NotRequired with deferred annotations

Python does not see NotRequired in the annotations that are not evaluated, so
with pep563 those fields of a TypedDict were required.
---
 typedload/dataloader.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 1493233..86494c9 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -484,12 +484,14 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
         raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException', value=value, type_=type_)
 
 
-def _resolve_hints(value: Any, type_) -> Dict[str, Any]:
+def _resolve_hints(value: Any, type_, include_extras: bool = False) -> Dict[str, Any]:
     """
     Annotations of type_ with the names in them resolved.
+
+    include_extras keeps NotRequired in them.
     """
     try:
-        return get_type_hints(type_)
+        return get_type_hints(type_, include_extras=include_extras)
     except Exception as e:
         raise TypedloadTypeError('Cannot resolve the annotations of %s: %s' % (tname(type_), e), value=value, type_=type_)
 
@@ -676,9 +678,12 @@ def _typeddictload(l: Loader, value: Any, type_) -> Any:
     """
     if l.pep563:
         type_hints = _resolve_hints(value, type_)
+        # Python does not see NotRequired in the annotations that are evaluated later
+        notrequired = {k for k, v in _resolve_hints(value, type_, include_extras=True).items() if is_notrequired(v)}
     else:
         # Copy, because it is changed below
         type_hints = dict(type_.__annotations__)
+        notrequired = set()
     fields = set(type_hints.keys())
 
     if hasattr(type_, '__required_keys__') and hasattr(type_, '__optional_keys__'):
@@ -689,6 +694,8 @@ def _typeddictload(l: Loader, value: Any, type_) -> Any:
     else:
         necessary_fields = fields
 
+    necessary_fields = necessary_fields - notrequired
+
     # Resolve the NotRequired stuff
     for k, v in type_hints.items():
         if is_notrequired(v):
-- 
2.43.0


From d164cf84cc0c80f26fe624f554e349c4d5a672c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 45/54] fix: errors raised while comparing the value with a
 literal

---
 typedload/dataloader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 86494c9..c2b262f 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -337,8 +337,12 @@ def _literalload(l: Loader, value: Any, type_) -> Any:
     Checks if the value is within the allowed literals and
     returns it.
     """
-    if value in type_.__args__:
-        return value
+    try:
+        if value in type_.__args__:
+            return value
+    except Exception as e:
+        # Raised by the comparison, which can be defined by value
+        raise TypedloadException(str(e), value=value, type_=type_)
     raise TypedloadValueError('Not one of the allowed values in %s' % tname(type_), value=value, type_=type_)
 
 
-- 
2.43.0


From 773c5baeabd6e3f380cf011af3bc592680a5850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 46/54] fix: errors raised by _get_kwargs of the value

---
 typedload/dataloader.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index c2b262f..a841bf8 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -410,7 +410,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
                 type_=value_type
             )
 
-    value = _dictequivalence(l, value)
+    value = _dictequivalence(l, value, type_)
 
     # In a single pass, because the data can contain iterators
     r = {}
@@ -559,7 +559,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms, noinit_fields)
 
     if transforms:
-        value = _dictequivalence(l, value)
+        value = _dictequivalence(l, value, type_)
     try:
         value = _mangle_names(transforms, value, l.failonextra)
     except ValueError as e:
@@ -573,7 +573,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
     return _objloader(l, fields, necessary_fields, type_hints, value, type_, noinit_fields)
 
 
-def _dictequivalence(l: Loader, value: Any) -> Any:
+def _dictequivalence(l: Loader, value: Any, type_) -> Any:
     '''
     Helper function to convert classes that are functionally
     the same as a dict into a dict.
@@ -586,7 +586,11 @@ def _dictequivalence(l: Loader, value: Any) -> Any:
     # Convert argparse.Namespace to dictionary
     # Looked up in the class, because the attributes of the object are its data
     if l.dictequivalence and hasattr(type(value), '_get_kwargs'):
-        return {k: v for k,v in type(value)._get_kwargs(value)}
+        try:
+            return {k: v for k,v in type(value)._get_kwargs(value)}
+        except Exception as e:
+            # The methods of value can raise anything
+            raise TypedloadException(str(e), value=value, type_=type_)
     return value
 
 
@@ -597,7 +601,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     noinit_fields are in the dumped data, but the constructor doesn't accept them.
     argnames are the fields whose constructor parameter has a different name.
     '''
-    value = _dictequivalence(l, value)
+    value = _dictequivalence(l, value, type_)
     try:
         vfields = set(value.keys())
         items = value.items() if type(value) is dict else [(k, v) for k, v in value.items()]
@@ -734,7 +738,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
     sorted_args.sort(key=lambda i: i in l.basictypes)
 
     # For object types, bump up the type whose literal is matching
-    dictvalue = _dictequivalence(l, value)
+    dictvalue = _dictequivalence(l, value, type_)
     if hasattr(dictvalue, 'get'):
         # Seems we have an object
         # Bump up if the Literal field matches
@@ -964,7 +968,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
             namesmap[attribute.metadata[l.mangle_key]] = attribute.name
 
     if namesmap:
-        value = _dictequivalence(l, value)
+        value = _dictequivalence(l, value, type_)
     try:
         value = _mangle_names(namesmap, value, l.failonextra)
     except ValueError as e:
-- 
2.43.0


From f04c195b43bed4f7b49cba00451763c65485c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 47/54] fix: values whose attributes can not be read in an
 union

---
 typedload/dataloader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index a841bf8..46308a1 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -738,8 +738,13 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
     sorted_args.sort(key=lambda i: i in l.basictypes)
 
     # For object types, bump up the type whose literal is matching
-    dictvalue = _dictequivalence(l, value, type_)
-    if hasattr(dictvalue, 'get'):
+    try:
+        dictvalue = _dictequivalence(l, value, type_)
+        hasget = hasattr(dictvalue, 'get')
+    except Exception:
+        # Raised by the methods of value
+        hasget = False
+    if hasget:
         # Seems we have an object
         # Bump up if the Literal field matches
         discriminatorscache = l._unionload_discriminatorcache.get(type_)  # type: Optional[Tuple[Optional[str], Optional[Dict[Any, Type]]]]
-- 
2.43.0


From 505e7dc73fece618293939cf6f51e7e42af982df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 48/54] fix: values whose class or length can not be read in a
 tuple or iterable

---
 typedload/dataloader.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 46308a1..6c5f4e6 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -449,12 +449,15 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
         return _iterload(l, value, type_, tuple)
 
     # Tuple[something, something, somethingelse]
-    if isinstance(value, dict):
+    if _isdict(value, type_):
         raise TypedloadTypeError('Unable to load dictionary as a tuple', value=value, type_=type_)
     try:
         length = len(value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
+    except Exception as e:
+        # The methods of value can raise anything
+        raise TypedloadException(str(e), value=value, type_=type_)
     if l.failonextra and length > len(args):
         raise TypedloadValueError('Value is too long for type %s' % tname(type_), value=value, type_=type_)
     elif length < len(args):
@@ -594,6 +597,16 @@ def _dictequivalence(l: Loader, value: Any, type_) -> Any:
     return value
 
 
+def _isdict(value: Any, type_) -> bool:
+    '''
+    isinstance(value, dict), which reads attributes of value
+    '''
+    try:
+        return isinstance(value, dict)
+    except Exception as e:
+        raise TypedloadException(str(e), value=value, type_=type_)
+
+
 def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hints, value: Any, type_, noinit_fields: Collection[str]=(), argnames: Dict[str, str]={}) -> Any:
     '''
     Helper function to load dict-like data into an object.
@@ -1012,7 +1025,7 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
     function is for example list, tuple, set. The call to
     generate the destination type from an iterable.
     """
-    if isinstance(value, dict):
+    if _isdict(value, type_):
         raise TypedloadTypeError('Unable to load dictionary as an iterable', value=value, type_=type_)
     t = type_.__args__[0]
 
-- 
2.43.0


From 5321a65b1bc9b14d83292d0bb80d005a55599f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:40 +0000
Subject: [PATCH 49/54] fix: dump of list subclasses with a hint of basic types

The result of their copy() was returned, which might not be a list.
---
 typedload/datadumper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 6754e89..3963324 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -301,8 +301,8 @@ def _iteratordump(d: Dumper, value: Any, t: Any) -> List[Any]:
 
     if itertype in d.basictypes and d.handlers[0] is d._basichandler:
         # Iterable of basic types, unchanged default handler for basic types
-        if isinstance(value, list):
-            # Just copy the list if it's a list
+        if type(value) is list:
+            # Just copy the list if it's a list (the copy of a subclass might not be a list)
             return value.copy()
         else:
             # Create a list and return it otherwise
-- 
2.43.0


From 664a238619a317dde5df78e49a91c74b419f04e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 50/54] fix: unions with the same members in another order
 shared the discriminators

Union[A, B] == Union[B, A], so a loader used for one of them and then for the
other could prefer a different member than a new loader.
---
 typedload/dataloader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 6c5f4e6..7e9831e 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -245,7 +245,7 @@ class Loader:
 
         self._objfieldscache = {}  # type: Dict[Type, Tuple[Set[str], Set[str], Dict[str, Type], Dict[str, str], Set[str]]]
 
-        self._unionload_discriminatorcache = {}  # type: Dict[Type, Tuple[Optional[str], Optional[Dict[Any, Type]]]]
+        self._unionload_discriminatorcache = {}  # type: Dict[Tuple[Type, ...], Tuple[Optional[str], Optional[Dict[Any, Type]]]]
 
     def index(self, type_: Type[T]) -> int:
         """
@@ -760,7 +760,8 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
     if hasget:
         # Seems we have an object
         # Bump up if the Literal field matches
-        discriminatorscache = l._unionload_discriminatorcache.get(type_)  # type: Optional[Tuple[Optional[str], Optional[Dict[Any, Type]]]]
+        # By args, because unions with their members in another order are equal
+        discriminatorscache = l._unionload_discriminatorcache.get(args)  # type: Optional[Tuple[Optional[str], Optional[Dict[Any, Type]]]]
 
         # First time generate the deep inspection for literal
         if discriminatorscache is None:
@@ -778,7 +779,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
                 discriminatorscache = key, cachedict
             else:
                 discriminatorscache = None, None
-            l._unionload_discriminatorcache[type_] = discriminatorscache
+            l._unionload_discriminatorcache[args] = discriminatorscache
 
         # Cache is created, use it
         # It's a tuple key, {value: type}
-- 
2.43.0


From 900ae4cee115912ff4bedf793562941ccc1c4d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:01 +0000
Subject: [PATCH 51/54] fix: the error for tuples that can't be dumped

A tuple was used as the arguments of the string formatting, and a failing
__str__ hid the error.
---
 typedload/datadumper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 3963324..dfbffcc 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -30,6 +30,7 @@ from typing import *
 import uuid
 
 from .exceptions import TypedloadValueError
+from .helpers import vrepr
 from .typechecks import is_attrs, NONETYPE
 
 
@@ -178,7 +179,7 @@ class Dumper:
                 match = False
             if match:
                 return i
-        raise TypedloadValueError('Unable to dump %s' % value, value=value, type_=type(value))
+        raise TypedloadValueError('Unable to dump %s' % vrepr(value), value=value, type_=type(value))
 
     def dump(self, value: Any, annotated_type=Any) -> Any:
         """
-- 
2.43.0


From 835ddce0dc60c399b6b983bd6fff7d97d3f759b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:09 +0000
Subject: [PATCH 52/54] fix: don't compare the defaults of dataclasses to know
 whether they are there

A default can be equal to anything, or not comparable
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7e9831e..4d16a55 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -543,7 +543,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         fields = set(dcfields.keys())
         necessary_fields = {k for k,v in dcfields.items() if
                             v.init == True and # Is a field for the constructor
-                            v.default == v.default_factory # Has no default or factory
+                            v.default is v.default_factory # Has no default or factory
                             }
         if l.pep563:
             type_hints = _resolve_hints(value, type_)
-- 
2.43.0


From 134ad6bbf3dab590dca8fb5f529a659abdfd34de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:24 +0000
Subject: [PATCH 53/54] fix: don't compare the values of attrs fields with a
 default that isn't there

The value can be equal to anything, or not comparable with it
---
 typedload/datadumper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index dfbffcc..f6dfd4d 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -210,12 +210,13 @@ class Dumper:
 
 
 def _attrdump(d, value, t) -> Dict[str, Any]:
+    from attr import NOTHING
     r = {}
     for attr in value.__attrs_attrs__:
         attrval = getattr(value, attr.name)
         if not attr.repr:
             continue
-        if d.hidedefault:
+        if d.hidedefault and attr.default is not NOTHING:
             if attrval == attr.default:
                 continue
             elif hasattr(attr.default, 'factory'):
-- 
2.43.0


From a49bd4d8c0d695ea107a8b3e4157d35c21139ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:00 +0000
Subject: [PATCH 54/54] fix: show the whole path of the errors nested in other
 nested errors

Only the path from the inner union was shown, with the type in place of
the position of that union in the data.
---
 typedload/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/exceptions.py b/typedload/exceptions.py
index 0cb594a..52573e0 100644
--- a/typedload/exceptions.py
+++ b/typedload/exceptions.py
@@ -133,9 +133,9 @@ class TypedloadException(Exception):
         msg = spaces + 'Exceptions:\n'
         for i in self.exceptions:
             msg += i._firstline(indent + 1) + '\n'
-            msg += spaces + '  ' 'Path: ' + self._path(self.trace + i.trace[1:]) + '\n'
+            msg += spaces + '  ' 'Path: ' + self._path(trace + i.trace[1:]) + '\n'
             if i.exceptions:
-                msg += i._subexceptions(indent + 1, self.trace + i.trace[1:])
+                msg += i._subexceptions(indent + 1, trace + i.trace[1:])
         return msg
 
     def _firstline(self, indent: int) -> str:
-- 
2.43.0

