From 61fca8641d1405b85e08eec95aa22d7173180af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 01/29] fix: compare non-finite and huge floats with precision
 without raising

Validating a value against a fixed float with precision rounded
value * 10**precision, which raises OverflowError/ValueError for inf, nan
and floats too large to be scaled.
---
 d42/validation/_validator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index 9724c45..2f238f8 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -170,9 +170,14 @@ class Validator(SchemaVisitor[ValidationResult]):
                     return result.add_error(ValueValidationError(path, value, schema.props.value))
             else:
                 scale_factor = 10 ** schema.props.precision
-                scaled_actual = round(value * scale_factor)
-                scaled_expected = round(schema.props.value * scale_factor)
-                if not isclose(scaled_expected, scaled_actual, rel_tol=0, abs_tol=0):
+                try:
+                    scaled_actual = round(value * scale_factor)
+                    scaled_expected = round(schema.props.value * scale_factor)
+                    is_equal = isclose(scaled_expected, scaled_actual, rel_tol=0, abs_tol=0)
+                except (OverflowError, ValueError):
+                    # non-finite or too large to be scaled, so there is nothing to round
+                    is_equal = (value == schema.props.value)
+                if not is_equal:
                     return result.add_error(ValueValidationError(path, value, schema.props.value))
 
         if schema.props.min is not Nil:
-- 
2.43.0


From 6bc6856fbc2f7a1dfd914ec696a9a021aa2ae655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:17 +0000
Subject: [PATCH 02/29] fix: let a fixed NaN accept NaN

schema.float(nan) (also as produced by from_native and substitution)
rejected the very value it was declared with, as nan is not close to
itself.
---
 d42/validation/_validator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index 2f238f8..5586963 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -1,7 +1,7 @@
 import re
 from copy import deepcopy
 from datetime import date, datetime
-from math import isclose
+from math import isclose, isnan
 from typing import Any, Callable, List, Optional, Type, cast
 from uuid import UUID
 
@@ -165,7 +165,9 @@ class Validator(SchemaVisitor[ValidationResult]):
             return result.add_error(error)
 
         if schema.props.value is not Nil:
-            if schema.props.precision is Nil:
+            if isnan(value) and isnan(schema.props.value):
+                pass
+            elif schema.props.precision is Nil:
                 if not isclose(value, schema.props.value):
                     return result.add_error(ValueValidationError(path, value, schema.props.value))
             else:
-- 
2.43.0


From 9ea7f8fe6a6558c2fc9db0633e9413685ec060bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:04 +0000
Subject: [PATCH 03/29] fix: report the path of a string with letters outside
 the alphabet

The alphabet error always carried an empty path, even for a string nested
in a list or dict.
---
 d42/validation/_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index 5586963..e5a3f67 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -231,7 +231,7 @@ class Validator(SchemaVisitor[ValidationResult]):
             for letter in value:
                 if letter not in alphabet:
                     return result.add_error(
-                        AlphabetValidationError(PathHolder(), value, schema.props.alphabet))
+                        AlphabetValidationError(path, value, schema.props.alphabet))
 
         return result
 
-- 
2.43.0


From efba12b665d3bfa245cbbf651d0f5d001257f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 04/29] fix: keep the accessors of an error path instead of
 copying their keys

A deep copied path holds copies of the dict keys: a key compared by
identity could no longer be found by following the path, and a key that
can not be copied made validation or formatting raise.
---
 d42/substitution/_validator.py |  5 ++---
 d42/validation/_formatter.py   |  5 ++---
 d42/validation/_validator.py   | 11 ++++++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/d42/substitution/_validator.py b/d42/substitution/_validator.py
index 20cb90e..4de8de3 100644
--- a/d42/substitution/_validator.py
+++ b/d42/substitution/_validator.py
@@ -1,4 +1,3 @@
-from copy import deepcopy
 from typing import Any
 
 from niltype import Nil, Nilable
@@ -48,7 +47,7 @@ class SubstitutorValidator(Validator):
             for index, elem in enumerate(value):
                 if is_ellipsis(elem) and (index == 0 or index == len(value) - 1):
                     continue
-                nested_path = deepcopy(path)[index]
+                nested_path = self._make_nested_path(path, index)
                 res = type_schema.__accept__(self, value=elem, path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             return result
@@ -74,7 +73,7 @@ class SubstitutorValidator(Validator):
             if key in value:
                 if is_ellipsis(value[key]):
                     continue
-                nested_path = deepcopy(path)[key]
+                nested_path = self._make_nested_path(path, key)
                 res = val.__accept__(self, value=value[key], path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
 
diff --git a/d42/validation/_formatter.py b/d42/validation/_formatter.py
index 362ed12..834f5b3 100644
--- a/d42/validation/_formatter.py
+++ b/d42/validation/_formatter.py
@@ -1,4 +1,3 @@
-from copy import deepcopy
 from typing import Any, Sequence
 
 from th import PathHolder
@@ -115,7 +114,7 @@ class Formatter(AbstractFormatter):
                 f"must match pattern {error.pattern!r}, but {error.actual_value!r} given")
 
     def format_missing_element_error(self, error: MissingElementValidationError) -> str:
-        path = deepcopy(error.path)
+        path = PathHolder(self._root, [*error.path])
         formatted_path = self._format_path(path[error.index])
         return f"Element {formatted_path} does not exist"
 
@@ -124,7 +123,7 @@ class Formatter(AbstractFormatter):
         return f"Value{formatted_path} contains extra element at index {error.index!r}"
 
     def format_missing_key_error(self, error: MissingKeyValidationError) -> str:
-        path = deepcopy(error.path)
+        path = PathHolder(self._root, [*error.path])
         formatted_path = self._format_path(path[error.missing_key])
         return f"Key {formatted_path} does not exist"
 
diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index e5a3f67..b417dc3 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -64,6 +64,11 @@ class Validator(SchemaVisitor[ValidationResult]):
     def make_path(self) -> PathHolder:
         return self._path_holder_factory()
 
+    def _make_nested_path(self, path: PathHolder, index_or_key: Any) -> PathHolder:
+        # accessors are shared, since a copy of a key might not be found in the value
+        accessors = {id(accessor): accessor for accessor in path}
+        return deepcopy(path, accessors)[index_or_key]
+
     def _validate_type(self, path: PathHolder, value: Any,
                        expected_type: Type[Any]) -> Optional[ValidationError]:
         if not isinstance(value, expected_type):
@@ -91,7 +96,7 @@ class Validator(SchemaVisitor[ValidationResult]):
                 errors.append(MissingElementValidationError(path, value, real_index))
                 break
             else:
-                nested_path = deepcopy(path)[real_index]
+                nested_path = self._make_nested_path(path, real_index)
                 res = element_schema.__accept__(self, value=val, path=nested_path, **kwargs)
                 errors += res.get_errors()
         return errors
@@ -263,7 +268,7 @@ class Validator(SchemaVisitor[ValidationResult]):
         if schema.props.type is not Nil:
             type_schema = schema.props.type
             for index, elem in enumerate(value):
-                nested_path = deepcopy(path)[index]
+                nested_path = self._make_nested_path(path, index)
                 res = type_schema.__accept__(self, value=elem, path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             return result
@@ -319,7 +324,7 @@ class Validator(SchemaVisitor[ValidationResult]):
             if is_ellipsis(key):
                 continue
             if key in value:
-                nested_path = deepcopy(path)[key]
+                nested_path = self._make_nested_path(path, key)
                 res = val.__accept__(self, value=value[key], path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             else:
-- 
2.43.0


From 5b5d12a36eb91cf9f92c89b4fb8288a71a9372da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 05/29] fix: render validation errors of values that have no
 repr

repr() of an int with too many digits raises ValueError, so formatting an
error about such a value (or about a container or schema holding it)
raised instead of rendering a message.
---
 d42/validation/_formatter.py | 42 ++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/d42/validation/_formatter.py b/d42/validation/_formatter.py
index 834f5b3..4655182 100644
--- a/d42/validation/_formatter.py
+++ b/d42/validation/_formatter.py
@@ -33,8 +33,17 @@ class Formatter(AbstractFormatter):
     def root(self) -> str:
         return self._root
 
+    def _repr(self, value: Any) -> str:
+        try:
+            return repr(value)
+        except Exception:  # e.g. an int with more digits than Python is willing to print
+            return object.__repr__(value)
+
     def _format_path(self, path: PathHolder) -> str:
-        return str(path.__class__(self._root, [x for x in path]))
+        try:
+            return str(path.__class__(self._root, [x for x in path]))
+        except Exception:
+            return self._root + "".join(f"[{self._repr(x.operand)}]" for x in path)
 
     def _at_path(self, path: PathHolder) -> str:
         return " at " + self._format_path(path) if len(path) > 0 else ""
@@ -48,28 +57,29 @@ class Formatter(AbstractFormatter):
     def format_type_error(self, error: TypeValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
-        return (f"Value {error.actual_value!r}{formatted_path} "
+        return (f"Value {self._repr(error.actual_value)}{formatted_path} "
                 f"must be {error.expected_type}, but {actual_type} given")
 
     def format_value_error(self, error: ValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be equal to {error.expected_value!r}, but {error.actual_value!r} given")
+                f"must be equal to {self._repr(error.expected_value)}, "
+                f"but {self._repr(error.actual_value)} given")
 
     def format_min_value_error(self, error: MinValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be greater than or equal to {error.min_value!r}, "
-                f"but {error.actual_value!r} given")
+                f"must be greater than or equal to {self._repr(error.min_value)}, "
+                f"but {self._repr(error.actual_value)} given")
 
     def format_max_value_error(self, error: MaxValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be less than or equal to {error.max_value!r}, "
-                f"but {error.actual_value!r} given")
+                f"must be less than or equal to {self._repr(error.max_value)}, "
+                f"but {self._repr(error.actual_value)} given")
 
     def _format_length_error(self, path: PathHolder, actual_value: Any,
                              length: int, accuracy: str) -> str:
@@ -79,7 +89,7 @@ class Formatter(AbstractFormatter):
         options = ("element", "elements")
         return (
             f"Value {actual_type}{formatted_path} "
-            f"must have {accuracy} {length} {self._pluralize(length, options)}, "
+            f"must have {accuracy} {self._repr(length)} {self._pluralize(length, options)}, "
             f"but it has {actual_len} {self._pluralize(actual_len, options)}"
         )
 
@@ -99,19 +109,22 @@ class Formatter(AbstractFormatter):
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must contain only {error.alphabet!r}, but {error.actual_value!r} given")
+                f"must contain only {self._repr(error.alphabet)}, "
+                f"but {self._repr(error.actual_value)} given")
 
     def format_substr_error(self, error: SubstrValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must contain {error.substr!r}, but {error.actual_value!r} given")
+                f"must contain {self._repr(error.substr)}, "
+                f"but {self._repr(error.actual_value)} given")
 
     def format_regex_error(self, error: RegexValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must match pattern {error.pattern!r}, but {error.actual_value!r} given")
+                f"must match pattern {self._repr(error.pattern)}, "
+                f"but {self._repr(error.actual_value)} given")
 
     def format_missing_element_error(self, error: MissingElementValidationError) -> str:
         path = PathHolder(self._root, [*error.path])
@@ -129,17 +142,18 @@ class Formatter(AbstractFormatter):
 
     def format_extra_key_error(self, error: ExtraKeyValidationError) -> str:
         formatted_path = self._at_path(error.path)
-        return f"Value{formatted_path} contains extra key {error.extra_key!r}"
+        return f"Value{formatted_path} contains extra key {self._repr(error.extra_key)}"
 
     def format_schema_missmatch_error(self, error: SchemaMismatchValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must match any of {error.expected_schemas!r}, but {error.actual_value!r} given")
+                f"must match any of {self._repr(error.expected_schemas)}, "
+                f"but {self._repr(error.actual_value)} given")
 
     def format_invalid_uuid_version_error(self, error: InvalidUUIDVersionValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
                 f"must be a UUID version {error.expected_version!r}, "
-                f"but {error.actual_value!r} version {error.actual_version!r} given")
+                f"but {self._repr(error.actual_value)} version {error.actual_version!r} given")
-- 
2.43.0


From ec7418bcf80ad9d5bde7b49520126c01c5b4594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:13 +0000
Subject: [PATCH 06/29] fix: build declaration errors of values that have no
 repr

repr() of an int with too many digits raises ValueError, so a declaration
with such a value raised it instead of DeclarationError.
---
 d42/declaration/errors/__init__.py    | 38 +++++++++++++++++----------
 d42/declaration/types/_dict_schema.py | 11 +++++---
 d42/declaration/types/_str_schema.py  |  7 ++---
 3 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/d42/declaration/errors/__init__.py b/d42/declaration/errors/__init__.py
index 1dceac9..e866042 100644
--- a/d42/declaration/errors/__init__.py
+++ b/d42/declaration/errors/__init__.py
@@ -6,7 +6,7 @@ if TYPE_CHECKING:
 __all__ = ("DeclarationError", "make_invalid_type_error", "make_already_declared_error",
            "make_incorrect_len_error", "make_incorrect_min_error", "make_incorrect_max_error",
            "make_incorrect_min_len_error", "make_incorrect_max_len_error",
-           "make_incorrect_precision_error",)
+           "make_incorrect_precision_error", "get_repr",)
 
 
 class DeclarationError(Exception):
@@ -17,6 +17,13 @@ def _get_type_name(type_: Type[Any]) -> str:
     return str(getattr(type_, "__name__", type_))
 
 
+def get_repr(value: Any) -> str:
+    try:
+        return repr(value)
+    except Exception:  # e.g. an int with more digits than Python is willing to print
+        return object.__repr__(value)
+
+
 def make_invalid_type_error(schema: "GenericSchema", value: Any,
                             types: Tuple[Type[Any], ...]) -> DeclarationError:
     value_type = type(value)
@@ -24,53 +31,56 @@ def make_invalid_type_error(schema: "GenericSchema", value: Any,
 
     types_ = tuple(map(_get_type_name, types))
     if len(types) == 1:
-        message = (f"`{schema!r}` value must be an instance of '{_get_type_name(types[0])}', "
-                   f"instance of {value_type_name!r} {value!r} given")
+        message = (f"`{get_repr(schema)}` value must be an instance of "
+                   f"'{_get_type_name(types[0])}', "
+                   f"instance of {value_type_name!r} {get_repr(value)} given")
     else:
-        message = (f"`{schema!r}` value must be an instance of {types_!r}, "
+        message = (f"`{get_repr(schema)}` value must be an instance of {types_!r}, "
                    f"instance of {value_type_name!r} given")
     return DeclarationError(message)
 
 
 def make_already_declared_error(schema: "GenericSchema") -> DeclarationError:
-    message = f"`{schema!r}` is already declared"
+    message = f"`{get_repr(schema)}` is already declared"
     return DeclarationError(message)
 
 
 def make_incorrect_min_error(schema: "GenericSchema",
                              value: Any, min_value: Any) -> DeclarationError:
-    message = f"`{schema!r}` min value must be less than or equal to {value}, {min_value} given"
+    message = (f"`{get_repr(schema)}` min value must be less than or equal to "
+               f"{get_repr(value)}, {get_repr(min_value)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_max_error(schema: "GenericSchema",
                              value: Any, max_value: Any) -> DeclarationError:
-    message = f"`{schema!r}` max value must be greater than or equal to {value}, {max_value} given"
+    message = (f"`{get_repr(schema)}` max value must be greater than or equal to "
+               f"{get_repr(value)}, {get_repr(max_value)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_len_error(schema: "GenericSchema",
                              value: Sized, length: int) -> DeclarationError:
-    message = f"`{schema!r}` len must be equal to {len(value)}, {length} given"
+    message = f"`{get_repr(schema)}` len must be equal to {len(value)}, {get_repr(length)} given"
     return DeclarationError(message)
 
 
 def make_incorrect_min_len_error(schema: "GenericSchema",
                                  value: Sized, min_length: int) -> DeclarationError:
-    message = (f"`{schema!r}` min len must be less than or equal to {len(value)}, "
-               f"{min_length} given")
+    message = (f"`{get_repr(schema)}` min len must be less than or equal to {len(value)}, "
+               f"{get_repr(min_length)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_max_len_error(schema: "GenericSchema",
                                  value: Sized, max_length: int) -> DeclarationError:
-    message = (f"`{schema!r}` max len must be greater than or equal to {len(value)}, "
-               f"{max_length} given")
+    message = (f"`{get_repr(schema)}` max len must be greater than or equal to {len(value)}, "
+               f"{get_repr(max_length)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_precision_error(schema: "GenericSchema",
                                    precision: int, max_precision: int) -> DeclarationError:
-    message = (f"`{schema!r}` precision must be greater than 0 or less than {max_precision}, "
-               f"{precision} given")
+    message = (f"`{get_repr(schema)}` precision must be greater than 0 or less than "
+               f"{max_precision}, {get_repr(precision)} given")
     return DeclarationError(message)
diff --git a/d42/declaration/types/_dict_schema.py b/d42/declaration/types/_dict_schema.py
index e3e458c..36cdedf 100644
--- a/d42/declaration/types/_dict_schema.py
+++ b/d42/declaration/types/_dict_schema.py
@@ -7,7 +7,12 @@ from .._is_ellipsis import TypeOrEllipsis, is_ellipsis
 from .._props import Props
 from .._schema_visitor import SchemaVisitor
 from .._schema_visitor import SchemaVisitorReturnType as ReturnType
-from ..errors import DeclarationError, make_already_declared_error, make_invalid_type_error
+from ..errors import (
+    DeclarationError,
+    get_repr,
+    make_already_declared_error,
+    make_invalid_type_error,
+)
 from ._optional import optional
 from ._schema import GenericSchema, Schema
 
@@ -43,10 +48,10 @@ class DictSchema(Schema[DictProps]):
         for key, val in keys.items():
             if is_ellipsis(key) or is_ellipsis(val):
                 if not is_ellipsis(key):
-                    message = f"Inappropriate type of key {key!r} ({type(key)!r})"
+                    message = f"Inappropriate type of key {get_repr(key)} ({type(key)!r})"
                     raise DeclarationError(message)
                 if not is_ellipsis(val):
-                    message = f"Inappropriate type of value {val!r} ({type(val)!r})"
+                    message = f"Inappropriate type of value {get_repr(val)} ({type(val)!r})"
                     raise DeclarationError(message)
             else:
                 if not isinstance(val, Schema):
diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 637cb17..1efeb26 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -10,6 +10,7 @@ from .._schema_visitor import SchemaVisitor
 from .._schema_visitor import SchemaVisitorReturnType as ReturnType
 from ..errors import (
     DeclarationError,
+    get_repr,
     make_already_declared_error,
     make_incorrect_len_error,
     make_incorrect_max_len_error,
@@ -150,7 +151,7 @@ class StrSchema(Schema[StrProps]):
         if self.props.value is not Nil:
             missing_letters = {x for x in self.props.value if x not in letters}
             if len(missing_letters) > 0:
-                message = f"`{self!r}` alphabet is missing letters: "
+                message = f"`{get_repr(self)}` alphabet is missing letters: "
                 message += repr("".join(sorted(missing_letters)))
                 raise DeclarationError(message)
 
@@ -168,7 +169,7 @@ class StrSchema(Schema[StrProps]):
 
         if self.props.value is not Nil:
             if substr not in self.props.value:
-                message = f"`{self!r}` does not contain {substr!r}"
+                message = f"`{get_repr(self)}` does not contain {substr!r}"
                 raise DeclarationError(message)
 
         return self.__class__(self.props.update(substr=substr))
@@ -190,7 +191,7 @@ class StrSchema(Schema[StrProps]):
 
         if self.props.value is not Nil:
             if re.search(pattern, self.props.value) is None:
-                message = f"`{self!r}` does not match {pattern!r}"
+                message = f"`{get_repr(self)}` does not match {pattern!r}"
                 raise DeclarationError(message)
 
         return self.__class__(self.props.update(pattern=pattern))
-- 
2.43.0


From 12259a51ef1857cac8985a6d0288c9efdb2bbd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:13 +0000
Subject: [PATCH 07/29] fix: refuse patterns that re refuses with other
 exceptions than re.error

re.compile raises OverflowError for huge repeat counts, RecursionError for
deeply nested groups and ValueError for counts with too many digits.
---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 1efeb26..6739e2f 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -185,7 +185,7 @@ class StrSchema(Schema[StrProps]):
 
         try:
             re.compile(pattern)
-        except re.error as e:
+        except (re.error, OverflowError, ValueError, RecursionError) as e:
             message = f"Invalid pattern ({e})"
             raise DeclarationError(message) from None
 
-- 
2.43.0


From be45033060e4c5044850fe84a908be279027904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:13 +0000
Subject: [PATCH 08/29] fix: refuse a fixed uuid4 value of another version

schema.uuid4(value) accepted any UUID, although no value conforms to the
schema then.
---
 d42/declaration/errors/__init__.py     | 10 +++++++++-
 d42/declaration/types/_uuid4_schema.py |  9 ++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/d42/declaration/errors/__init__.py b/d42/declaration/errors/__init__.py
index e866042..67fdfe8 100644
--- a/d42/declaration/errors/__init__.py
+++ b/d42/declaration/errors/__init__.py
@@ -1,4 +1,5 @@
 from typing import TYPE_CHECKING, Any, Sized, Tuple, Type
+from uuid import UUID
 
 if TYPE_CHECKING:
     from ..types import GenericSchema
@@ -6,7 +7,7 @@ if TYPE_CHECKING:
 __all__ = ("DeclarationError", "make_invalid_type_error", "make_already_declared_error",
            "make_incorrect_len_error", "make_incorrect_min_error", "make_incorrect_max_error",
            "make_incorrect_min_len_error", "make_incorrect_max_len_error",
-           "make_incorrect_precision_error", "get_repr",)
+           "make_incorrect_precision_error", "make_invalid_version_error", "get_repr",)
 
 
 class DeclarationError(Exception):
@@ -84,3 +85,10 @@ def make_incorrect_precision_error(schema: "GenericSchema",
     message = (f"`{get_repr(schema)}` precision must be greater than 0 or less than "
                f"{max_precision}, {get_repr(precision)} given")
     return DeclarationError(message)
+
+
+def make_invalid_version_error(schema: "GenericSchema", value: UUID,
+                               version: int) -> DeclarationError:
+    message = (f"`{get_repr(schema)}` value must be a UUID of version {version}, "
+               f"{value!r} of version {value.version!r} given")
+    return DeclarationError(message)
diff --git a/d42/declaration/types/_uuid4_schema.py b/d42/declaration/types/_uuid4_schema.py
index c0a30a0..d610e6e 100644
--- a/d42/declaration/types/_uuid4_schema.py
+++ b/d42/declaration/types/_uuid4_schema.py
@@ -6,7 +6,11 @@ from niltype import Nil, Nilable
 from .._props import Props
 from .._schema_visitor import SchemaVisitor
 from .._schema_visitor import SchemaVisitorReturnType as ReturnType
-from ..errors import make_already_declared_error, make_invalid_type_error
+from ..errors import (
+    make_already_declared_error,
+    make_invalid_type_error,
+    make_invalid_version_error,
+)
 from ._schema import Schema
 
 __all__ = ("UUID4Schema", "UUID4Props",)
@@ -29,4 +33,7 @@ class UUID4Schema(Schema[UUID4Props]):
         if self.props.value is not Nil:
             raise make_already_declared_error(self)
 
+        if value.version != 4:
+            raise make_invalid_version_error(self, value, 4)
+
         return self.__class__(self.props.update(value=value))
-- 
2.43.0


From 27d5f4bd1794a4b82ce0584ead1e615fee1e325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:07 +0000
Subject: [PATCH 09/29] fix: represent values whose repr is not an expression

inf and nan have no literals, repr() of an int with too many digits raises,
and members of IntEnum or StrEnum (or other subclasses) render as something
that can not be evaluated.
---
 d42/representation/_representor.py | 65 ++++++++++++++++++------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/d42/representation/_representor.py b/d42/representation/_representor.py
index f9cd100..f03fdcb 100644
--- a/d42/representation/_representor.py
+++ b/d42/representation/_representor.py
@@ -1,3 +1,4 @@
+from math import isfinite, isnan
 from typing import Any, cast
 
 from niltype import Nil
@@ -37,6 +38,17 @@ class Representor(SchemaVisitor[str]):
             return cast(str, represent_method(self, indent=indent, **kwargs))
         raise NotImplementedError(f"{schema.__class__.__name__} has no method '__d42_represent__'")
 
+    def _represent_value(self, value: Any) -> str:
+        if isinstance(value, float) and not isfinite(value):  # there are no literals for these
+            return "1e999 - 1e999" if isnan(value) else "1e999" if value > 0 else "-1e999"
+        for type_ in (bool, int, float, str, bytes):
+            if isinstance(value, type_):
+                try:
+                    return type_.__repr__(value)
+                except ValueError:  # an int with more digits than Python is willing to print
+                    return hex(cast(int, value))
+        return repr(value)
+
     def visit_none(self, schema: NoneSchema, *, indent: int = 0, **kwargs: Any) -> str:
         return f"{self._name}.none"
 
@@ -44,20 +56,20 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.bool"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._represent_value(schema.props.value)})"
         return r
 
     def visit_int(self, schema: IntSchema, *, indent: int = 0, **kwargs: Any) -> str:
         r = f"{self._name}.int"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._represent_value(schema.props.value)})"
 
         if schema.props.min is not Nil:
-            r += f".min({schema.props.min!r})"
+            r += f".min({self._represent_value(schema.props.min)})"
 
         if schema.props.max is not Nil:
-            r += f".max({schema.props.max!r})"
+            r += f".max({self._represent_value(schema.props.max)})"
 
         return r
 
@@ -65,16 +77,16 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.float"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._represent_value(schema.props.value)})"
 
         if schema.props.min is not Nil:
-            r += f".min({schema.props.min!r})"
+            r += f".min({self._represent_value(schema.props.min)})"
 
         if schema.props.max is not Nil:
-            r += f".max({schema.props.max!r})"
+            r += f".max({self._represent_value(schema.props.max)})"
 
         if schema.props.precision is not Nil:
-            r += f".precision({schema.props.precision!r})"
+            r += f".precision({self._represent_value(schema.props.precision)})"
 
         return r
 
@@ -82,25 +94,26 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.str"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._represent_value(schema.props.value)})"
 
         if schema.props.alphabet is not Nil:
-            r += f".alphabet({schema.props.alphabet!r})"
+            r += f".alphabet({self._represent_value(schema.props.alphabet)})"
 
         if schema.props.substr is not Nil:
-            r += f".contains({schema.props.substr!r})"
+            r += f".contains({self._represent_value(schema.props.substr)})"
 
         if schema.props.pattern is not Nil:
-            r += f".regex({schema.props.pattern!r})"
+            r += f".regex({self._represent_value(schema.props.pattern)})"
 
         if schema.props.len is not Nil:
-            r += f".len({schema.props.len!r})"
+            r += f".len({self._represent_value(schema.props.len)})"
         elif (schema.props.min_len is not Nil) and (schema.props.max_len is not Nil):
-            r += f".len({schema.props.min_len!r}, {schema.props.max_len!r})"
+            r += (f".len({self._represent_value(schema.props.min_len)}, "
+                  f"{self._represent_value(schema.props.max_len)})")
         elif schema.props.min_len is not Nil:
-            r += f".len({schema.props.min_len!r}, ...)"
+            r += f".len({self._represent_value(schema.props.min_len)}, ...)"
         elif schema.props.max_len is not Nil:
-            r += f".len(..., {schema.props.max_len!r})"
+            r += f".len(..., {self._represent_value(schema.props.max_len)})"
 
         return r
 
@@ -124,13 +137,14 @@ class Representor(SchemaVisitor[str]):
             r += "\n" + " " * indent + "])"
 
         if schema.props.len is not Nil:
-            r += f".len({schema.props.len!r})"
+            r += f".len({self._represent_value(schema.props.len)})"
         elif (schema.props.min_len is not Nil) and (schema.props.max_len is not Nil):
-            r += f".len({schema.props.min_len!r}, {schema.props.max_len!r})"
+            r += (f".len({self._represent_value(schema.props.min_len)}, "
+                  f"{self._represent_value(schema.props.max_len)})")
         elif schema.props.min_len is not Nil:
-            r += f".len({schema.props.min_len!r}, ...)"
+            r += f".len({self._represent_value(schema.props.min_len)}, ...)"
         elif schema.props.max_len is not Nil:
-            r += f".len(..., {schema.props.max_len!r})"
+            r += f".len(..., {self._represent_value(schema.props.max_len)})"
 
         return r
 
@@ -150,7 +164,8 @@ class Representor(SchemaVisitor[str]):
             if is_ellipsis(key):
                 key_repr = val_repr = "..."
             else:
-                key_repr = f"optional({key!r})" if is_optional else repr(key)
+                key_repr = self._represent_value(key)
+                key_repr = f"optional({key_repr})" if is_optional else key_repr
                 val_repr = val.__accept__(self, indent=indent + self._indent, **kwargs)
             pairs.append("{indent}{key}: {val}".format(
                 indent=" " * (indent + self._indent),
@@ -176,7 +191,7 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.bytes"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._represent_value(schema.props.value)})"
         return r
 
     def visit_type_alias(self, schema: GenericTypeAliasSchema[TypeAliasPropsType],
@@ -191,7 +206,7 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.uuid4"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._represent_value(schema.props.value)})"
 
         return r
 
@@ -199,7 +214,7 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.datetime"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._represent_value(schema.props.value)})"
 
         return r
 
@@ -207,6 +222,6 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.date"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._represent_value(schema.props.value)})"
 
         return r
-- 
2.43.0


From 14ec889d7e93152c8f1859215a3e473ec94f56b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:23 +0000
Subject: [PATCH 10/29] fix: represent the length of a list declared with no
 elements

schema.list([]).len(0) was printed as schema.list([]).
---
 d42/representation/_representor.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/d42/representation/_representor.py b/d42/representation/_representor.py
index f03fdcb..352e5ab 100644
--- a/d42/representation/_representor.py
+++ b/d42/representation/_representor.py
@@ -123,8 +123,6 @@ class Representor(SchemaVisitor[str]):
         if schema.props.type is not Nil:
             r += "({})".format(schema.props.type.__accept__(self, indent=indent, **kwargs))
         elif schema.props.elements is not Nil:
-            if len(schema.props.elements) == 0:
-                return r + "([])"
             elems = []
             for element in schema.props.elements:
                 if is_ellipsis(element):
@@ -132,9 +130,10 @@ class Representor(SchemaVisitor[str]):
                 else:
                     elem = element.__accept__(self, indent=indent + self._indent, **kwargs)
                 elems.append(" " * (indent + self._indent) + elem)
-            r += "([\n"
-            r += ",\n".join(elems)
-            r += "\n" + " " * indent + "])"
+            r += "(["
+            if len(elems) > 0:
+                r += "\n" + ",\n".join(elems) + "\n" + " " * indent
+            r += "])"
 
         if schema.props.len is not Nil:
             r += f".len({self._represent_value(schema.props.len)})"
-- 
2.43.0


From 86487b0befac6c998e958f04d74e364f211b5e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:23 +0000
Subject: [PATCH 11/29] fix: refuse a pattern after a maximum length

The guard tested len twice and never max_len, while the opposite order is
refused.
---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 6739e2f..217aa08 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -180,7 +180,7 @@ class StrSchema(Schema[StrProps]):
 
         if (self.props.pattern is not Nil) or (self.props.alphabet is not Nil) or \
            (self.props.len is not Nil) or (self.props.min_len is not Nil) or \
-           (self.props.len is not Nil) or (self.props.substr is not Nil):
+           (self.props.max_len is not Nil) or (self.props.substr is not Nil):
             raise make_already_declared_error(self)
 
         try:
-- 
2.43.0


From fc67281b4d4fe833eb1b312f9cc62f8346267571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:23 +0000
Subject: [PATCH 12/29] fix: copy the list of elements passed to a declaration

The schema kept the list of the caller, so changing it afterwards changed
the schema.
---
 d42/declaration/types/_list_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_list_schema.py b/d42/declaration/types/_list_schema.py
index 0a98931..b0494ee 100644
--- a/d42/declaration/types/_list_schema.py
+++ b/d42/declaration/types/_list_schema.py
@@ -84,7 +84,7 @@ class ListSchema(Schema[ListProps]):
            is_ellipsis(elements_or_type[0]) and is_ellipsis(elements_or_type[-1]):
             raise DeclarationError("`...` must be first or last element")
 
-        return self.__class__(self.props.update(elements=elements_or_type))
+        return self.__class__(self.props.update(elements=[*elements_or_type]))
 
     def __declare_len(self, props: ListProps, length: Any) -> ListProps:
         if not isinstance(length, int):
-- 
2.43.0


From 06576fa114e4dd5f14cfdf2684ea46995a6cd270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:10 +0000
Subject: [PATCH 13/29] fix: do not validate props while comparing schemas

schema == value validates the value, so schema.any compared equal to an
ellipsis or to an absent prop inside of another schema.  A schema with NaN
was not equal to itself.
---
 d42/declaration/_props.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/d42/declaration/_props.py b/d42/declaration/_props.py
index 8a3261a..622c15a 100644
--- a/d42/declaration/_props.py
+++ b/d42/declaration/_props.py
@@ -1,4 +1,4 @@
-from typing import Any, Iterator, Mapping, TypeVar
+from typing import Any, Iterator, Mapping, TypeVar, cast
 
 from niltype import Nil, Nilable
 
@@ -7,6 +7,21 @@ __all__ = ("Props", "PropsType",)
 PropsType = TypeVar("PropsType", bound="Props")
 
 
+def _equals(left: Any, right: Any) -> bool:
+    if left is right:
+        return True
+    if hasattr(left, "__accept__") != hasattr(right, "__accept__"):
+        return False  # schema == value validates the value
+    if isinstance(left, float) and isinstance(right, float) and (left != left):
+        return right != right
+    for type_ in (list, tuple):
+        if isinstance(left, type_) and isinstance(right, type_):
+            return len(left) == len(right) and all(map(_equals, left, right))
+    if isinstance(left, dict) and isinstance(right, dict):
+        return left.keys() == right.keys() and all(_equals(left[key], right[key]) for key in left)
+    return cast(bool, left == right)
+
+
 class Props:
     def __init__(self, registry: Nilable[Mapping[str, Any]] = Nil) -> None:
         self._registry = registry if (registry is not Nil) else {}
@@ -34,12 +49,12 @@ class Props:
 
         for key, val in self._registry.items():
             other_val = other.get(key)
-            if val != other_val:
+            if not _equals(val, other_val):
                 return False
 
         for key, other_val in other._registry.items():
             val = self.get(key)
-            if other_val != val:
+            if not _equals(other_val, val):
                 return False
 
         return True
-- 
2.43.0


From 85e5341aace6e3afd4324ba0147fa596082d193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 14/29] fix: refuse values that have no repr with
 SubstitutionError

The message of the error printed the value (or the unknown key), and repr()
of an int with too many digits raises ValueError.
---
 d42/substitution/_substitutor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 93f4c15..5cc2cb7 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -3,6 +3,7 @@ from typing import Any, Dict, List, Optional, cast
 from niltype import Nil
 
 from d42.declaration import SchemaVisitor
+from d42.declaration.errors import get_repr
 from d42.declaration.types import (
     AnySchema,
     BoolSchema,
@@ -47,7 +48,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         try:
             return from_native(value)
         except ValueError:
-            raise SubstitutionError(f"Can't convert {value!r} to schema")
+            raise SubstitutionError(f"Can't convert {get_repr(value)} to schema")
 
     def visit(self, schema: GenericSchema, *, value: Any = Nil, **kwargs: Any) -> GenericSchema:
         if substitute_method := getattr(schema, "__d42_substitute__", None):
@@ -184,7 +185,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     keys[key] = (val, is_optional)
             for key, val in value.items():
                 if key not in schema.props.keys:
-                    raise SubstitutionError(f"Unknown key {key!r}")
+                    raise SubstitutionError(f"Unknown key {get_repr(key)}")
 
         return schema.__class__(schema.props.update(keys=keys))
 
-- 
2.43.0


From 78a3f7a51d9eead807074bb466fba88e541dfbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 15/29] fix: refuse misplaced ... in substituted lists and
 dicts

schema.list %% [1, ..., 2] and schema.dict %% {'a': ...} returned schemas that
no operation can handle.
---
 d42/substitution/_substitutor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 5cc2cb7..0b9661f 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -114,6 +114,8 @@ class Substitutor(SchemaVisitor[GenericSchema]):
 
         if len(value) > 0 and all(is_ellipsis(x) for x in value):
             raise SubstitutionError("Can't substitute all ...")
+        if any(is_ellipsis(x) for x in value[1:-1]):
+            raise SubstitutionError("Can't substitute ... in the middle")
 
         if (schema.props.elements is Nil) and (schema.props.type is Nil):
             elements = []
@@ -169,6 +171,8 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         keys: Dict[Any, Any] = {}
         if schema.props.keys is Nil or (len(schema.props.keys) == 1 and ... in schema.props.keys):
             for key, val in value.items():
+                if is_ellipsis(key) != is_ellipsis(val):
+                    raise SubstitutionError("Can't substitute ...")
                 keys[key] = (... if is_ellipsis(val) else self._from_native(val), False)
             if (schema.props.keys is not Nil) and (... in schema.props.keys):
                 keys[...] = (..., False)
-- 
2.43.0


From 330986dfa78c265b2b9dbbc2b99b5baa8d969fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:09 +0000
Subject: [PATCH 16/29] fix: refuse substitution no window or alternative
 admits

A contains-list fell through to the head form and substituted its leading
... marker (AttributeError); any(...) returned a schema with no alternatives.
---
 d42/substitution/_substitutor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 0b9661f..9ffedbd 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -147,6 +147,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     pass
                 else:
                     return schema.__class__(schema.props.update(elements=substituted))
+            raise SubstitutionError("Can't substitute any of the elements")
 
         # head
         if (len(elements) >= 2) and is_ellipsis(elements[-1]):
@@ -209,6 +210,8 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     pass
                 else:
                     types.append(substituted)
+            if len(types) == 0:
+                raise SubstitutionError("Can't substitute any of the types")
         return schema.__class__(schema.props.update(types=tuple(types)))
 
     def visit_bytes(self, schema: BytesSchema, *, value: Any = Nil, **kwargs: Any) -> BytesSchema:
-- 
2.43.0


From c9b422aee42a5cf7442cc0f75dc5b024763671ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:29 +0000
Subject: [PATCH 17/29] fix: keep a conforming value acceptable after
 substitution

A contains-list took the first window that admits the value partially, and
any(...) kept partially matching alternatives only, so a value conforming to
the schema could be rejected by the substituted one.
---
 d42/substitution/_substitutor.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 9ffedbd..e626603 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -30,6 +30,9 @@ from .errors import SubstitutionError, make_substitution_error
 __all__ = ("Substitutor",)
 
 
+_validator = Validator()
+
+
 class Substitutor(SchemaVisitor[GenericSchema]):
     def __init__(self, validator: Optional[Validator] = None,
                  formatter: Optional[Formatter] = None) -> None:
@@ -50,6 +53,11 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         except ValueError:
             raise SubstitutionError(f"Can't convert {get_repr(value)} to schema")
 
+    def _rejects(self, schema: GenericSchema, substituted: GenericSchema, value: Any) -> bool:
+        if schema.__accept__(_validator, value=value).has_errors():
+            return False  # not a complete value
+        return substituted.__accept__(_validator, value=value).has_errors()
+
     def visit(self, schema: GenericSchema, *, value: Any = Nil, **kwargs: Any) -> GenericSchema:
         if substitute_method := getattr(schema, "__d42_substitute__", None):
             return cast(GenericSchema, substitute_method(self, value=value, **kwargs))
@@ -146,7 +154,9 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                 except SubstitutionError:
                     pass
                 else:
-                    return schema.__class__(schema.props.update(elements=substituted))
+                    res = schema.__class__(schema.props.update(elements=substituted))
+                    if not self._rejects(schema, res, value):
+                        return res
             raise SubstitutionError("Can't substitute any of the elements")
 
         # head
@@ -212,7 +222,10 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     types.append(substituted)
             if len(types) == 0:
                 raise SubstitutionError("Can't substitute any of the types")
-        return schema.__class__(schema.props.update(types=tuple(types)))
+        res = schema.__class__(schema.props.update(types=tuple(types)))
+        if self._rejects(schema, res, value):
+            raise SubstitutionError("Can't substitute the type of the value")
+        return res
 
     def visit_bytes(self, schema: BytesSchema, *, value: Any = Nil, **kwargs: Any) -> BytesSchema:
         result = schema.__accept__(self._validator, value=value)
-- 
2.43.0


From 407f372c7d631b6df369c54b274301a63bc86a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:32 +0000
Subject: [PATCH 18/29] fix: do not move a fixed float on substitution

A float equal within the tolerance replaced the fixed value, so the result
accepted values the original schema rejects.
---
 d42/substitution/_substitutor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index e626603..92030e7 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -86,6 +86,8 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         result = schema.__accept__(self._validator, value=value)
         if result.has_errors():
             raise make_substitution_error(result, self._formatter)
+        if (schema.props.value is not Nil) and (schema.props.precision is Nil):
+            return schema.__class__(schema.props)  # the value is equal within the tolerance
         return schema.__class__(schema.props.update(value=value))
 
     def visit_str(self, schema: StrSchema, *, value: Any = Nil, **kwargs: Any) -> StrSchema:
-- 
2.43.0


From 4afe0d7aa121cf3d0c48ef5ca37750c3641a5b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:36 +0000
Subject: [PATCH 19/29] fix: refuse dict keys that are declaration markers in
 from_native

{optional(k): v} became a schema of k and {...: v} raised DeclarationError.
---
 d42/utils/_from_native.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d42/utils/_from_native.py b/d42/utils/_from_native.py
index b281e5f..c11b371 100644
--- a/d42/utils/_from_native.py
+++ b/d42/utils/_from_native.py
@@ -2,6 +2,7 @@ from datetime import date, datetime
 from typing import Any
 from uuid import UUID
 
+from d42.declaration._is_ellipsis import is_ellipsis
 from d42.declaration.types import (
     BoolSchema,
     BytesSchema,
@@ -15,6 +16,7 @@ from d42.declaration.types import (
     NoneSchema,
     StrSchema,
     UUID4Schema,
+    optional,
 )
 
 __all__ = ("from_native",)
@@ -34,6 +36,8 @@ def from_native(value: Any) -> GenericSchema:
     elif isinstance(value, list):
         return ListSchema()([from_native(x) for x in value])
     elif isinstance(value, dict):
+        if any(is_ellipsis(key) or isinstance(key, optional) for key in value):
+            raise ValueError(value)
         return DictSchema()({key: from_native(val) for key, val in value.items()})
     elif isinstance(value, bytes):
         return BytesSchema()(value)
-- 
2.43.0


From 448f48be341b30a112b03197f7fd26608b35fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:45 +0000
Subject: [PATCH 20/29] fix: generate numbers bounded beyond the default range

---
 d42/generation/_generator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index ac1b55b..c1a92a7 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -70,6 +70,10 @@ class Generator(SchemaVisitor[Any]):
 
         min_value = schema.props.min if (schema.props.min is not Nil) else INT_MIN
         max_value = schema.props.max if (schema.props.max is not Nil) else INT_MAX
+        if schema.props.max is Nil:
+            max_value = max(max_value, min_value)
+        if schema.props.min is Nil:
+            min_value = min(min_value, max_value)
         return self._random.random_int(min_value, max_value)
 
     def visit_float(self, schema: FloatSchema, **kwargs: Any) -> float:
@@ -78,6 +82,10 @@ class Generator(SchemaVisitor[Any]):
 
         min_value = schema.props.min if (schema.props.min is not Nil) else FLOAT_MIN
         max_value = schema.props.max if (schema.props.max is not Nil) else FLOAT_MAX
+        if schema.props.max is Nil:
+            max_value = max(max_value, min_value)
+        if schema.props.min is Nil:
+            min_value = min(min_value, max_value)
         precision = schema.props.precision if (schema.props.precision is not Nil) else Nil
 
         if precision is not Nil:
-- 
2.43.0


From e852a356e31c943e97dcb605976a8c6381ad1d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:07 +0000
Subject: [PATCH 21/29] fix: generate strings and lists with length bounds
 beyond the default range

---
 d42/generation/_generator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index c1a92a7..f941fab 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -108,6 +108,11 @@ class Generator(SchemaVisitor[Any]):
             if schema.props.substr is not Nil:
                 min_length = max(min_length, len(schema.props.substr))
                 max_length = max(max_length, len(schema.props.substr))
+            if schema.props.max_len is Nil:
+                max_length = max(max_length, min_length)
+            if schema.props.alphabet is not Nil and len(schema.props.alphabet) == 0:
+                # there are no letters to make a longer string of
+                max_length = min_length
             length = self._random.random_int(min_length, max_length)
 
         if schema.props.alphabet is not Nil:
@@ -145,6 +150,8 @@ class Generator(SchemaVisitor[Any]):
             if schema.props.max_len is not Nil:
                 max_length = schema.props.max_len
                 is_length_specified = True
+            else:
+                max_length = max(max_length, min_length)
             length = self._random.random_int(min_length, max_length)
 
         if schema.props.type is not Nil:
-- 
2.43.0


From e617a2d8496550a93a421c1a27138ade377b6fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:11 +0000
Subject: [PATCH 22/29] fix: generate as many elements as a list with ... and a
 length needs

---
 d42/generation/_generator.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index f941fab..3c48b77 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -130,11 +130,20 @@ class Generator(SchemaVisitor[Any]):
 
     def visit_list(self, schema: ListSchema, **kwargs: Any) -> List[Any]:
         if schema.props.elements is not Nil:
-            elements = []
+            elements: List[Any] = []
+            rest_index = None
             for elem in schema.props.elements:
                 if is_ellipsis(elem):
+                    rest_index = len(elements)
                     continue
                 elements.append(elem.__accept__(self, **kwargs))
+            if rest_index is not None:
+                min_length = 0
+                if schema.props.len is not Nil:
+                    min_length = schema.props.len
+                elif schema.props.min_len is not Nil:
+                    min_length = schema.props.min_len
+                elements[rest_index:rest_index] = [[] for _ in range(min_length - len(elements))]
             return elements
 
         is_length_specified = False
-- 
2.43.0


From e09652e747bb4c025d8e757ca1c32d03431422cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:00 +0000
Subject: [PATCH 23/29] fix: keep generated floats in bounds at any precision
 and magnitude

---
 d42/generation/_random.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/d42/generation/_random.py b/d42/generation/_random.py
index aeb3873..80ea96e 100644
--- a/d42/generation/_random.py
+++ b/d42/generation/_random.py
@@ -1,4 +1,7 @@
 import random
+import sys
+from fractions import Fraction
+from math import ceil, floor
 from typing import Any, List, Sequence, TypeVar, cast
 
 from niltype import Nil, Nilable
@@ -20,15 +23,20 @@ class Random:
         if start > end:
             raise ValueError("random_float: start must be <= end")
 
-        if precision is Nil:
-            return random.uniform(start, end)
+        if not (start < end):  # equal or not comparable
+            return start
+        start, end = max(start, -sys.float_info.max), min(end, sys.float_info.max)
 
-        scale_factor = 10 ** precision
-        left_number = int(start * scale_factor)
-        right_number = int(end * scale_factor)
+        if precision is not Nil:
+            scale_factor = 10 ** precision
+            left_number = ceil(Fraction(start) * scale_factor)
+            right_number = floor(Fraction(end) * scale_factor)
+            if left_number <= right_number:
+                return cast(float, self.random_int(left_number, right_number) / scale_factor)
 
-        result = cast(float, self.random_int(left_number, right_number) / scale_factor)
-        return round(result, precision)
+        if end - start > sys.float_info.max:
+            return random.uniform(start / 2, end / 2) * 2
+        return random.uniform(start, end)
 
     def random_str(self, length: int, alphabet: str) -> str:
         return "".join(random.choice(alphabet) for _ in range(length))
-- 
2.43.0


From 745de948ab66d06bf9f2a2c94ac8a63b4005b166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:13 +0000
Subject: [PATCH 24/29] fix: do not take a repeat of 44 for an unbounded one

---
 d42/generation/_regex_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index 428c229..cec2b25 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -111,7 +111,7 @@ class RegexGenerator:
 
     def _generate_max_repeat(self, value: Tuple[int, int, List[Any]]) -> str:
         min_count, max_count, val = value
-        if max_count in (MAX_REPEAT, MAXREPEAT):
+        if max_count == MAXREPEAT:
             max_count = max(self._max_repeat, min_count)
         count = self._random.random_int(min_count, max_count)
         return "".join(self._generate_pattern(val) for _ in range(count))
-- 
2.43.0


From 45ebc01ea04fad8ed25e35f1ccf0d7693fc8670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:49 +0000
Subject: [PATCH 25/29] fix: make negated character classes reproducible

---
 d42/generation/_regex_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index cec2b25..4878fd3 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -104,7 +104,9 @@ class RegexGenerator:
                 exclude_letters += self._generate(opcode, val)
 
         letters = "".join(set(self._alphabet["letters"]) - set(exclude_letters))
-        return self._random.random_choice(letters)
+        chosen = self._random.random_choice(letters)
+        # the order of a set depends on hash randomisation, the position drawn from it does not
+        return sorted(letters)[letters.index(chosen)]
 
     def _generate_not_literal(self, value: int) -> str:
         return self._generate_not_in([(LITERAL, value)])
-- 
2.43.0


From 6480f231295c2a9eaae2eedf3f92125abca5a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:06 +0000
Subject: [PATCH 26/29] fix: generate from negated classes that exclude the
 whole alphabet

---
 d42/generation/_regex_generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index 4878fd3..95ef1de 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -104,6 +104,11 @@ class RegexGenerator:
                 exclude_letters += self._generate(opcode, val)
 
         letters = "".join(set(self._alphabet["letters"]) - set(exclude_letters))
+        if not letters:
+            excluded = set(exclude_letters)
+            # no category contains a character that is not alphanumeric
+            letters = next((char for char in map(chr, range(sys.maxunicode + 1))
+                            if not char.isalnum() and char not in excluded), "")
         chosen = self._random.random_choice(letters)
         # the order of a set depends on hash randomisation, the position drawn from it does not
         return sorted(letters)[letters.index(chosen)]
-- 
2.43.0


From 66e6cfa8dae5c82024c64e12a67ce0b7af7a0459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 27/29] fix: represent the items of tuple and frozenset keys as
 expressions

---
 d42/representation/_representor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/d42/representation/_representor.py b/d42/representation/_representor.py
index 352e5ab..c0a9dd4 100644
--- a/d42/representation/_representor.py
+++ b/d42/representation/_representor.py
@@ -41,6 +41,12 @@ class Representor(SchemaVisitor[str]):
     def _represent_value(self, value: Any) -> str:
         if isinstance(value, float) and not isfinite(value):  # there are no literals for these
             return "1e999 - 1e999" if isnan(value) else "1e999" if value > 0 else "-1e999"
+        if isinstance(value, tuple):
+            items = [self._represent_value(item) for item in value]
+            return "({})".format(", ".join(items) + ("," if len(items) == 1 else ""))
+        if isinstance(value, frozenset) and value:
+            items = [self._represent_value(item) for item in value]
+            return "frozenset({{{}}})".format(", ".join(sorted(items)))
         for type_ in (bool, int, float, str, bytes):
             if isinstance(value, type_):
                 try:
-- 
2.43.0


From 58e45df9a766b7daa5ca2e479851fda50065cd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 28/29] fix: migrate only the import itself, not everything on
 its lines

---
 d42/migration/migrate_v1_to_v2.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/d42/migration/migrate_v1_to_v2.py b/d42/migration/migrate_v1_to_v2.py
index 65560f5..faf6bca 100644
--- a/d42/migration/migrate_v1_to_v2.py
+++ b/d42/migration/migrate_v1_to_v2.py
@@ -136,8 +136,9 @@ MappingType = Dict[str, Dict[str, Tuple[str, str]]]
 
 
 def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
-    lines = source_code.splitlines(keepends=True)
     tree = ast.parse(source_code)
+    # The parser counts columns in bytes, and only \n, \r and \r\n as line ends
+    lines = source_code.encode("utf-8").splitlines(keepends=True)
     replacements = []
 
     for node in tree.body:
@@ -164,24 +165,33 @@ def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
             replacement_lines = []
             for new_module, names in new_imports.items():
                 names_str = ', '.join(names)
-                replacement_lines.append(f'from {new_module} import {names_str}\n')
+                replacement_lines.append(f'from {new_module} import {names_str}')
             if unmapped_names:
                 names_str = ', '.join(unmapped_names)
-                replacement_lines.append(f'from {module} import {names_str}\n')
+                replacement_lines.append(f'from {module} import {names_str}')
 
             # Get line numbers
             start_line = node.lineno - 1  # Convert to 0-based index
             end_line = getattr(node, 'end_lineno', node.lineno) - 1
-            replacements.append((start_line, end_line, replacement_lines))
+
+            # Keep whatever shares the first and the last line with the import
+            before = lines[start_line][:node.col_offset]
+            after = lines[end_line][node.end_col_offset:]
+            is_alone = not before and not after.partition(b"#")[0].strip()
+            replacement = ("\n" if is_alone else "; ").join(replacement_lines).encode("utf-8")
+            replacements.append((start_line, end_line, node.col_offset, node.end_col_offset,
+                                 replacement))
 
     if len(replacements) == 0:
         return None
 
     # Apply replacements in reverse order to maintain line indices
-    for start_line, end_line, replacement_lines in reversed(replacements):
-        lines[start_line:end_line+1] = replacement_lines
+    for start_line, end_line, start_col, end_col, replacement in reversed(replacements):
+        before = lines[start_line][:start_col]
+        after = lines[end_line][end_col:]
+        lines[start_line:end_line+1] = [before + replacement + after]
 
-    return ''.join(lines)
+    return b"".join(lines).decode("utf-8")
 
 
 def process_file(filepath: str, mapping: MappingType) -> None:
-- 
2.43.0


From 683b73e3b1c125f3cfb0d5146a6bc7b92128bc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 29/29] fix: keep the order of imported names when an import is
 migrated

---
 d42/migration/migrate_v1_to_v2.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/d42/migration/migrate_v1_to_v2.py b/d42/migration/migrate_v1_to_v2.py
index faf6bca..05cdf3d 100644
--- a/d42/migration/migrate_v1_to_v2.py
+++ b/d42/migration/migrate_v1_to_v2.py
@@ -1,8 +1,7 @@
 #!/usr/bin/env python3
 import ast
 import os
-from collections import defaultdict
-from typing import Dict, Tuple, Union
+from typing import Dict, List, Tuple, Union
 
 __all__ = ("migrate_v1_to_v2",)
 
@@ -147,8 +146,8 @@ def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
             if node.level > 0:
                 continue  # Skip relative imports like 'from .module import ...'
 
-            new_imports = defaultdict(list)
-            unmapped_names = []
+            # A later name may rebind an earlier one, so the order of the names matters
+            new_imports: List[Tuple[str, List[str]]] = []
 
             for alias in node.names:
                 name = alias.name
@@ -156,19 +155,18 @@ def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
                 if module in mapping and name in mapping[module]:
                     new_module, new_name = mapping[module][name]
                     import_name = f"{new_name} as {asname}" if asname else new_name
-                    new_imports[new_module].append(import_name)
                 else:
+                    new_module = str(module)
                     import_name = f"{name} as {asname}" if asname else name
-                    unmapped_names.append(import_name)
+                if not new_imports or new_imports[-1][0] != new_module:
+                    new_imports.append((new_module, []))
+                new_imports[-1][1].append(import_name)
 
             # Build replacement lines
             replacement_lines = []
-            for new_module, names in new_imports.items():
+            for new_module, names in new_imports:
                 names_str = ', '.join(names)
                 replacement_lines.append(f'from {new_module} import {names_str}')
-            if unmapped_names:
-                names_str = ', '.join(unmapped_names)
-                replacement_lines.append(f'from {module} import {names_str}')
 
             # Get line numbers
             start_line = node.lineno - 1  # Convert to 0-based index
-- 
2.43.0

