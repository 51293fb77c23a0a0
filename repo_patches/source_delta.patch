From 8492009a6491b9baf80ee495c379e343463bd8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 01/61] fix: serialize dates before the year 1000 with a
 four-digit year

---
 scheme/fields/date.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/date.py b/scheme/fields/date.py
index 3909571..4025efa 100644
--- a/scheme/fields/date.py
+++ b/scheme/fields/date.py
@@ -56,14 +56,14 @@ class Date(Field):
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum is not None:
-            params['maximum'] = self.maximum.strftime(self.pattern)
+            params['maximum'] = self._serialize_value(self.maximum)
         if self.minimum is not None:
-            params['minimum'] = self.minimum.strftime(self.pattern)
+            params['minimum'] = self._serialize_value(self.minimum)
 
         return super(Date, self).describe(parameters, verbose, **params)
 
     def _serialize_value(self, value):
-        return value.strftime(self.pattern)
+        return value.strftime(self.pattern.replace('%Y', '%04d' % value.year))
 
     def _unserialize_value(self, value, ancestry=None):
         if isinstance(value, date):
-- 
2.43.0


From 2ad6508362a664a55194c529db09ba2eeb099591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 02/61] fix: serialize datetimes before the year 1000 with a
 four-digit year

---
 scheme/fields/datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 7a4dd34..4097fff 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -62,9 +62,9 @@ class DateTime(Field):
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum:
-            params['maximum'] = self.maximum.strftime(self.pattern)
+            params['maximum'] = self._serialize_value(self.maximum)
         if self.minimum:
-            params['minimum'] = self.minimum.strftime(self.pattern)
+            params['minimum'] = self._serialize_value(self.minimum)
 
         return super(DateTime, self).describe(parameters, verbose, **params)
 
@@ -81,7 +81,7 @@ class DateTime(Field):
     def _serialize_value(self, value):
         if value.tzinfo is not UTC:
             value = value.astimezone(UTC)
-        return value.strftime(self.pattern)
+        return value.strftime(self.pattern.replace('%Y', '%04d' % value.year))
 
     def _unserialize_value(self, value, ancestry=None):
         if isinstance(value, datetime):
-- 
2.43.0


From e8be7056639b8324a1dfa03a986cb3e34ee5bf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 03/61] fix: reduce datetimes given to a date field to their
 date

---
 scheme/fields/date.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/date.py b/scheme/fields/date.py
index 4025efa..532a397 100644
--- a/scheme/fields/date.py
+++ b/scheme/fields/date.py
@@ -1,6 +1,6 @@
 from __future__ import absolute_import
 
-from datetime import date
+from datetime import date, datetime
 from time import strptime
 
 from scheme.exceptions import *
@@ -66,6 +66,8 @@ class Date(Field):
         return value.strftime(self.pattern.replace('%Y', '%04d' % value.year))
 
     def _unserialize_value(self, value, ancestry=None):
+        if isinstance(value, datetime):
+            return value.date()
         if isinstance(value, date):
             return value
 
@@ -77,6 +79,8 @@ class Date(Field):
     def _validate_value(self, value, ancestry):
         if not isinstance(value, date):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
+        if isinstance(value, datetime):
+            value = value.date()
 
         minimum = self.minimum
         if minimum is not None and value < minimum:
@@ -87,3 +91,5 @@ class Date(Field):
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=maximum.strftime(self.pattern))
+
+        return value
-- 
2.43.0


From a1cc693bc433f9550709fffaa9fbd2716b744d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 04/61] fix: refuse NaN in decimal fields instead of leaking
 InvalidOperation

---
 scheme/fields/decimal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scheme/fields/decimal.py b/scheme/fields/decimal.py
index d9ef58d..3e53475 100644
--- a/scheme/fields/decimal.py
+++ b/scheme/fields/decimal.py
@@ -44,6 +44,10 @@ class Decimal(Field):
             raise TypeError("argument 'maximum' must be either None, a decimal.Decimal value,"
                 " or a string representing a valid decimal value")
 
+        for bound in (minimum, maximum):
+            if bound is not None and bound.is_nan():
+                raise TypeError("arguments 'minimum' and 'maximum' cannot be NaN")
+
         self.maximum = maximum
         self.minimum = minimum
 
@@ -87,6 +91,8 @@ class Decimal(Field):
     def _validate_value(self, value, ancestry):
         if not isinstance(value, decimal):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
+        if value.is_nan():
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         minimum = self.minimum
         if minimum is not None and value < minimum:
-- 
2.43.0


From 3da1c306b9316cace3a73556df1f3975ee8cd215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 05/61] fix: refuse times that cannot be compared to the bounds
 of a time field

---
 scheme/fields/time.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scheme/fields/time.py b/scheme/fields/time.py
index fe6e0bb..e72183d 100644
--- a/scheme/fields/time.py
+++ b/scheme/fields/time.py
@@ -76,6 +76,11 @@ class Time(Field):
             raise InvalidTypeError(identity=ancestry, field=self,
                 value=value).construct('invalid')
 
+        for bound in (self.minimum, self.maximum):
+            if bound is not None and (bound.utcoffset() is None) != (value.utcoffset() is None):
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid')
+
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct('minimum',
-- 
2.43.0


From b46c2d76bc1b54a0b610ac855a81011c98182c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 06/61] fix: report datetimes that overflow during validation
 as validation errors

---
 scheme/field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index 8da185d..4d847b0 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -462,7 +462,10 @@ class Field(object):
         if self.constant is not None and value != self.constant:
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-        candidate = self._validate_value(value, ancestry)
+        try:
+            candidate = self._validate_value(value, ancestry)
+        except OverflowError:
+            raise ValidationError(identity=ancestry, field=self, value=value).construct('overflow')
         if candidate is not None:
             value = candidate
 
-- 
2.43.0


From fae0f66bbb4989caa6207a80e9f4e2d773b40454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 07/61] fix: report malformed base64 data as an invalid binary
 value

---
 scheme/fields/binary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/binary.py b/scheme/fields/binary.py
index 2824acc..d77d4a4 100644
--- a/scheme/fields/binary.py
+++ b/scheme/fields/binary.py
@@ -48,7 +48,10 @@ class Binary(Field):
         if not isinstance(value, bytes):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-        return urlsafe_b64decode(value)
+        try:
+            return urlsafe_b64decode(value)
+        except Exception:
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
         if not isinstance(value, bytes):
-- 
2.43.0


From cf407918a62fce7fee4baf9964631adf1d6f13ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 08/61] fix: check uniqueness of sequences with unhashable
 items

---
 scheme/fields/sequence.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index eca6c5f..92f9d32 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -203,7 +203,7 @@ class Sequence(Field):
 
         if not valid:
             raise ValidationError(identity=ancestry, field=self, value=value, structure=sequence)
-        elif self.unique and len(set(sequence)) != len(sequence):
+        elif self.unique and self._has_duplicates(sequence):
             raise ValidationError(identity=ancestry, field=self, value=value).construct('duplicate')
         else:
             return sequence
@@ -224,6 +224,12 @@ class Sequence(Field):
     def _define_undefined_field(self, field):
         self.item = field
 
+    def _has_duplicates(self, sequence):
+        try:
+            return len(set(sequence)) != len(sequence)
+        except TypeError:
+            return any(item in sequence[:i] for i, item in enumerate(sequence))
+
     @classmethod
     def _visit_field(cls, specification, callback):
         return {'item': callback(specification['item'])}
-- 
2.43.0


From 8b478384b35560226ca617b041881fdb12c8bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 09/61] fix: accept tuple keys and reject unhashable keys in
 maps

---
 scheme/fields/map.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 263af53..08d973d 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -196,14 +196,15 @@ class Map(Field):
         for name, subvalue in value.items():
             if key_field:
                 try:
-                    name = key_field.process(name, phase, serialized, ancestry + ['[%s]' % name])
-                except StructuralError as exception:
+                    name = key_field.process(name, phase, serialized, ancestry + ['[%s]' % (name,)])
+                    hash(name)
+                except (StructuralError, TypeError):
                     raise ValidationError(identity=ancestry, field=self, value=value).construct('invalidkeys')
             elif not isinstance(name, string):
                 raise ValidationError(identity=ancestry, field=self, value=value).construct('invalidkeys')
 
             try:
-                map[name] = value_field.process(subvalue, phase, serialized, ancestry + ['[%s]' % name])
+                map[name] = value_field.process(subvalue, phase, serialized, ancestry + ['[%s]' % (name,)])
             except StructuralError as exception:
                 valid = False
                 map[name] = exception
-- 
2.43.0


From 8d734b63d00118aaad5180a307ebc6664aa636bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 10/61] fix: refuse tokens, UUIDs and email addresses followed
 by a newline

---
 scheme/fields/email.py | 2 +-
 scheme/fields/token.py | 2 +-
 scheme/fields/uuid.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/email.py b/scheme/fields/email.py
index 0fc5c53..ccaedb2 100644
--- a/scheme/fields/email.py
+++ b/scheme/fields/email.py
@@ -15,7 +15,7 @@ EMAIL_EXPR = (
 EMAIL_ADDRESS_EXPR = re.compile(r'^(%s)?$' % EMAIL_EXPR)
 EXTENDED_EMAIL_ADDRESS_EXPR = re.compile(r'^(("[^"]+"[ ]+<%s>)|([^<]+[ ]+<%s>)|(%s))?$'
     % (EMAIL_EXPR, EMAIL_EXPR, EMAIL_EXPR))
-EMAIL_LIST_EXPR = re.compile(r'^(%s(,%s)*)?$' % (EMAIL_EXPR, EMAIL_EXPR))
+EMAIL_LIST_EXPR = re.compile(r'^(%s(,%s)*)?\Z' % (EMAIL_EXPR, EMAIL_EXPR))
 
 SEPARATOR_EXPR = re.compile(r'[\s,;:]+')
 SEPARATORS = whitespace + ',;:'
diff --git a/scheme/fields/token.py b/scheme/fields/token.py
index 7ac89a3..ff9c97c 100644
--- a/scheme/fields/token.py
+++ b/scheme/fields/token.py
@@ -11,7 +11,7 @@ class Token(Field):
     """A field for token values."""
 
     basetype = 'token'
-    pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*$')
+    pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*\Z')
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a valid token')
diff --git a/scheme/fields/uuid.py b/scheme/fields/uuid.py
index 57f3713..fd6feaf 100644
--- a/scheme/fields/uuid.py
+++ b/scheme/fields/uuid.py
@@ -11,7 +11,7 @@ class UUID(Field):
     """A field for UUID values."""
 
     basetype = 'text'
-    pattern = re.compile(r'^[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}$')
+    pattern = re.compile(r'^[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}\Z')
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a UUID')
-- 
2.43.0


From 22e7e2f8a0d244e2c44991a55a50e8c05aaccfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 11/61] fix: allow cloning fields which declare additional
 errors

---
 scheme/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index 4d847b0..57588dc 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -204,6 +204,8 @@ class Field(object):
 
         if errors:
             self.errors = self.errors.copy()
+            if isinstance(errors, dict):
+                errors = errors.values()
             for error in errors:
                 self.errors[error.token] = error
 
-- 
2.43.0


From 1e7486612ddadc27c6c51982783d72c326cc2f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 12/61] fix: refuse single and extended email addresses
 followed by a newline

---
 scheme/fields/email.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/email.py b/scheme/fields/email.py
index ccaedb2..7f9c368 100644
--- a/scheme/fields/email.py
+++ b/scheme/fields/email.py
@@ -12,8 +12,8 @@ EMAIL_EXPR = (
     r'|"([\001-\010\013\014\016-\037!#-\[\]-\177]|\\[\001-\011\013\014\016-\177])*"'
     r')@([a-zA-Z0-9-]+\.)+[a-zA-Z]{2,6}')
 
-EMAIL_ADDRESS_EXPR = re.compile(r'^(%s)?$' % EMAIL_EXPR)
-EXTENDED_EMAIL_ADDRESS_EXPR = re.compile(r'^(("[^"]+"[ ]+<%s>)|([^<]+[ ]+<%s>)|(%s))?$'
+EMAIL_ADDRESS_EXPR = re.compile(r'^(%s)?\Z' % EMAIL_EXPR)
+EXTENDED_EMAIL_ADDRESS_EXPR = re.compile(r'^(("[^"]+"[ ]+<%s>)|([^<]+[ ]+<%s>)|(%s))?\Z'
     % (EMAIL_EXPR, EMAIL_EXPR, EMAIL_EXPR))
 EMAIL_LIST_EXPR = re.compile(r'^(%s(,%s)*)?\Z' % (EMAIL_EXPR, EMAIL_EXPR))
 
-- 
2.43.0


From 4f71dbaf165d685ff2e27dbd471a3779b83d320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 13/61] fix: do not turn the timezone of a cloned datetime
 field into an aspect

---
 scheme/fields/datetime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 4097fff..3a12616 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -24,6 +24,7 @@ class DateTime(Field):
     ]
 
     def __init__(self, minimum=None, maximum=None, utc=False, **params):
+        params.pop('timezone', None)
         super(DateTime, self).__init__(**params)
         if utc:
             self.timezone = UTC
-- 
2.43.0


From 59f95e584af4dbb187fe24a3984036c17896bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 14/61] fix: correct the misspelled interpolator argument of
 unions

---
 scheme/fields/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 8de3215..95daec9 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -84,7 +84,7 @@ class Union(Field):
 
         for field in self.fields:
             try:
-                return field.interpolate(subject, parameters, interpolater)
+                return field.interpolate(subject, parameters, interpolator)
             except CannotInterpolateError:
                 pass
             except AttributeError:
-- 
2.43.0


From fda7a7a6fcce42f219e12467476c658fc64d4c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 15/61] fix: accept a schema in the urlencoded format like
 every other format

---
 scheme/formats/urlencoded.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/urlencoded.py b/scheme/formats/urlencoded.py
index eec97cd..dc8f419 100644
--- a/scheme/formats/urlencoded.py
+++ b/scheme/formats/urlencoded.py
@@ -18,7 +18,7 @@ class UrlEncoded(StructuredText):
     name = 'urlencoded'
 
     @classmethod
-    def serialize(cls, content):
+    def serialize(cls, content, schema=None):
         if not isinstance(content, dict):
             raise ValueError(content)
 
@@ -29,7 +29,7 @@ class UrlEncoded(StructuredText):
         return urlencode(data)
 
     @classmethod
-    def unserialize(cls, content):
+    def unserialize(cls, content, schema=None):
         if not isinstance(content, string):
             raise ValueError(content)
 
-- 
2.43.0


From 3fc962105e656113134aa737391b88f8755c0d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 16/61] fix: merge the remaining fields after one that is
 already present

---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index b6d7532..d79a941 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -351,7 +351,7 @@ class Structure(Field):
             if not isinstance(field, Field):
                 raise TypeError("values of argument 'structure' must be Field instances")
             if name in self.structure and not prefer:
-                return
+                continue
             if field.name != name:
                 field = field.clone(name=name)
             self.structure[name] = field
-- 
2.43.0


From 04eee71e7420e65bd009693958a79bc17f1079e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 17/61] fix: pass the all flag to the value field when
 filtering a map

---
 scheme/fields/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 08d973d..a7ba82e 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -123,7 +123,7 @@ class Map(Field):
         if not super(Map, self).filter(all, **params):
             return None
 
-        value = self.value.filter(self.value, **params)
+        value = self.value.filter(all, **params)
         if value is self.value:
             return self
         elif value:
-- 
2.43.0


From e2ec2df9de82d45bfe0fc62641a9514ad6cee104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 18/61] fix: pass the all flag to the member fields when
 filtering a structure

---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index d79a941..df4333f 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -520,7 +520,7 @@ class Structure(Field):
         candidates = {}
 
         for name, field in structure.items():
-            candidate = field.filter(all, **params)
+            candidate = field.filter(exclusive, **params)
             if candidate:
                 candidates[name] = candidate
                 if candidate is not field:
-- 
2.43.0


From 9d2ff8ffa742f366d125ec4c59638d5fb427a10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 19/61] fix: filter structures none of whose fields pass,
 without touching the original

---
 scheme/fields/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index df4333f..ecd565b 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -233,14 +233,14 @@ class Structure(Field):
             structure = {}
             for identity, substructure in self.structure.items():
                 candidate = self._filter_structure(substructure, all, params)
-                if candidate:
+                if candidate is not None:
                     structure[identity] = candidate
                     filtered = True
                 else:
-                    structure[identity] = substructure
+                    structure[identity] = substructure.copy()
         else:
             structure = self._filter_structure(self.structure, all, params)
-            if structure:
+            if structure is not None:
                 filtered = True
 
         if filtered:
-- 
2.43.0


From 76a06a98b3145d7ed368533509dcb72bf2200736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 20/61] fix: transform the variants of polymorphic structures

---
 scheme/fields/structure.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index ecd565b..f7cb880 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -486,18 +486,21 @@ class Structure(Field):
             return self
 
         transformed = False
-        candidates = {}
-
-        for name, field in self.structure.items():
-            candidate = field.transform(transformer)
-            if candidate is not field:
-                candidates[name] = candidate
+        if self.polymorphic_on:
+            structure = {}
+            for identity, substructure in self.structure.items():
+                structure[identity] = self._transform_structure(substructure, transformer)
+                if structure[identity] is not None:
+                    transformed = True
+                else:
+                    structure[identity] = substructure.copy()
+        else:
+            structure = self._transform_structure(self.structure, transformer)
+            if structure is not None:
                 transformed = True
-            else:
-                candidates[name] = field
 
         if transformed:
-            return self.clone(structure=candidates)
+            return self.clone(structure=structure)
         else:
             return self
 
@@ -572,6 +575,21 @@ class Structure(Field):
             if not field.name:
                 field.name = name
 
+    def _transform_structure(self, structure, transformer):
+        transformed = False
+        candidates = {}
+
+        for name, field in structure.items():
+            candidate = field.transform(transformer)
+            if candidate is not field:
+                candidates[name] = candidate
+                transformed = True
+            else:
+                candidates[name] = field
+
+        if transformed:
+            return candidates
+
     @classmethod
     def _visit_field(cls, specification, callback):
         def visit(structure):
-- 
2.43.0


From 835380d8797d11d5a6f6a2c71e42560acef820e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 21/61] fix: leave the specification intact when reconstructing
 a field

---
 scheme/field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scheme/field.py b/scheme/field.py
index 57588dc..ec0f3cc 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -67,6 +67,7 @@ class FieldMeta(type):
             fieldtype, specification = specification, params
         else:
             try:
+                specification = dict(specification)
                 fieldtype = specification.pop('fieldtype')
             except Exception:
                 raise ValueError("argument 'specification' must be a dict value properly"
-- 
2.43.0


From 1392d4ae07ffe5b4449c8a3a7162fead76a923fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 22/61] fix: format errors whose offending value is a tuple

---
 scheme/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index 026b1dd..1a37f01 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -144,7 +144,7 @@ class StructuralError(SchemeError):
             if definition.show_field:
                 lines.append('Field: %r' % field)
             if definition.show_value and self.value is not None:
-                lines.append('Value: %r' % self.value)
+                lines.append('Value: %r' % (self.value,))
 
             if self.tracebacks:
                 lines.append('Captured tracebacks:')
-- 
2.43.0


From 0c7bba9f2ae8efa6b8fa00ec987262f8ab16ebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 23/61] fix: record the offending value of booleans given to
 integer fields

---
 scheme/fields/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/integer.py b/scheme/fields/integer.py
index bbbdf08..9465781 100644
--- a/scheme/fields/integer.py
+++ b/scheme/fields/integer.py
@@ -45,7 +45,7 @@ class Integer(Field):
 
     def _unserialize_value(self, value, ancestry):
         if value is True or value is False:
-            raise InvalidTypeError(identity=ancestry, field=self, valid=value).construct('invalid')
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         try:
             return int(value)
-- 
2.43.0


From d84f944ec8dabc35f3f92c2970a063775bf7280d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 24/61] fix: refuse to extract or interpolate values without a
 polymorphic identity

---
 scheme/fields/structure.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index f7cb880..ae087c2 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -201,7 +201,11 @@ class Structure(Field):
         else:
             raise CannotExtractError('extraction candidate must be a dict value')
 
-        definition = self._get_definition(subject, getter)
+        try:
+            definition = self._get_definition(subject, getter)
+        except (AttributeError, KeyError, TypeError):
+            raise CannotExtractError('extraction candidate must have a polymorphic identity')
+
         extraction = {}
 
         for name, field in definition.items():
@@ -316,7 +320,11 @@ class Structure(Field):
         if not isinstance(subject, dict):
             raise CannotInterpolateError('interpolation candidate must be a dict value')
 
-        definition = self._get_definition(subject)
+        try:
+            definition = self._get_definition(subject)
+        except (KeyError, TypeError):
+            raise CannotInterpolateError('interpolation candidate must have a polymorphic identity')
+
         interpolation = {}
 
         for name, field in definition.items():
@@ -546,9 +554,8 @@ class Structure(Field):
         return default
 
     def _get_definition(self, value, getter=getitem):
-        identity = self._get_polymorphic_identity(value, getter)
-        if identity:
-            return self.structure[identity]
+        if self.polymorphic_on:
+            return self.structure[self._get_polymorphic_identity(value, getter)]
         else:
             return self.structure
 
-- 
2.43.0


From 352c678555c413571cb425f8ea097c6ed26d4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 25/61] fix: apply the key order of polymorphic structures

---
 scheme/fields/structure.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index ae087c2..9675a21 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -404,10 +404,9 @@ class Structure(Field):
 
         if self.key_order:
             structure = OrderedDict()
-            if identity:
-                key_order = self.key_order[identity]
-            else:
-                key_order = self.key_order
+            key_order = self.key_order
+            if polymorphic_on:
+                key_order = [name for name in key_order if name in definition]
         else:
             structure = {}
             key_order = definition.keys()
-- 
2.43.0


From 9ad8b14f2eb220fbd25d9c600fe572169fbb5aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 26/61] fix: look up polymorphic variants by the native value
 of the identity

---
 scheme/fields/structure.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 9675a21..feaa3cf 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -394,10 +394,13 @@ class Structure(Field):
                 raise ValidationError(identity=ancestry, field=self).construct('required',
                     name=polymorphic_on.name)
 
-            identity = polymorphic_on.process(identity, phase, serialized,
+            identity = polymorphic_on.process(identity, phase, serialized and phase == INBOUND,
                 ancestry + ['.' + polymorphic_on.name])
 
-            definition = self.structure.get(identity)
+            try:
+                definition = self.structure.get(identity)
+            except TypeError:
+                definition = None
             if not definition:
                 raise ValidationError(identity=ancestry, field=self,
                     value=identity).construct('unrecognized')
-- 
2.43.0


From 075340d368bf8a06244c8af5c2d1faced1aab495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 27/61] fix: report undefined fields of structures whose keys
 are absent

---
 scheme/fields/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index feaa3cf..e09a0db 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -421,6 +421,8 @@ class Structure(Field):
                 field_value = value[name]
             elif partial:
                 continue
+            elif isinstance(field, Undefined):
+                raise UndefinedFieldError("the %r field of this structure is undefined" % name)
             elif phase == INBOUND and field.default is not None:
                 field_value = field.default
             elif field.required:
-- 
2.43.0


From 8a72c3ff3014dcfeedcbebad996de38be5462973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 28/61] fix: allow structures to be defined in terms of
 themselves

---
 scheme/fields/structure.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index e09a0db..0cd4821 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -518,10 +518,12 @@ class Structure(Field):
 
     def _define_undefined_field(self, field, name):
         identity, name = name
+        if not field.name:
+            field.name = name
         if self.polymorphic_on:
-            self.structure[identity][name] = field.clone(name=name)
+            self.structure[identity][name] = field
         else:
-            self.structure[name] = field.clone(name=name)
+            self.structure[name] = field
 
     def _describe_structure(self, structure, parameters, verbose):
         description = {}
-- 
2.43.0


From 1b0fb65f850edda0613da35b08200db6949d929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 29/61] fix: report failing preprocessors of sequences, tuples
 and maps as validation errors

---
 scheme/fields/map.py      | 9 ++++++++-
 scheme/fields/sequence.py | 9 ++++++++-
 scheme/fields/tuple.py    | 9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index a7ba82e..a351845 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -186,7 +186,14 @@ class Map(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
+            if not isinstance(value, dict):
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid')
 
         valid = True
         key_field = self.key
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index 92f9d32..95c4dd5 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -173,7 +173,14 @@ class Sequence(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
+            if not isinstance(value, list):
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid')
 
         min_length = self.min_length
         if min_length is not None and len(value) < min_length:
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 48d2a90..e5ae8ab 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -169,7 +169,14 @@ class Tuple(Field):
         if not isinstance(value, (list, tuple)):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
+            if not isinstance(value, (list, tuple)):
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid')
 
         values = self.values
         if len(value) != len(values):
-- 
2.43.0


From 5723664008999645af0f272c6fb112bd41b6bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 30/61] fix: report structure preprocessors which do not return
 a dict as validation errors

---
 scheme/fields/structure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 0cd4821..5a5a675 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -380,6 +380,9 @@ class Structure(Field):
             except Exception:
                 raise InvalidTypeError(identity=ancestry, field=self,
                     value=value).construct('invalid').capture()
+            if not isinstance(value, dict):
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid')
 
         valid = True
         names = set(value.keys())
-- 
2.43.0


From 0b43f66907412cc6af9f262904b52c0d84e5b752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 31/61] fix: unserialize errors which only have a structure

---
 scheme/exceptions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index 1a37f01..4d8ebc7 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -128,7 +128,9 @@ class StructuralError(SchemeError):
     @classmethod
     def unserialize(cls, value):
         errors, structure = value
-        return cls(*errors, **{'structure': structure})
+        error = cls(*(errors or ()), **{'structure': structure})
+        error._serialized_errors = (errors, structure)
+        return error
 
     def _format_errors(self, errors):
         field = self.field
-- 
2.43.0


From 58d93f3ae5d9f95c519b2ffc409cc044fb1b3810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 32/61] fix: report malformed serialized errors as invalid
 values

---
 scheme/fields/error.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/error.py b/scheme/fields/error.py
index 31787b9..8d32917 100644
--- a/scheme/fields/error.py
+++ b/scheme/fields/error.py
@@ -19,7 +19,11 @@ class Error(Field):
         if isinstance(value, StructuralError):
             return value
         elif isinstance(value, tuple) and len(value) == 2:
-            return StructuralError.unserialize(value)
+            try:
+                return StructuralError.unserialize(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid')
         else:
             raise InvalidTypeError(identity=ancestry, field=self,
                 value=value).construct('invalid')
-- 
2.43.0


From 2a8d505c25174474f1cbf9c84b6d8f965278ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 33/61] fix: report failing extractors of unions as extraction
 errors

---
 scheme/fields/union.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 95daec9..a953551 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -58,7 +58,10 @@ class Union(Field):
         if subject is None:
             return None
         if self.extractor:
-            subject = self.extractor(self, subject)
+            try:
+                subject = self.extractor(self, subject)
+            except Exception:
+                raise CannotExtractError('extractor raised exception')
 
         for field in self.fields:
             try:
-- 
2.43.0


From b7210f80065854b8f99818cc51a7c49903cc274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 34/61] fix: refuse to extract or interpolate tuples which are
 too short

---
 scheme/fields/tuple.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index e5ae8ab..afc764e 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -80,6 +80,8 @@ class Tuple(Field):
 
         if not isinstance(subject, (list, tuple)):
             raise CannotExtractError('extraction candidate must be a list or tuple value')
+        if len(subject) < len(self.values):
+            raise CannotExtractError('extraction candidate has too few values')
 
         extraction = []
         for i, definition in enumerate(self.values):
@@ -147,6 +149,8 @@ class Tuple(Field):
 
         if not isinstance(subject, (list, tuple)):
             raise CannotInterpolateError('interpolation candidate must be a list or tuple')
+        if len(subject) < len(self.values):
+            raise CannotInterpolateError('interpolation candidate has too few values')
 
         interpolation = []
         for i, definition in enumerate(self.values):
-- 
2.43.0


From 832da6c8d863053a35a410877a88d3bd9fc531ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 35/61] fix: locate errors raised while serializing a value

---
 scheme/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index ec0f3cc..06b8c7a 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -477,6 +477,9 @@ class Field(object):
                 value = self._serialize_value(value)
             except OverflowError:
                 raise ValidationError(identity=ancestry, field=self, value=value).construct('overflow')
+            except StructuralError as exception:
+                exception.identity = ancestry
+                raise
 
         return value
 
-- 
2.43.0


From 06197ea06764a39c63a3569c30fd9417fd86f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 36/61] fix: describe the segments of token fields

---
 scheme/fields/token.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scheme/fields/token.py b/scheme/fields/token.py
index ff9c97c..d13d745 100644
--- a/scheme/fields/token.py
+++ b/scheme/fields/token.py
@@ -11,6 +11,7 @@ class Token(Field):
     """A field for token values."""
 
     basetype = 'token'
+    parameters = {'segments': None}
     pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*\Z')
 
     errors = [
-- 
2.43.0


From 3f2ab2478b19135312f9163be59908925b3fff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 37/61] fix: describe the ignored values of enumerations

---
 scheme/fields/enumeration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 96f5e85..325cb9b 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -9,7 +9,7 @@ class Enumeration(Field):
     """A field for enumerated values."""
 
     basetype = 'enumeration'
-    parameters = {'enumeration': None}
+    parameters = {'enumeration': None, 'ignored_values': None}
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be one of %(values)s')
-- 
2.43.0


From a62042b96fb501cc8966666f41ae96c358f808ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 38/61] fix: describe the key order of structures

---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 5a5a675..e655865 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -50,7 +50,7 @@ class Structure(Field):
     """
 
     basetype = 'structure'
-    parameters = {'strict': True}
+    parameters = {'key_order': None, 'strict': True}
     structural = True
 
     errors = [
-- 
2.43.0


From 2f10c213fc9638fd20bef04b8521b0501bda3810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 39/61] fix: describe empty defaults of structural fields

---
 scheme/fields/map.py       | 2 +-
 scheme/fields/sequence.py  | 2 +-
 scheme/fields/structure.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index a351845..133caee 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -76,7 +76,7 @@ class Map(Field):
 
     def describe(self, parameters=None, verbose=False):
         default = None
-        if self.default:
+        if self.default is not None:
             default = {}
             for key, value in self.default.items():
                 default[key] = self.value.process(value, OUTBOUND, True)
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index 95c4dd5..bece5a6 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -72,7 +72,7 @@ class Sequence(Field):
 
     def describe(self, parameters=None, verbose=False):
         default = None
-        if self.default:
+        if self.default is not None:
             default = [self.item.process(value, OUTBOUND, True) for value in self.default]
 
         return super(Sequence, self).describe(parameters, verbose,
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index e655865..2a66bbe 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -159,7 +159,7 @@ class Structure(Field):
             structure = self._describe_structure(self.structure, parameters, verbose)
 
         default = None
-        if self.default:
+        if self.default is not None:
             default = {}
             for name, value in self.default.items():
                 default[name] = default_structure[name]._serialize_value(value)
-- 
2.43.0


From 83c04e70fd78b712a515860f1c665d0a8eea9499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 40/61] fix: give times in the local timezone no offset instead
 of failing

---
 scheme/timezone.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scheme/timezone.py b/scheme/timezone.py
index 000e173..784d5e9 100644
--- a/scheme/timezone.py
+++ b/scheme/timezone.py
@@ -52,7 +52,9 @@ class LocalTimezone(tzinfo):
         return 'LocalTimezone()'
 
     def dst(self, value):
-        if self._isdst(value):
+        if value is None:
+            return None
+        elif self._isdst(value):
             return DST_DIFF
         else:
             return ZERO
@@ -61,7 +63,9 @@ class LocalTimezone(tzinfo):
         return time.tzname[self._isdst(value)]
 
     def utcoffset(self, value):
-        if self._isdst(value):
+        if value is None:
+            return None
+        elif self._isdst(value):
             return DST_OFFSET
         else:
             return STD_OFFSET
-- 
2.43.0


From 7cb338f0d6a437bcd0d9a61f3eddd43e5b427cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 41/61] fix: report preprocessor and constant failures of
 enumerations as validation errors

---
 scheme/field.py              | 10 ++++++++--
 scheme/fields/enumeration.py |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/scheme/field.py b/scheme/field.py
index 06b8c7a..7d8185f 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -460,10 +460,11 @@ class Field(object):
                 value = self.preprocessor(value)
             except Exception:
                 raise InvalidTypeError(identity=ancestry, field=self,
-                    value=value).construct('invalid').capture()
+                    value=value).construct('invalid', **self._invalid_params()).capture()
 
         if self.constant is not None and value != self.constant:
-            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct(
+                'invalid', **self._invalid_params())
 
         try:
             candidate = self._validate_value(value, ancestry)
@@ -580,6 +581,11 @@ class Field(object):
         else:
             raise CannotDescribeError(parameter)
 
+    def _invalid_params(self):
+        """Returns the parameters the message of this field's 'invalid' error refers to."""
+
+        return {}
+
     def _is_null(self, value, ancestry):
         if value is None:
             if self.nonnull:
diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 325cb9b..8076297 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -66,6 +66,9 @@ class Enumeration(Field):
         self.enumeration = list(set(baseline + enumeration))
         self.representation = ', '.join([repr(value) for value in self.enumeration])
 
+    def _invalid_params(self):
+        return {'values': self.representation}
+
     def _is_null(self, value, ancestry):
         ignored_values = self.ignored_values
         if ignored_values and value in ignored_values:
@@ -76,4 +79,4 @@ class Enumeration(Field):
     def _validate_value(self, value, ancestry):
         if value not in self.enumeration:
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid',
-                values=self.representation)
+                **self._invalid_params())
-- 
2.43.0


From 8488d96a2769a375d3b7e53997bb3ae6afbc9719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 42/61] fix: report datetimes that cannot be converted to the
 field's timezone as an overflow

---
 scheme/fields/datetime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 3a12616..e19d7ae 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -75,7 +75,10 @@ class DateTime(Field):
             if value.tzinfo is timezone:
                 return value
             else:
-                return value.astimezone(timezone)
+                try:
+                    return value.astimezone(timezone)
+                except ValueError:
+                    raise OverflowError(value)
         else:
             return value.replace(tzinfo=timezone)
 
-- 
2.43.0


From e4903e934af70ec7a5cf9c5f35024e1869bc23ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 43/61] fix: repr of fields with a tuple as default

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index 7d8185f..6fb0ca9 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -223,7 +223,7 @@ class Field(object):
         if self.constant:
             aspects.append('constant=True')
         if self.default is not None:
-            aspects.append('default=%r' % self.default)
+            aspects.append('default=%r' % (self.default,))
         if self.nonnull:
             aspects.append('nonnull=True')
         if self.required:
-- 
2.43.0


From 422905b72bb5e255ef091d53c4ba0be27f364fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 44/61] fix: repr of maps with required keys of several types

---
 scheme/fields/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 133caee..759befe 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -70,7 +70,7 @@ class Map(Field):
 
         aspects.append('value=%r' % self.value)
         if self.required_keys:
-            aspects.append('required_keys=%r' % sorted(self.required_keys))
+            aspects.append('required_keys=%r' % sorted(self.required_keys, key=repr))
         
         return super(Map, self).__repr__(aspects)
 
-- 
2.43.0


From 784bec8e48373b4fbae97955d61087abd910ecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 45/61] fix: treat values that cannot be compared as different
 from a constant or enumerated value

---
 scheme/field.py              |  8 +++++++-
 scheme/fields/enumeration.py | 10 ++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/scheme/field.py b/scheme/field.py
index 6fb0ca9..4a59ebb 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -462,7 +462,7 @@ class Field(object):
                 raise InvalidTypeError(identity=ancestry, field=self,
                     value=value).construct('invalid', **self._invalid_params()).capture()
 
-        if self.constant is not None and value != self.constant:
+        if self.constant is not None and not self._is_constant(value):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct(
                 'invalid', **self._invalid_params())
 
@@ -586,6 +586,12 @@ class Field(object):
 
         return {}
 
+    def _is_constant(self, value):
+        try:
+            return not (value != self.constant)
+        except Exception:
+            return False
+
     def _is_null(self, value, ancestry):
         if value is None:
             if self.nonnull:
diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 8076297..794570f 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -69,14 +69,20 @@ class Enumeration(Field):
     def _invalid_params(self):
         return {'values': self.representation}
 
+    def _is_member(self, value, values):
+        try:
+            return value in values
+        except Exception:
+            return False
+
     def _is_null(self, value, ancestry):
         ignored_values = self.ignored_values
-        if ignored_values and value in ignored_values:
+        if ignored_values and self._is_member(value, ignored_values):
             value = None
 
         return super(Enumeration, self)._is_null(value, ancestry)
 
     def _validate_value(self, value, ancestry):
-        if value not in self.enumeration:
+        if not self._is_member(value, self.enumeration):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid',
                 **self._invalid_params())
-- 
2.43.0


From 75d19a10cf4b380eecef7c75a291484b874aa6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:37 +0000
Subject: [PATCH 46/61] fix: describe the pattern of text fields

---
 scheme/fields/email.py | 3 +++
 scheme/fields/text.py  | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/scheme/fields/email.py b/scheme/fields/email.py
index 7f9c368..df66506 100644
--- a/scheme/fields/email.py
+++ b/scheme/fields/email.py
@@ -56,6 +56,9 @@ class Email(Text):
             aspects.append('extended=True')
         return super(Email, self).__repr__(aspects)
 
+    def describe(self, parameters=None, verbose=False):
+        return super(Text, self).describe(parameters, verbose)
+
     def preprocessor(self, value):
         if self.extended:
             return value
diff --git a/scheme/fields/text.py b/scheme/fields/text.py
index d15fb99..0a4b777 100644
--- a/scheme/fields/text.py
+++ b/scheme/fields/text.py
@@ -56,6 +56,13 @@ class Text(Field):
             aspects.append('strip=False')
         return super(Text, self).__repr__(aspects)
 
+    def describe(self, parameters=None, verbose=False):
+        params = {}
+        if self.pattern and self.pattern.flags == re.compile(self.pattern.pattern).flags:
+            params['pattern'] = self.pattern.pattern
+
+        return super(Text, self).describe(parameters, verbose, **params)
+
     def interpolate(self, subject, parameters, interpolator=None):
         if subject is None:
             return None
-- 
2.43.0


From 95a9d570fbdb5ebe980651920778d6a373829da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 47/61] fix: a key order that does not list exactly the
 declared keys

---
 scheme/fields/structure.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 2a66bbe..8cc5cb2 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -410,9 +410,8 @@ class Structure(Field):
 
         if self.key_order:
             structure = OrderedDict()
-            key_order = self.key_order
-            if polymorphic_on:
-                key_order = [name for name in key_order if name in definition]
+            key_order = [name for name in self.key_order if name in definition]
+            key_order.extend(name for name in definition if name not in self.key_order)
         else:
             structure = {}
             key_order = definition.keys()
-- 
2.43.0


From eab214a3990705fac11159b9a468e7ccfef548d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 48/61] fix: a polymorphic structure whose variants are not
 dicts raises TypeError

---
 scheme/fields/structure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 8cc5cb2..6ac9b92 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -70,6 +70,9 @@ class Structure(Field):
         if polymorphic_on:
             if '*' in structure:
                 common = structure.pop('*')
+                for value in [common] + list(structure.values()):
+                    if not isinstance(value, dict):
+                        raise TypeError("argument 'structure' must be a dict of dict values")
                 for value in structure.values():
                     value.update(common)
             if isinstance(polymorphic_on, string):
-- 
2.43.0


From 49f4f2a62bce7d3b2324a5ecf240225bf32786cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 49/61] fix: a datetime bound outside the representable range
 raises TypeError

---
 scheme/fields/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index e19d7ae..fdace9a 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -34,14 +34,14 @@ class DateTime(Field):
         if maximum is not None:
             try:
                 maximum = self._normalize_value(self._unserialize_value(maximum))
-            except InvalidTypeError:
+            except (InvalidTypeError, OverflowError):
                 raise TypeError("argument 'maximum' must be either None, a datetime.datetime,"
                     " or a string in the format 'YYYY-MM-DDTHH:MM:SSZ'")
 
         if minimum is not None:
             try:
                 minimum = self._normalize_value(self._unserialize_value(minimum))
-            except InvalidTypeError:
+            except (InvalidTypeError, OverflowError):
                 raise TypeError("argument 'minimum' must be either None, a datetime.datetime,"
                     " or a string in the format 'YYYY-MM-DDTHH:MM:SSZ'")
 
-- 
2.43.0


From 68a2109b9c0e98d1fb258871a1678d5efea10d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 50/61] fix: describing a structure whose default holds nulls
 or undeclared keys

---
 scheme/fields/structure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 6ac9b92..cd5476b 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -165,7 +165,10 @@ class Structure(Field):
         if self.default is not None:
             default = {}
             for name, value in self.default.items():
-                default[name] = default_structure[name]._serialize_value(value)
+                if name in default_structure:
+                    if value is not None:
+                        value = default_structure[name]._serialize_value(value)
+                    default[name] = value
 
         return super(Structure, self).describe(parameters, verbose, default=default,
             polymorphic_on=polymorphic_on, structure=structure)
-- 
2.43.0


From 54b31a9d05be7219b7abb523bf6f72ae6d9f4c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:11 +0000
Subject: [PATCH 51/61] fix: serialize an enumeration value that equals a
 member as that member

---
 scheme/fields/enumeration.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 794570f..7eb3855 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -82,6 +82,14 @@ class Enumeration(Field):
 
         return super(Enumeration, self)._is_null(value, ancestry)
 
+    def _serialize_value(self, value):
+        # a value equal to a member of the enumeration need not be natively serializable itself
+        if not isinstance(value, NATIVELY_SERIALIZABLE):
+            for member in self.enumeration:
+                if member == value:
+                    return member
+        return value
+
     def _validate_value(self, value, ancestry):
         if not self._is_member(value, self.enumeration):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid',
-- 
2.43.0


From 6cfe8f1f2e7ffffbd5e11cd8de9f799e9a76c20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:39 +0000
Subject: [PATCH 52/61] fix: refuse a text pattern that is not a regular
 expression

---
 scheme/fields/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/text.py b/scheme/fields/text.py
index 0a4b777..7ede25c 100644
--- a/scheme/fields/text.py
+++ b/scheme/fields/text.py
@@ -33,7 +33,10 @@ class Text(Field):
 
         super(Text, self).__init__(**params)
         if isinstance(pattern, string):
-            pattern = re.compile(pattern)
+            try:
+                pattern = re.compile(pattern)
+            except (re.error, OverflowError):
+                raise TypeError("argument 'pattern' must be either None or a valid regular expression")
 
         if not (min_length is None or (isinstance(min_length, int) and min_length >= 0)):
             raise TypeError("argument 'min_length' must be either None or an integer >= 0")
-- 
2.43.0


From b0146731c616d6bbf98a7a77656096bf4e4eb93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:45 +0000
Subject: [PATCH 53/61] fix: rebuild structures with a member named fieldtype

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index 4a59ebb..44e5bc7 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -552,7 +552,7 @@ class Field(object):
     @classmethod
     def _construct_parameter(cls, parameter):
         if isinstance(parameter, dict):
-            if 'fieldtype' in parameter:
+            if isinstance(parameter.get('fieldtype'), string):
                 return Field.reconstruct(parameter)
             else:
                 return dict((k, cls._construct_parameter(v)) for k, v in parameter.items())
-- 
2.43.0


From 5b34ee1b8c2e5bf366908dd5a0b306a0a35bf555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:32 +0000
Subject: [PATCH 54/61] fix: read the empty element that XML writes for an
 empty text as an empty text

---
 scheme/formats/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index f250867..4e96a8f 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -97,4 +97,4 @@ class Xml(Format):
         elif field.type == 'union':
             raise NotImplementedError()
         else:
-            return attr, element.text
+            return attr, element.text or ''
-- 
2.43.0


From 4e40678de710585d827ee4738ac04193a22b0906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:32 +0000
Subject: [PATCH 55/61] fix: write binary values to XML as their base64 text

---
 scheme/formats/xml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index 4e96a8f..2a09908 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -70,6 +70,8 @@ class Xml(Format):
                     cls._serialize_content(value, subelement, subfield)
         elif field.type == 'union':
             raise NotImplementedError()
+        elif isinstance(content, bytes):
+            element.text = content.decode('ascii')
         else:
             element.text = str(content)
 
@@ -96,5 +98,7 @@ class Xml(Format):
                 for i, v in enumerate(element))
         elif field.type == 'union':
             raise NotImplementedError()
+        elif field.type == 'binary':
+            return attr, (element.text or '').encode('ascii')
         else:
             return attr, element.text or ''
-- 
2.43.0


From 43e26f5b13935663275a5752503dfaf005870ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:32 +0000
Subject: [PATCH 56/61] fix: read CSV cells that contain line breaks

---
 scheme/formats/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index bcfe3e2..dff306a 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -89,7 +89,7 @@ class Csv(Format):
         if not isinstance(structure, Structure):
             raise TypeError(structure)
 
-        reader = Reader(value.strip('\r\n').split('\r\n'), cls.Dialect)
+        reader = Reader(StringIO(value.strip('\r\n')), cls.Dialect)
         columns = next(reader)
 
         cells = []
-- 
2.43.0


From 1f665ff34d3905d59c1611e1b9d45ce8a076cad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:32 +0000
Subject: [PATCH 57/61] fix: do not print the cells of CSV documents being read

---
 scheme/formats/csv.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index dff306a..c31ba98 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -113,7 +113,6 @@ class Csv(Format):
             for i, column, converter in cells:
                 value = row[i]
                 if value:
-                    print(value)
                     if converter:
                         candidate[column] = converter(value)
                     else:
-- 
2.43.0


From ce00f20f8bd1a977628c725b9740a2ff5b96ad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:32 +0000
Subject: [PATCH 58/61] fix: write binary values to CSV as their base64 text

---
 scheme/formats/csv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index c31ba98..29a22d2 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -73,6 +73,8 @@ class Csv(Format):
                         row.append('true')
                     else:
                         row.append('false')
+                elif isinstance(candidate, bytes):
+                    row.append(candidate.decode('ascii'))
                 else:
                     row.append(str(candidate))
             else:
@@ -102,6 +104,8 @@ class Csv(Format):
                     cells.append((i, column, float))
                 elif field.type == 'integer':
                     cells.append((i, column, int))
+                elif field.type == 'binary':
+                    cells.append((i, column, lambda v: v.encode('ascii')))
                 else:
                     cells.append((i, column, None))
             else:
-- 
2.43.0


From 8fd58199c178e08ca4c6751cad02d1c511e73436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:32 +0000
Subject: [PATCH 59/61] fix: name surrogate classes under Python 3

---
 scheme/surrogate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index f2175a0..a6d769e 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -1,7 +1,7 @@
 from copy import deepcopy
 
 import scheme
-from scheme.util import identify_object, import_object, string
+from scheme.util import identify_object, import_object, string, with_metaclass
 
 __all__ = ('surrogate',)
 
@@ -11,6 +11,7 @@ class SurrogateMeta(type):
         cls.surrogate = identify_object(cls)
         return cls
 
+@with_metaclass(SurrogateMeta)
 class surrogate(dict):
     """A schema-based object surrogate.
 
@@ -25,7 +26,6 @@ class surrogate(dict):
     :param integer version: Optional, default is ``None``; the schema version of this surrogate.
     """
 
-    __metaclass__ = SurrogateMeta
     cache = {}
     schemas = None
 
-- 
2.43.0


From 57a7bb244b5f8ac0290a3ff29ce35a3bb9910179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:32 +0000
Subject: [PATCH 60/61] fix: validate and unserialize surrogates given to
 surrogate fields

---
 scheme/fields/surrogate.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/surrogate.py b/scheme/fields/surrogate.py
index 3cd584d..2caafc7 100644
--- a/scheme/fields/surrogate.py
+++ b/scheme/fields/surrogate.py
@@ -15,7 +15,7 @@ class Surrogate(Field):
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a surrogate'),
-        FieldError('invalid-surrogate', 'invalid surrogate', '%(field)s must be one of %(surrogate)s'),
+        FieldError('invalid-surrogate', 'invalid surrogate', '%(field)s must be one of %(surrogates)s'),
     ]
 
     def __init__(self, valid_surrogates=None, **params):
@@ -50,10 +50,10 @@ class Surrogate(Field):
         return value.serialize()
 
     def _unserialize_value(self, value, ancestry):
-        if isinstance(value, dict):
-            return surrogate.unserialize(value, ancestry)
-        elif isinstance(value, surrogate):
+        if isinstance(value, surrogate):
             return value
+        elif isinstance(value, dict):
+            return surrogate.unserialize(value, ancestry)
         else:
             raise InvalidTypeError(identity=ancestry, field=self,
                 value=value).construct('invalid')
@@ -62,6 +62,6 @@ class Surrogate(Field):
         if not isinstance(value, surrogate):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-        if self.valid_surrogates and value.identity not in self.valid_surrogates:
+        if self.valid_surrogates and value.surrogate not in self.valid_surrogates:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'invalid-surrogate', surrogates=', '.join(sorted(self.valid_surrogates)))
-- 
2.43.0


From 5203d5f4b0206cbbc36ac11f89f86c0bc61f1b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:48 +0000
Subject: [PATCH 61/61] fix: an escaped bracket of structured text opens no
 structure

A string holding an opening bracket after an empty or nested structure, such
as [[], ']['], was written escaped but read back as the start of another
structure, which failed with KeyError or split the text in the wrong place.
---
 scheme/formats/structuredtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index c015ad9..7aeffde 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -10,7 +10,7 @@ class StructuredText(Format):
     name = 'structuredtext'
 
     STRUCTURE_EXPR = re.compile(
-        r'(?:\{((\\[\\\[\]\{\}])|[^\\{\[\]])*?\})|(?:\[((\\[\\\[\]\{\}])|[^\\{}\[])*?\])'
+        r'(?:(?<!\\)\{((\\[\\\[\]\{\}])|[^\\{\[\]])*?\})|(?:(?<!\\)\[((\\[\\\[\]\{\}])|[^\\{}\[])*?\])'
     )
     STRUCTURE_TOKENS_EXPR = re.compile(r'([{}\[\]])')
     ESCAPED_TOKENS_EXPR = re.compile(r'\\([{}\[\]])')
-- 
2.43.0

