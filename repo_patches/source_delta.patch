From 616019e8b3f3e7d78e19b0c1475a78d2f1bb1fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:45 +0000
Subject: [PATCH 01/27] fix: escape quotes inside of references

---
 sqlpuzzle/_backends/sql.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index 70bca71..9a91b41 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -39,7 +39,12 @@ class SqlBackend:
         """
         from sqlpuzzle._common.utils import force_text
         value = force_text(value)
-        parts = re.split(r'{quote}([^{quote}]+){quote}|\.'.format(quote=cls.reference_quote), value)
+        parts = re.split(r'{quote}((?:[^{quote}]|{quote}{quote})+){quote}|\.'.format(quote=cls.reference_quote), value)
+        # Only quoted parts (matched by the group, so with odd index) have quotes already doubled.
+        parts = (
+            i if index % 2 else i.replace(cls.reference_quote, cls.reference_quote * 2)
+            for index, i in enumerate(parts) if i
+        )
         parts = ('{quote}{i}{quote}'.format(quote=cls.reference_quote, i=i) if i != '*' else i for i in parts if i)
         return '.'.join(parts)
 
-- 
2.43.0


From e1fc7599b4208d7aabd57d8404b1f9fde4f4d59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:59 +0000
Subject: [PATCH 02/27] fix: value with whitespace around quoted reference is
 still the same reference

---
 sqlpuzzle/_common/sqlvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 9332a8b..c62ceca 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -84,7 +84,7 @@ class SqlValue(Object):
     def _string(self):
         # Sometimes, e.g. in subselect, is needed reference to column instead of self.value.
         if get_backend().is_reference(self.value):
-            return self._reference()
+            return get_backend().reference(self.value.strip())
         return "'{}'".format(_escape_value(force_text(self.value)))
 
     def _bytes(self):
-- 
2.43.0


From 0d633d3fdd9bc3327ed1a897580e283198de5986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:01 +0000
Subject: [PATCH 03/27] fix: escape strings according to used database

---
 sqlpuzzle/_backends/postgresql.py | 1 +
 sqlpuzzle/_backends/sql.py        | 3 +++
 sqlpuzzle/_backends/sqlite.py     | 1 +
 sqlpuzzle/_common/sqlvalue.py     | 7 ++++++-
 4 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_backends/postgresql.py b/sqlpuzzle/_backends/postgresql.py
index 1711ee3..a3b8676 100644
--- a/sqlpuzzle/_backends/postgresql.py
+++ b/sqlpuzzle/_backends/postgresql.py
@@ -8,6 +8,7 @@ __all__ = ('PostgreSqlBackend',)
 class PostgreSqlBackend(SqlBackend):
     name = 'PostgreSQL'
 
+    escape_string_prefix = 'E'
     supports_full_join = True
     supports_on_conflict_do_update = True
 
diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index 9a91b41..727779c 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -8,6 +8,9 @@ class SqlBackend:
     name = 'SQL'
 
     reference_quote = '"'
+    # Does database interpret backslash in strings? And does it need some prefix for such string?
+    supports_backslash_escapes = True
+    escape_string_prefix = ''
     supports_full_join = False
     supports_on_duplicate_key_update = False
     supports_on_conflict_do_update = False
diff --git a/sqlpuzzle/_backends/sqlite.py b/sqlpuzzle/_backends/sqlite.py
index 0b25b1a..94f71a7 100644
--- a/sqlpuzzle/_backends/sqlite.py
+++ b/sqlpuzzle/_backends/sqlite.py
@@ -6,4 +6,5 @@ __all__ = ('SqliteBackend',)
 class SqliteBackend(SqlBackend):
     name = 'SQLite'
 
+    supports_backslash_escapes = False
     supports_replace_into = True
diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index c62ceca..2038e54 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -16,6 +16,8 @@ def _escape_value(value):
         ("'", "''"),
         ("\n", "\\n"),
     )
+    if not get_backend().supports_backslash_escapes:
+        replace_table = (("'", "''"),)
     for old, new in replace_table:
         value = value.replace(old, new)
     return value
@@ -85,7 +87,10 @@ class SqlValue(Object):
         # Sometimes, e.g. in subselect, is needed reference to column instead of self.value.
         if get_backend().is_reference(self.value):
             return get_backend().reference(self.value.strip())
-        return "'{}'".format(_escape_value(force_text(self.value)))
+        value = "'{}'".format(_escape_value(force_text(self.value)))
+        if '\\' in value:
+            return get_backend().escape_string_prefix + value
+        return value
 
     def _bytes(self):
         return get_backend().bytes(self.value)
-- 
2.43.0


From a51e4c48eb6a4b4a342673338e25ec886b7b8f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:23 +0000
Subject: [PATCH 04/27] fix: do not ignore named arguments passed together with
 dictionary

---
 sqlpuzzle/_common/argsparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 98ca9c5..6daedf8 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -117,6 +117,8 @@ class Parser:
             if not self.options.allow_dict:
                 raise InvalidArgumentException('Dictionary or kwds is disabled.')
             self._parse_dictionary(self.input_data.dictionary_or_kwds)
+            if self.input_data.is_dictionary and self.input_data.is_kwds:
+                self._parse_dictionary(self.input_data.kwds)
 
     def _parse_dictionary(self, dictionary):
         for item in sorted(dictionary.items()):
-- 
2.43.0


From 1dc530fa48897036f1c93970c2d5cd717f09bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:25 +0000
Subject: [PATCH 05/27] fix: keep order of OrderedDict

---
 sqlpuzzle/_common/argsparser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 6daedf8..643577e 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -1,3 +1,5 @@
+from collections import OrderedDict
+
 from sqlpuzzle.exceptions import InvalidArgumentException
 
 __all__ = ('parse_args',)
@@ -121,7 +123,11 @@ class Parser:
                 self._parse_dictionary(self.input_data.kwds)
 
     def _parse_dictionary(self, dictionary):
-        for item in sorted(dictionary.items()):
+        if isinstance(dictionary, OrderedDict):
+            items = dictionary.items()
+        else:
+            items = sorted(dictionary.items())
+        for item in items:
             self._parse_item(item)
 
     def _parse_list(self, list_):
-- 
2.43.0


From d72bebf0e7326dd6770570ec32ab410d27d7dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:27 +0000
Subject: [PATCH 06/27] fix: reject tuples with too few items

---
 sqlpuzzle/_common/argsparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 643577e..055e9d7 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -146,6 +146,8 @@ class Parser:
     def _create_batch(self, values):
         if len(values) > self.options.max_items:
             raise InvalidArgumentException('Too many arguments.')
+        if len(values) < self.options.min_items:
+            raise InvalidArgumentException('Too few arguments.')
         return self._append_nones(tuple(values))
 
     def _append_nones(self, tuple_with_values):
-- 
2.43.0


From 52cfc72d188411f57cffd19e3aec16fd9ed4a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:29 +0000
Subject: [PATCH 07/27] fix: do not ignore named arguments passed together with
 Q objects

---
 sqlpuzzle/_queryparts/conditions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 8a7a494..9a1ae9d 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -109,9 +109,9 @@ class Conditions(BinaryOperationMixin, QueryParts):
         if args and all(isinstance(item, (Conditions, ConditionsOfConditions)) for item in args):
             for item in args:
                 self.append_unique_part(item)
-        else:
-            for column_name, value in parse_args(options, *args, **kwds):
-                self.append_unique_part(self._condition_class(column_name, value))
+            args = ()
+        for column_name, value in parse_args(options, *args, **kwds):
+            self.append_unique_part(self._condition_class(column_name, value))
 
         return self
 
-- 
2.43.0


From ce0cf1aff26bfd21308e2ec4a90b089538bbdc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:31 +0000
Subject: [PATCH 08/27] fix: join does not change passed dictionary

---
 sqlpuzzle/_queryparts/tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 7637d5a..8354acb 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -123,7 +123,7 @@ class Table(QueryPart):
         if isinstance(arg, (list, tuple)) and len(arg) == 2:
             table = Table(*arg)
         elif isinstance(arg, dict) and len(arg) == 1:
-            table = Table(*arg.popitem())
+            table = Table(*list(arg.items())[0])
         elif isinstance(arg, str):
             table = Table(arg)
         else:
-- 
2.43.0


From b1b39977f866c64c80f9ee8a34f16a4bb9da20f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:34 +0000
Subject: [PATCH 09/27] fix: rendering of query does not change its joins

---
 sqlpuzzle/_queryparts/tables.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 8354acb..dff193a 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -78,13 +78,12 @@ class Table(QueryPart):
             table = force_text(SqlReference(self.table_name))
 
         if self._joins:
-            self._minimize_joins()
             table += ' ' + ' '.join(
                 '{} {}{}'.format(
                     JOIN_TYPES[join['type']],
                     join['table'],
                     ' ON {}'.format(join['ons']) if join['ons'].is_set else '',
-                ) for join in self._joins
+                ) for join in self._minimize_joins()
             )
 
         return table
@@ -156,15 +155,15 @@ class Table(QueryPart):
             if append_new:
                 joins_group.append([join])
 
-        self._joins = []
+        minimized_joins = []
         for joins in joins_group:
             if len(joins) > 1 and any(bool(join['type'] == INNER_JOIN) for join in joins):
-                joins[0]['type'] = INNER_JOIN
-                self._joins.append(joins[0])
+                minimized_joins.append(dict(joins[0], type=INNER_JOIN))
             elif len(joins) > 1 and all(join['type'] == joins[0]['type'] for join in joins):
-                self._joins.append(joins[0])
+                minimized_joins.append(joins[0])
             else:
-                self._joins.extend(joins)
+                minimized_joins.extend(joins)
+        return minimized_joins
 
 
 class Tables(QueryParts):
-- 
2.43.0


From 39e204479e010ef40d6c75e54cdcfef3b6ef81b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:36 +0000
Subject: [PATCH 10/27] fix: value given as generator can be rendered
 repeatedly

---
 sqlpuzzle/_common/sqlvalue.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 2038e54..ffc6ece 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -61,7 +61,8 @@ class SqlValue(Object):
             Union: self._subselect,
         }
 
-        self.value = value
+        #  Generators give value only once.
+        self.value = list(value) if isinstance(value, types.GeneratorType) else value
 
     def __str__(self):
         convert_method = self._get_convert_method()
-- 
2.43.0


From f5511803807ddc9bba2e69c22540e06105d43db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:39 +0000
Subject: [PATCH 11/27] fix: do not split string passed to IN

---
 sqlpuzzle/relations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/relations.py b/sqlpuzzle/relations.py
index 0731a12..f1d1475 100644
--- a/sqlpuzzle/relations.py
+++ b/sqlpuzzle/relations.py
@@ -182,7 +182,8 @@ class IN(_RelationValue):
         try:
             #  Make list copy of value (if it is possible) because generators
             #+ give value only once.
-            value = list(value)
+            if not isinstance(value, (str, bytes)):
+                value = list(value)
         except TypeError:
             pass
         super().__init__(value)
-- 
2.43.0


From ab9cd0a4898a1605dc8d3420d9309fd5f6a87040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:41 +0000
Subject: [PATCH 12/27] fix: ON CONFLICT with different columns are not equal

---
 sqlpuzzle/_queryparts/onconflictdoupdate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sqlpuzzle/_queryparts/onconflictdoupdate.py b/sqlpuzzle/_queryparts/onconflictdoupdate.py
index 9e19617..7c8ea12 100644
--- a/sqlpuzzle/_queryparts/onconflictdoupdate.py
+++ b/sqlpuzzle/_queryparts/onconflictdoupdate.py
@@ -10,6 +10,13 @@ class OnConflictDoUpdate(Values):
         super().__init__(*args, **kwds)
         self._on_conflict = ''
 
+    def __eq__(self, other):
+        return (
+            type(self) == type(other) and
+            self._on_conflict == other._on_conflict and
+            super().__eq__(other)
+        )
+
     @property
     def _keyword_of_parts(self):
         return 'ON CONFLICT ({}) DO UPDATE'.format(self._on_conflict)
-- 
2.43.0


From cd608d817eafe6a285c67672c5e5496fcb2da222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:13 +0000
Subject: [PATCH 13/27] fix: do not mix up values of different types which are
 equal in Python

---
 sqlpuzzle/_common/__init__.py       |  2 +-
 sqlpuzzle/_common/utils.py          | 12 +++++++++++-
 sqlpuzzle/_queryparts/columns.py    |  6 +++---
 sqlpuzzle/_queryparts/conditions.py |  6 +++---
 sqlpuzzle/_queryparts/order.py      |  6 +++---
 sqlpuzzle/_queryparts/tables.py     | 10 +++++-----
 sqlpuzzle/_queryparts/values.py     |  6 +++---
 7 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/sqlpuzzle/_common/__init__.py b/sqlpuzzle/_common/__init__.py
index c23346c..c9d080b 100644
--- a/sqlpuzzle/_common/__init__.py
+++ b/sqlpuzzle/_common/__init__.py
@@ -2,4 +2,4 @@ from .argsparser import parse_args
 from .customsql import CustomSql
 from .object import Object
 from .sqlvalue import SqlValue, SqlReference
-from .utils import force_text, is_sql_instance, check_type_decorator
+from .utils import force_text, is_sql_instance, is_same, check_type_decorator
diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index 9a8275c..d6eb466 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -2,7 +2,7 @@ from functools import wraps
 
 from sqlpuzzle.exceptions import InvalidArgumentException
 
-__all__ = ('force_text', 'is_sql_instance', 'check_type_decorator')
+__all__ = ('force_text', 'is_sql_instance', 'is_same', 'check_type_decorator')
 
 
 def force_text(value):
@@ -15,6 +15,16 @@ def is_sql_instance(value):
     return hasattr(value, 'tosql')
 
 
+def is_same(value, other):
+    """
+    Is it the same for the database? In Python is for example ``1 == True`` or
+    ``'x' == C('x')``, but it is rendered differently.
+    """
+    if isinstance(value, (list, tuple)) and type(value) is type(other):
+        return len(value) == len(other) and all(is_same(v, o) for v, o in zip(value, other))
+    return type(value) is type(other) and value == other
+
+
 def check_type_decorator(allowed_types=()):
     def decorator(func):
         @wraps(func)
diff --git a/sqlpuzzle/_queryparts/columns.py b/sqlpuzzle/_queryparts/columns.py
index 1def7d5..961feae 100644
--- a/sqlpuzzle/_queryparts/columns.py
+++ b/sqlpuzzle/_queryparts/columns.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, is_same, check_type_decorator, parse_args
 from .queryparts import QueryPart, QueryParts
 
 __all__ = ('Column', 'Columns')
@@ -21,8 +21,8 @@ class Column(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.alias == other.alias
+            is_same(self.column_name, other.column_name) and
+            is_same(self.alias, other.alias)
         )
 
     @property
diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 9a1ae9d..eb5b97d 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -2,7 +2,7 @@ import datetime
 import decimal
 import types
 
-from sqlpuzzle._common import Object, SqlValue, SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import Object, SqlValue, SqlReference, is_same, check_type_decorator, parse_args
 from sqlpuzzle import relations
 from .functions import Function
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
@@ -52,8 +52,8 @@ class Condition(BinaryOperationMixin, QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.value == other.value and
+            is_same(self.column_name, other.column_name) and
+            is_same(self.value, other.value) and
             self.relation == other.relation
         )
 
diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index afac74f..40f1514 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, is_same, check_type_decorator, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts
 
@@ -26,7 +26,7 @@ class Order(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
+            is_same(self.column_name, other.column_name) and
             self.sort == other.sort
         )
 
@@ -72,6 +72,6 @@ class Orders(QueryParts):
 
     def _find_order_by_column_name(self, column_name):
         for order in self._parts:
-            if order.column_name == column_name:
+            if is_same(order.column_name, column_name):
                 return order
         return None
diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index dff193a..23c914f 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -1,6 +1,6 @@
 import sqlpuzzle
 from sqlpuzzle._backends import get_backend
-from sqlpuzzle._common import SqlValue, SqlReference, force_text, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlValue, SqlReference, force_text, is_same, check_type_decorator, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException, InvalidQueryException
 from .queryparts import QueryPart, QueryParts
 from .conditions import Condition, Conditions
@@ -47,8 +47,8 @@ class OnCondition(Condition):
         return (
             type(self) == type(other)
             and isinstance(self.value, str)
-            and self.value == other.column_name
-            and self.column_name == other.value
+            and is_same(self.value, other.column_name)
+            and is_same(self.column_name, other.value)
             and revert_relation == type(other.relation_instance)
         )
 
@@ -91,8 +91,8 @@ class Table(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.table_name == other.table_name and
-            self.alias == other.alias and
+            is_same(self.table_name, other.table_name) and
+            is_same(self.alias, other.alias) and
             self._joins == other._joins
         )
 
diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index c3bb2e0..7d12b43 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -1,7 +1,7 @@
 import datetime
 import decimal
 
-from sqlpuzzle._common import SqlValue, SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlValue, SqlReference, is_same, check_type_decorator, parse_args
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
 
 
@@ -20,8 +20,8 @@ class Value(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.value == other.value
+            is_same(self.column_name, other.column_name) and
+            is_same(self.value, other.value)
         )
 
     @property
-- 
2.43.0


From 6e0a9eec9208c2cee7be2b1a31bda731af618b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:15 +0000
Subject: [PATCH 14/27] fix: has() finds exactly passed value

---
 sqlpuzzle/_queryparts/queryparts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index 76f2ef8..9d0a493 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -21,7 +21,7 @@ def has(part, value):
     value = force_text(value)
     #  If I look for example for "distinct", I don't want to say "hey, there is
     #+ distinct!", if there is actually "distinctrow".
-    res = re.search(r'([^\w]|^){}([^\w]|$)'.format(value), str(part))
+    res = re.search(r'([^\w]|^){}([^\w]|$)'.format(re.escape(value)), str(part))
     return bool(res)
 
 
-- 
2.43.0


From 6b3cecc3fa5c3a38ad5ac7682de6cef57ac5c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:18 +0000
Subject: [PATCH 15/27] fix: empty Q object is not condition

---
 sqlpuzzle/_queryparts/conditions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index eb5b97d..f6f3857 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -115,6 +115,12 @@ class Conditions(BinaryOperationMixin, QueryParts):
 
         return self
 
+    def append_part(self, query_part):
+        # Empty `Q()` does not restrict anything, so there is nothing to render.
+        if isinstance(query_part, Conditions) and not query_part.is_set:
+            return
+        super().append_part(query_part)
+
 
 class ConditionsOfConditions(BinaryOperationMixin, Object):
     def __init__(self, left, right, type_):
-- 
2.43.0


From 59d952c2a993ac3c9f46141ed645829daca9be5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:21 +0000
Subject: [PATCH 16/27] fix: invalid type of order raises
 InvalidArgumentException

---
 sqlpuzzle/_queryparts/order.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index 40f1514..c924cd6 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, is_same, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, force_text, is_same, check_type_decorator, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts
 
@@ -48,7 +48,7 @@ class Order(QueryPart):
     def sort(self, sort):
         if sort is None:
             sort = ASC
-        sort = sort.upper()
+        sort = force_text(sort).upper()
         if sort not in (ASC, DESC):
             raise InvalidArgumentException('Type of order can be only {} or {}.'.format(ASC, DESC))
         self._sort = sort
-- 
2.43.0


From a83fa4f7c3465fcc1f1388f55bceacfea20614e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:25 +0000
Subject: [PATCH 17/27] fix: do not ignore empty separator of GROUP_CONCAT

---
 sqlpuzzle/_queryparts/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index aeb6591..a2f5858 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -131,7 +131,7 @@ class GroupConcat(Concat):
         return ''
 
     def _str_separator(self):
-        if self._separator:
+        if self._separator is not None:
             return ' SEPARATOR %s' % SqlValue(self._separator)
         return ''
 
-- 
2.43.0


From 17a9f878a4e4321172e9ed1a632cc97f0a0e53d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:27 +0000
Subject: [PATCH 18/27] fix: CONCAT keeps all its arguments

---
 sqlpuzzle/_queryparts/functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index a2f5858..3665e8f 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -98,8 +98,12 @@ class Concat(Function):
 
     # pylint: disable=super-init-not-called
     def __init__(self, *expr):
-        self._columns = Columns().columns(*expr)
-        if not self._columns.is_set:
+        self._columns = Columns()
+        # Same argument can be used more than once.
+        for columns in (Columns().columns(e) for e in expr):
+            for column in columns._parts:
+                self._columns.append_part(column)
+        if not self._columns.count_of_parts:
             raise InvalidArgumentException('You must specify columns for %s.' % self._function_name)
 
     def __str__(self):
-- 
2.43.0


From 62dc0aedb5c1b6ca6c482625c4996e0607db863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:30 +0000
Subject: [PATCH 19/27] fix: unsupported types of values raise
 InvalidArgumentException

---
 sqlpuzzle/_common/sqlvalue.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index ffc6ece..4cf6447 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -124,10 +124,7 @@ class SqlValue(Object):
         return 'NULL'
 
     def _undefined(self):
-        try:
-            return '<undefined value {}>'.format(self.value)
-        except Exception:  # pylint: disable=broad-except
-            return '<undefined value>'
+        raise InvalidArgumentException('Value cannot be of type {}.'.format(type(self.value)))
 
     def _reference(self):
         return get_backend().reference(self.value)
-- 
2.43.0


From e5d65fa5ad1858d848f7e99f84c1df80a20ef630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:33 +0000
Subject: [PATCH 20/27] fix: use brackets for operands of UNION when it is
 needed

---
 sqlpuzzle/_queries/union.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queries/union.py b/sqlpuzzle/_queries/union.py
index 4904004..cfe1ae1 100644
--- a/sqlpuzzle/_queries/union.py
+++ b/sqlpuzzle/_queries/union.py
@@ -32,11 +32,25 @@ class Union(Query):
 
     def __str__(self):
         return '{} {} {}'.format(
-            self.query1,
+            self._format_query(self.query1),
             self.union_type,
-            self.query2,
+            self._format_query(self.query2, is_right=True),
         )
 
+    def _format_query(self, query, is_right=False):
+        needs_brackets = (
+            # Unions are evaluated from left, so mixed union on the right would be evaluated differently.
+            is_right and isinstance(query, Union) and query._get_union_types() != {self.union_type}
+            # Otherwise it would belong to the whole union.
+            or isinstance(query, Query) and (query.has('order_by') or query.has('limit'))
+        )
+        return '({})'.format(query) if needs_brackets else str(query)
+
+    def _get_union_types(self):
+        return {self.union_type}.union(*(
+            query._get_union_types() for query in (self.query1, self.query2) if isinstance(query, Union)
+        ))
+
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-- 
2.43.0


From 88a901471e7b54dcdb8ff782b2fe61d57c8a7890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:17 +0000
Subject: [PATCH 21/27] fix: quoted asterisk is name of column

---
 sqlpuzzle/_backends/sql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index 727779c..6093fec 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -45,10 +45,13 @@ class SqlBackend:
         parts = re.split(r'{quote}((?:[^{quote}]|{quote}{quote})+){quote}|\.'.format(quote=cls.reference_quote), value)
         # Only quoted parts (matched by the group, so with odd index) have quotes already doubled.
         parts = (
-            i if index % 2 else i.replace(cls.reference_quote, cls.reference_quote * 2)
+            (i, True) if index % 2 else (i.replace(cls.reference_quote, cls.reference_quote * 2), False)
             for index, i in enumerate(parts) if i
         )
-        parts = ('{quote}{i}{quote}'.format(quote=cls.reference_quote, i=i) if i != '*' else i for i in parts if i)
+        parts = (
+            '{quote}{i}{quote}'.format(quote=cls.reference_quote, i=i) if quoted or i != '*' else i
+            for i, quoted in parts
+        )
         return '.'.join(parts)
 
     @classmethod
-- 
2.43.0


From 5b42f989a893787cf2abc03bbb7188e02e4779c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:25 +0000
Subject: [PATCH 22/27] fix: union can be used as key of dictionary

---
 sqlpuzzle/_queries/union.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlpuzzle/_queries/union.py b/sqlpuzzle/_queries/union.py
index cfe1ae1..259aa72 100644
--- a/sqlpuzzle/_queries/union.py
+++ b/sqlpuzzle/_queries/union.py
@@ -59,6 +59,9 @@ class Union(Query):
             self.union_type == other.union_type
         )
 
+    # Defined `__eq__` would make it unhashable.
+    __hash__ = Query.__hash__
+
     def __and__(self, other):
         """
         Returns :py:class:`sqlpuzzle._queries.union.Union` instance, ``UNION ALL``.
-- 
2.43.0


From dd7ae6410d1078c43d9c91ec5afcfbc63290f871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:13 +0000
Subject: [PATCH 23/27] fix: refused call does not change query

---
 sqlpuzzle/_queryparts/columns.py            |  4 ++--
 sqlpuzzle/_queryparts/conditions.py         |  8 +++++---
 sqlpuzzle/_queryparts/limit.py              |  2 +-
 sqlpuzzle/_queryparts/onconflictdoupdate.py |  3 ++-
 sqlpuzzle/_queryparts/order.py              | 10 +++++-----
 sqlpuzzle/_queryparts/tables.py             |  5 +++--
 sqlpuzzle/_queryparts/values.py             |  5 +++--
 7 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/sqlpuzzle/_queryparts/columns.py b/sqlpuzzle/_queryparts/columns.py
index 961feae..de52123 100644
--- a/sqlpuzzle/_queryparts/columns.py
+++ b/sqlpuzzle/_queryparts/columns.py
@@ -52,8 +52,8 @@ class Columns(QueryParts):
             'max_items': 2,
             'allow_dict': True,
         }
-        for column_name, alias in parse_args(options, *args, **kwds):
-            column = Column(column_name, alias)
+        columns = [Column(column_name, alias) for column_name, alias in parse_args(options, *args, **kwds)]
+        for column in columns:
             if column not in self:
                 self.append_part(column)
 
diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index f6f3857..a05336c 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -106,12 +106,14 @@ class Conditions(BinaryOperationMixin, QueryParts):
             'allow_dict': True,
             'allow_list': True,
         }
+        conditions = []
         if args and all(isinstance(item, (Conditions, ConditionsOfConditions)) for item in args):
-            for item in args:
-                self.append_unique_part(item)
+            conditions.extend(args)
             args = ()
         for column_name, value in parse_args(options, *args, **kwds):
-            self.append_unique_part(self._condition_class(column_name, value))
+            conditions.append(self._condition_class(column_name, value))
+        for condition in conditions:
+            self.append_unique_part(condition)
 
         return self
 
diff --git a/sqlpuzzle/_queryparts/limit.py b/sqlpuzzle/_queryparts/limit.py
index 04e43d9..034fbc8 100644
--- a/sqlpuzzle/_queryparts/limit.py
+++ b/sqlpuzzle/_queryparts/limit.py
@@ -37,9 +37,9 @@ class Limit(QueryPart):
             self._limit = None
             self._offset = None
         else:
-            self._limit = int(limit)
             if offset is not None:
                 self.offset(offset)
+            self._limit = int(limit)
         return self
 
     @check_type_decorator((type(None), int))
diff --git a/sqlpuzzle/_queryparts/onconflictdoupdate.py b/sqlpuzzle/_queryparts/onconflictdoupdate.py
index 7c8ea12..9469167 100644
--- a/sqlpuzzle/_queryparts/onconflictdoupdate.py
+++ b/sqlpuzzle/_queryparts/onconflictdoupdate.py
@@ -23,10 +23,11 @@ class OnConflictDoUpdate(Values):
 
     def set(self, *args, **kwds):
         if args and isinstance(args[0], str):
-            self._on_conflict = SqlReference(args[0])
+            on_conflict = SqlReference(args[0])
             args = args[1:]
         else:
             raise InvalidQueryException(
                 'ON CONFLICT (column_name) DO UPDATE needs reference to column as first argument'
             )
         super().set(*args, **kwds)
+        self._on_conflict = on_conflict
diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index c924cd6..f4aba73 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -60,13 +60,13 @@ class Orders(QueryParts):
             'max_items': 2,
             'allow_dict': True,
         }
-        for column_name, sort in parse_args(options, *args, **kwds):
-            order = self._find_order_by_column_name(column_name)
+        orders = [Order(column_name, sort) for column_name, sort in parse_args(options, *args, **kwds)]
+        for new_order in orders:
+            order = self._find_order_by_column_name(new_order.column_name)
             if order is None:
-                order = Order(column_name, sort)
-                self.append_part(order)
+                self.append_part(new_order)
             else:
-                order.sort = sort
+                order.sort = new_order.sort
 
         return self
 
diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 23c914f..715c102 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -174,8 +174,9 @@ class Tables(QueryParts):
             'max_items': 2,
             'allow_dict': True,
         }
-        for table_name, as_ in parse_args(options, *args, **kwds):
-            self.append_unique_part(Table(table_name, as_))
+        tables = [Table(table_name, as_) for table_name, as_ in parse_args(options, *args, **kwds)]
+        for table in tables:
+            self.append_unique_part(table)
 
         return self
 
diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index 7d12b43..38e8e53 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -52,8 +52,9 @@ class Values(QueryParts):
             'allow_dict': True,
             'allow_list': True,
         }
-        for column_name, value in parse_args(options, *args, **kwds):
-            self.append_unique_part(Value(column_name, value))
+        values = [Value(column_name, value) for column_name, value in parse_args(options, *args, **kwds)]
+        for value in values:
+            self.append_unique_part(value)
 
         return self
 
-- 
2.43.0


From 68e568d5aaa6b2f99dc4e1066ac8d5717ef92192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:16 +0000
Subject: [PATCH 24/27] fix: column named options can be passed as named
 argument

---
 sqlpuzzle/_common/argsparser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 055e9d7..d9a69b7 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -5,10 +5,10 @@ from sqlpuzzle.exceptions import InvalidArgumentException
 __all__ = ('parse_args',)
 
 
-# pylint: disable=dangerous-default-value,keyword-arg-before-vararg
-def parse_args(options={}, *args, **kwds):
+def parse_args(*args, **kwds):
     """
-    Parser of arguments.
+    Parser of arguments. First argument is dictionary with options of parser (it
+    is not named, so name of column can be also `options`), rest are arguments to parse.
 
     dict options {
         int min_items: Min of required items to fold one tuple. (default: 1)
@@ -36,8 +36,8 @@ def parse_args(options={}, *args, **kwds):
         {key1: val1, key2: val2} => ((key1, val1, None), (key2, val2, None))
         (arg1a, arg1b), arg2a, arg2b => FAIL
     """
-    parser_options = ParserOptions(options)
-    parser_input = ParserInput(args, kwds)
+    parser_options = ParserOptions(args[0] if args else {})
+    parser_input = ParserInput(args[1:], kwds)
 
     parser = Parser(parser_options, parser_input)
     parser.parse()
-- 
2.43.0


From 737fe08c1f8094ba375548291bc96d83978f8de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:38 +0000
Subject: [PATCH 25/27] fix: has of FOR UPDATE looks into the clause, not at
 attributes of the object

---
 sqlpuzzle/_queries/selectoptions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queries/selectoptions.py b/sqlpuzzle/_queries/selectoptions.py
index d0f9d99..4de61c6 100644
--- a/sqlpuzzle/_queries/selectoptions.py
+++ b/sqlpuzzle/_queries/selectoptions.py
@@ -1,5 +1,6 @@
-from sqlpuzzle._common import Object
+from sqlpuzzle._common import Object, force_text
 from sqlpuzzle._queries.options import Options
+from sqlpuzzle._queryparts.queryparts import has
 
 __all__ = ()
 
@@ -98,7 +99,7 @@ class SelectForUpdate(Object):
         return self._for_update
 
     def has(self, value):
-        return hasattr(self, value)
+        return has(self, force_text(value).upper().replace('_', ' '))
 
     def for_update(self, allow=True):
         self._for_update = bool(allow)
-- 
2.43.0


From 97e865a9625b8fe9c3a85c5ec0ea62abd3ca7203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:10 +0000
Subject: [PATCH 26/27] fix: false value of unsupported type is refused as
 table

---
 sqlpuzzle/_queryparts/tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 715c102..e86061a 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -168,7 +168,7 @@ class Table(QueryPart):
 
 class Tables(QueryParts):
     def set(self, *args, **kwds):
-        args = [arg for arg in args if arg]
+        args = [arg for arg in args if arg or not isinstance(arg, (type(None), str, list, tuple, dict))]
 
         options = {
             'max_items': 2,
-- 
2.43.0


From e2b08c8177dceb0351c30f5f0f1eeb8c021caa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:12 +0000
Subject: [PATCH 27/27] fix: unsupported offset is refused also with limit None

---
 sqlpuzzle/_queryparts/limit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/limit.py b/sqlpuzzle/_queryparts/limit.py
index 034fbc8..d1d0283 100644
--- a/sqlpuzzle/_queryparts/limit.py
+++ b/sqlpuzzle/_queryparts/limit.py
@@ -33,12 +33,12 @@ class Limit(QueryPart):
 
     @check_type_decorator((type(None), int))
     def limit(self, limit, offset=None):
+        if offset is not None:
+            self.offset(offset)
         if limit is None:
             self._limit = None
             self._offset = None
         else:
-            if offset is not None:
-                self.offset(offset)
             self._limit = int(limit)
         return self
 
-- 
2.43.0

