From 52a1caf945e573323ea6117a645cc75a7a43b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:15 +0000
Subject: [PATCH 01/28] fix: escape quote characters inside of references

Name with quote character was able to end the quoted reference early and a
doubled quote in a quoted reference was split into two references.
---
 sqlpuzzle/_backends/sql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index 70bca71..9566fd1 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -39,8 +39,11 @@ class SqlBackend:
         """
         from sqlpuzzle._common.utils import force_text
         value = force_text(value)
-        parts = re.split(r'{quote}([^{quote}]+){quote}|\.'.format(quote=cls.reference_quote), value)
-        parts = ('{quote}{i}{quote}'.format(quote=cls.reference_quote, i=i) if i != '*' else i for i in parts if i)
+        quote = cls.reference_quote
+        parts = re.split(r'{quote}((?:[^{quote}]|{quote}{quote})+){quote}|\.'.format(quote=quote), value)
+        # Odd items are already quoted parts (or None for dot), quotes in the others have to be doubled.
+        parts = (i if pos % 2 or not i else i.replace(quote, quote * 2) for pos, i in enumerate(parts))
+        parts = ('{quote}{i}{quote}'.format(quote=quote, i=i) if i != '*' else i for i in parts if i)
         return '.'.join(parts)
 
     @classmethod
-- 
2.43.0


From 5ea574e61f1172d797eab04dcc4ef91253e85d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:17 +0000
Subject: [PATCH 02/28] fix: ignore whitespace around reference used as value

Reference with spaces around was recognized but rendered with the spaces as
extra identifiers.
---
 sqlpuzzle/_common/sqlvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 9332a8b..c62ceca 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -84,7 +84,7 @@ class SqlValue(Object):
     def _string(self):
         # Sometimes, e.g. in subselect, is needed reference to column instead of self.value.
         if get_backend().is_reference(self.value):
-            return self._reference()
+            return get_backend().reference(self.value.strip())
         return "'{}'".format(_escape_value(force_text(self.value)))
 
     def _bytes(self):
-- 
2.43.0


From 55b61e796fa1ca8f93e46b301b612c4544e25cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:19 +0000
Subject: [PATCH 03/28] fix: escape strings by rules of SQLite and PostgreSQL

Backslash escapes are not interpreted in SQLite at all and in PostgreSQL only
in literals with prefix E, so strings with backslash or new line were changed
by passing them to those databases.
---
 sqlpuzzle/_backends/postgresql.py | 1 +
 sqlpuzzle/_backends/sql.py        | 2 ++
 sqlpuzzle/_backends/sqlite.py     | 1 +
 sqlpuzzle/_common/sqlvalue.py     | 9 ++++++---
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/_backends/postgresql.py b/sqlpuzzle/_backends/postgresql.py
index 1711ee3..8e70144 100644
--- a/sqlpuzzle/_backends/postgresql.py
+++ b/sqlpuzzle/_backends/postgresql.py
@@ -10,6 +10,7 @@ class PostgreSqlBackend(SqlBackend):
 
     supports_full_join = True
     supports_on_conflict_do_update = True
+    backslash_escapes_prefix = 'E'
 
     @classmethod
     def boolean(cls, value):
diff --git a/sqlpuzzle/_backends/sql.py b/sqlpuzzle/_backends/sql.py
index 9566fd1..b1a3c7a 100644
--- a/sqlpuzzle/_backends/sql.py
+++ b/sqlpuzzle/_backends/sql.py
@@ -12,6 +12,8 @@ class SqlBackend:
     supports_on_duplicate_key_update = False
     supports_on_conflict_do_update = False
     supports_replace_into = False
+    supports_backslash_escapes = True
+    backslash_escapes_prefix = ''
 
     @classmethod
     def boolean(cls, value):
diff --git a/sqlpuzzle/_backends/sqlite.py b/sqlpuzzle/_backends/sqlite.py
index 0b25b1a..4c78464 100644
--- a/sqlpuzzle/_backends/sqlite.py
+++ b/sqlpuzzle/_backends/sqlite.py
@@ -7,3 +7,4 @@ class SqliteBackend(SqlBackend):
     name = 'SQLite'
 
     supports_replace_into = True
+    supports_backslash_escapes = False
diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index c62ceca..05aaf09 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -10,14 +10,15 @@ from .utils import force_text, is_sql_instance
 __all__ = ('SqlValue', 'SqlReference')
 
 
-def _escape_value(value):
+def _escape_value(value, backslash_escapes=True):
     replace_table = (
         ("\\", "\\\\"),
         ("'", "''"),
         ("\n", "\\n"),
     )
     for old, new in replace_table:
-        value = value.replace(old, new)
+        if backslash_escapes or '\\' not in new:
+            value = value.replace(old, new)
     return value
 
 
@@ -85,7 +86,9 @@ class SqlValue(Object):
         # Sometimes, e.g. in subselect, is needed reference to column instead of self.value.
         if get_backend().is_reference(self.value):
             return get_backend().reference(self.value.strip())
-        return "'{}'".format(_escape_value(force_text(self.value)))
+        backend = get_backend()
+        value = _escape_value(force_text(self.value), backend.supports_backslash_escapes)
+        return "{}'{}'".format(backend.backslash_escapes_prefix if '\\' in value else '', value)
 
     def _bytes(self):
         return get_backend().bytes(self.value)
-- 
2.43.0


From f4dd03df81400535930acde9294b10134c789b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:21 +0000
Subject: [PATCH 04/28] fix: do not change joins by rendering

Joins were minimized in place during rendering, so condition added after the
query was (for example) logged was applied to different join.
---
 sqlpuzzle/_queryparts/tables.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 7637d5a..0653ad3 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -78,13 +78,12 @@ class Table(QueryPart):
             table = force_text(SqlReference(self.table_name))
 
         if self._joins:
-            self._minimize_joins()
             table += ' ' + ' '.join(
                 '{} {}{}'.format(
                     JOIN_TYPES[join['type']],
                     join['table'],
                     ' ON {}'.format(join['ons']) if join['ons'].is_set else '',
-                ) for join in self._joins
+                ) for join in self._minimize_joins()
             )
 
         return table
@@ -156,15 +155,15 @@ class Table(QueryPart):
             if append_new:
                 joins_group.append([join])
 
-        self._joins = []
+        minimized_joins = []
         for joins in joins_group:
             if len(joins) > 1 and any(bool(join['type'] == INNER_JOIN) for join in joins):
-                joins[0]['type'] = INNER_JOIN
-                self._joins.append(joins[0])
+                minimized_joins.append(dict(joins[0], type=INNER_JOIN))
             elif len(joins) > 1 and all(join['type'] == joins[0]['type'] for join in joins):
-                self._joins.append(joins[0])
+                minimized_joins.append(joins[0])
             else:
-                self._joins.extend(joins)
+                minimized_joins.extend(joins)
+        return minimized_joins
 
 
 class Tables(QueryParts):
-- 
2.43.0


From 8dd2b8e87509ba62699c9f9560ccfbb56ce2298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:23 +0000
Subject: [PATCH 05/28] fix: do not remove item from dictionary passed to join

---
 sqlpuzzle/_queryparts/tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index 0653ad3..b44a54a 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -122,7 +122,7 @@ class Table(QueryPart):
         if isinstance(arg, (list, tuple)) and len(arg) == 2:
             table = Table(*arg)
         elif isinstance(arg, dict) and len(arg) == 1:
-            table = Table(*arg.popitem())
+            table = Table(*next(iter(arg.items())))
         elif isinstance(arg, str):
             table = Table(arg)
         else:
-- 
2.43.0


From a128b732202850f187b65c100719c7c4d41438c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:25 +0000
Subject: [PATCH 06/28] fix: render sqlvalue with generator more than once

---
 sqlpuzzle/_common/sqlvalue.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/sqlvalue.py b/sqlpuzzle/_common/sqlvalue.py
index 05aaf09..585dc07 100644
--- a/sqlpuzzle/_common/sqlvalue.py
+++ b/sqlpuzzle/_common/sqlvalue.py
@@ -60,7 +60,8 @@ class SqlValue(Object):
             Union: self._subselect,
         }
 
-        self.value = value
+        #  Generators give value only once.
+        self.value = list(value) if isinstance(value, types.GeneratorType) else value
 
     def __str__(self):
         convert_method = self._get_convert_method()
-- 
2.43.0


From 48ae0fed7da7c9cdefbe12944eebe0157948619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:27 +0000
Subject: [PATCH 07/28] fix: do not ignore named arguments passed together with
 dictionary

For example where({'a': 1}, b=2) lost condition for b.
---
 sqlpuzzle/_common/argsparser.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 98ca9c5..8710417 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -65,14 +65,6 @@ class ParserInput:
             return self.args[0]
         return []
 
-    @property
-    def dictionary_or_kwds(self):
-        if self.is_dictionary:
-            return self.args[0]
-        if self.is_kwds:
-            return self.kwds
-        return {}
-
     @property
     def is_list(self):
         return len(self.args) == 1 and isinstance(self.args[0], (list, tuple))
@@ -116,7 +108,9 @@ class Parser:
         if self.input_data.is_dictionary or self.input_data.is_kwds:
             if not self.options.allow_dict:
                 raise InvalidArgumentException('Dictionary or kwds is disabled.')
-            self._parse_dictionary(self.input_data.dictionary_or_kwds)
+            if self.input_data.is_dictionary:
+                self._parse_dictionary(self.input_data.args[0])
+            self._parse_dictionary(self.input_data.kwds)
 
     def _parse_dictionary(self, dictionary):
         for item in sorted(dictionary.items()):
-- 
2.43.0


From e49c76f98c728c91ba4f1396ab2f43f69eb8aef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:29 +0000
Subject: [PATCH 08/28] fix: keep order of OrderedDict

Documentation says to use OrderedDict when order matters, but it was sorted as
any other dictionary.
---
 sqlpuzzle/_common/argsparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 8710417..ad20bf6 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -1,3 +1,5 @@
+from collections import OrderedDict
+
 from sqlpuzzle.exceptions import InvalidArgumentException
 
 __all__ = ('parse_args',)
@@ -113,7 +115,8 @@ class Parser:
             self._parse_dictionary(self.input_data.kwds)
 
     def _parse_dictionary(self, dictionary):
-        for item in sorted(dictionary.items()):
+        items = dictionary.items()
+        for item in items if isinstance(dictionary, OrderedDict) else sorted(items):
             self._parse_item(item)
 
     def _parse_list(self, list_):
-- 
2.43.0


From 126cac58360bb49280742f78a80aaeefa794f434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:31 +0000
Subject: [PATCH 09/28] fix: check minimum of items also in tuples and lists

For example where([('a',)]) was rendered as a IS NULL.
---
 sqlpuzzle/_common/argsparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index ad20bf6..4c75c55 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -133,6 +133,8 @@ class Parser:
         self.output_data.append(batch)
 
     def _create_batch(self, values):
+        if len(values) < self.options.min_items:
+            raise InvalidArgumentException('Too few arguments.')
         if len(values) > self.options.max_items:
             raise InvalidArgumentException('Too many arguments.')
         return self._append_nones(tuple(values))
-- 
2.43.0


From d88005ae56dc5405ff11f6c2545a75774c0e563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:33 +0000
Subject: [PATCH 10/28] fix: render also empty separator of GROUP_CONCAT

---
 sqlpuzzle/_queryparts/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index aeb6591..a2f5858 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -131,7 +131,7 @@ class GroupConcat(Concat):
         return ''
 
     def _str_separator(self):
-        if self._separator:
+        if self._separator is not None:
             return ' SEPARATOR %s' % SqlValue(self._separator)
         return ''
 
-- 
2.43.0


From 8070b6e8eb87707969059bad4fe483503ff52d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:35 +0000
Subject: [PATCH 11/28] fix: keep repeated expressions of CONCAT and
 GROUP_CONCAT

Same expressions (for example separators) were rendered only once and missing
expression was rendered as star.
---
 sqlpuzzle/_queryparts/functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queryparts/functions.py b/sqlpuzzle/_queryparts/functions.py
index a2f5858..bc42f58 100644
--- a/sqlpuzzle/_queryparts/functions.py
+++ b/sqlpuzzle/_queryparts/functions.py
@@ -98,8 +98,12 @@ class Concat(Function):
 
     # pylint: disable=super-init-not-called
     def __init__(self, *expr):
-        self._columns = Columns().columns(*expr)
-        if not self._columns.is_set:
+        self._columns = Columns()
+        for item in expr:
+            # One by one, because columns are unique, but parts of concatenation not.
+            for column in Columns().columns(item)._parts:
+                self._columns.append_part(column)
+        if not self._columns.count_of_parts:
             raise InvalidArgumentException('You must specify columns for %s.' % self._function_name)
 
     def __str__(self):
-- 
2.43.0


From 1e8c2f3e368103358768255a9f88d7cba3d5f6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:37 +0000
Subject: [PATCH 12/28] fix: has looks for exact text, not for regular
 expression

---
 sqlpuzzle/_queryparts/queryparts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index 76f2ef8..1a2a0d3 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -18,7 +18,7 @@ def append_custom_sql_decorator(func):
 
 
 def has(part, value):
-    value = force_text(value)
+    value = re.escape(force_text(value))
     #  If I look for example for "distinct", I don't want to say "hey, there is
     #+ distinct!", if there is actually "distinctrow".
     res = re.search(r'([^\w]|^){}([^\w]|$)'.format(value), str(part))
-- 
2.43.0


From 2dd8ecde4109f3ec6b69fa8781414cccc236bcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:39 +0000
Subject: [PATCH 13/28] fix: union is hashable as other queries

So it can be used as key of dictionary, for example for table with alias.
---
 sqlpuzzle/_queries/union.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sqlpuzzle/_queries/union.py b/sqlpuzzle/_queries/union.py
index 4904004..314e8c5 100644
--- a/sqlpuzzle/_queries/union.py
+++ b/sqlpuzzle/_queries/union.py
@@ -45,6 +45,8 @@ class Union(Query):
             self.union_type == other.union_type
         )
 
+    __hash__ = Query.__hash__
+
     def __and__(self, other):
         """
         Returns :py:class:`sqlpuzzle._queries.union.Union` instance, ``UNION ALL``.
-- 
2.43.0


From 12e8904e25fe28cb0c01a5bf2c9534ba51557594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:41 +0000
Subject: [PATCH 14/28] fix: number as type of order is invalid argument

---
 sqlpuzzle/_queryparts/order.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index afac74f..2f96b09 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -44,7 +44,7 @@ class Order(QueryPart):
         return self._sort
 
     @sort.setter
-    @check_type_decorator((str, int, type(None)))
+    @check_type_decorator((str, type(None)))
     def sort(self, sort):
         if sort is None:
             sort = ASC
-- 
2.43.0


From bf30c19550f9fd108243dcfaf7c79c8360256574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:37 +0000
Subject: [PATCH 15/28] fix: do not handle custom SQL as duplicate of string
 with same text

For example where('a', customsql('b')).where('a', 'b') lost the second
condition, though one compares with column and the other with string.
---
 sqlpuzzle/_common/__init__.py       |  2 +-
 sqlpuzzle/_common/object.py         | 13 ++++++++++++-
 sqlpuzzle/_queryparts/columns.py    |  6 +++---
 sqlpuzzle/_queryparts/conditions.py |  6 +++---
 sqlpuzzle/_queryparts/order.py      |  6 +++---
 sqlpuzzle/_queryparts/tables.py     | 10 +++++-----
 sqlpuzzle/_queryparts/values.py     |  6 +++---
 7 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/sqlpuzzle/_common/__init__.py b/sqlpuzzle/_common/__init__.py
index c23346c..cd38734 100644
--- a/sqlpuzzle/_common/__init__.py
+++ b/sqlpuzzle/_common/__init__.py
@@ -1,5 +1,5 @@
 from .argsparser import parse_args
 from .customsql import CustomSql
-from .object import Object
+from .object import Object, is_same
 from .sqlvalue import SqlValue, SqlReference
 from .utils import force_text, is_sql_instance, check_type_decorator
diff --git a/sqlpuzzle/_common/object.py b/sqlpuzzle/_common/object.py
index 27405bf..6de4d5b 100644
--- a/sqlpuzzle/_common/object.py
+++ b/sqlpuzzle/_common/object.py
@@ -1,7 +1,18 @@
 import copy
 from functools import total_ordering
 
-__all__ = ('Object',)
+__all__ = ('Object', 'is_same')
+
+
+def is_same(first, second):
+    """
+    Objects can be compared with simple strings (see `Object.__eq__`), but
+    in the query is for example custom SQL something else than the string
+    (value or reference) with same text.
+    """
+    if isinstance(first, list) and isinstance(second, list):
+        return len(first) == len(second) and all(is_same(f, s) for f, s in zip(first, second))
+    return isinstance(first, Object) == isinstance(second, Object) and first == second
 
 
 @total_ordering
diff --git a/sqlpuzzle/_queryparts/columns.py b/sqlpuzzle/_queryparts/columns.py
index 1def7d5..70d102e 100644
--- a/sqlpuzzle/_queryparts/columns.py
+++ b/sqlpuzzle/_queryparts/columns.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, check_type_decorator, is_same, parse_args
 from .queryparts import QueryPart, QueryParts
 
 __all__ = ('Column', 'Columns')
@@ -21,8 +21,8 @@ class Column(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.alias == other.alias
+            is_same(self.column_name, other.column_name) and
+            is_same(self.alias, other.alias)
         )
 
     @property
diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index 8a7a494..e185b1b 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -2,7 +2,7 @@ import datetime
 import decimal
 import types
 
-from sqlpuzzle._common import Object, SqlValue, SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import Object, SqlValue, SqlReference, check_type_decorator, is_same, parse_args
 from sqlpuzzle import relations
 from .functions import Function
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
@@ -52,8 +52,8 @@ class Condition(BinaryOperationMixin, QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.value == other.value and
+            is_same(self.column_name, other.column_name) and
+            is_same(self.value, other.value) and
             self.relation == other.relation
         )
 
diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index 2f96b09..998c09a 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -1,4 +1,4 @@
-from sqlpuzzle._common import SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlReference, check_type_decorator, is_same, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts
 
@@ -26,7 +26,7 @@ class Order(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
+            is_same(self.column_name, other.column_name) and
             self.sort == other.sort
         )
 
@@ -72,6 +72,6 @@ class Orders(QueryParts):
 
     def _find_order_by_column_name(self, column_name):
         for order in self._parts:
-            if order.column_name == column_name:
+            if is_same(order.column_name, column_name):
                 return order
         return None
diff --git a/sqlpuzzle/_queryparts/tables.py b/sqlpuzzle/_queryparts/tables.py
index b44a54a..4594f14 100644
--- a/sqlpuzzle/_queryparts/tables.py
+++ b/sqlpuzzle/_queryparts/tables.py
@@ -1,6 +1,6 @@
 import sqlpuzzle
 from sqlpuzzle._backends import get_backend
-from sqlpuzzle._common import SqlValue, SqlReference, force_text, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlValue, SqlReference, force_text, check_type_decorator, is_same, parse_args
 from sqlpuzzle.exceptions import InvalidArgumentException, InvalidQueryException
 from .queryparts import QueryPart, QueryParts
 from .conditions import Condition, Conditions
@@ -47,8 +47,8 @@ class OnCondition(Condition):
         return (
             type(self) == type(other)
             and isinstance(self.value, str)
-            and self.value == other.column_name
-            and self.column_name == other.value
+            and is_same(self.value, other.column_name)
+            and is_same(self.column_name, other.value)
             and revert_relation == type(other.relation_instance)
         )
 
@@ -91,8 +91,8 @@ class Table(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.table_name == other.table_name and
-            self.alias == other.alias and
+            is_same(self.table_name, other.table_name) and
+            is_same(self.alias, other.alias) and
             self._joins == other._joins
         )
 
diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index c3bb2e0..69a56cd 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -1,7 +1,7 @@
 import datetime
 import decimal
 
-from sqlpuzzle._common import SqlValue, SqlReference, check_type_decorator, parse_args
+from sqlpuzzle._common import SqlValue, SqlReference, check_type_decorator, is_same, parse_args
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
 
 
@@ -20,8 +20,8 @@ class Value(QueryPart):
     def __eq__(self, other):
         return (
             type(self) == type(other) and
-            self.column_name == other.column_name and
-            self.value == other.value
+            is_same(self.column_name, other.column_name) and
+            is_same(self.value, other.value)
         )
 
     @property
-- 
2.43.0


From cc4127e778ae8b9ca892bb2e8f30d0af9b6cf927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:39 +0000
Subject: [PATCH 16/28] fix: ignore empty Q objects

They rendered nothing into the query but their operators, and delete or update
with only empty Q object was rendered without confirmation.
---
 sqlpuzzle/_queryparts/conditions.py | 15 +++++++++++++++
 sqlpuzzle/_queryparts/queryparts.py |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index e185b1b..f020016 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -115,6 +115,11 @@ class Conditions(BinaryOperationMixin, QueryParts):
 
         return self
 
+    @property
+    def is_set(self):
+        # Empty Q object is not condition.
+        return any(getattr(part, 'is_set', True) for part in self._parts)
+
 
 class ConditionsOfConditions(BinaryOperationMixin, Object):
     def __init__(self, left, right, type_):
@@ -123,6 +128,8 @@ class ConditionsOfConditions(BinaryOperationMixin, Object):
         self.type = type_
 
     def __str__(self):
+        if not self.left.is_set or not self.right.is_set:
+            return str(self.left if self.left.is_set else self.right)
         template = '('
         template += '({})' if self._needs_brackets(self.left) else '{}'
         template += ' {} '
@@ -130,6 +137,10 @@ class ConditionsOfConditions(BinaryOperationMixin, Object):
         template += ')'
         return template.format(self.left, self.type, self.right)
 
+    @property
+    def is_set(self):
+        return self.left.is_set or self.right.is_set
+
     @staticmethod
     def _needs_brackets(value):
         return isinstance(value, QueryParts) and value.count_of_parts > 1
@@ -141,3 +152,7 @@ class Not(Function):
     def __init__(self, *args, **kwds):
         expr = Conditions(*args, **kwds)
         super().__init__(expr)
+
+    @property
+    def is_set(self):
+        return self.expr.is_set
diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index 1a2a0d3..d0b274c 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -91,4 +91,4 @@ class ListOfQueryParts(Object, list):
         super().append(query_part)
 
     def __str__(self):
-        return self._separator.join(force_text(f) for f in self)
+        return self._separator.join(force_text(f) for f in self if getattr(f, 'is_set', True))
-- 
2.43.0


From 4bd090c08e8872d07edb892821a84b9bc29f2a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:59 +0000
Subject: [PATCH 17/28] fix: accept more Not and Exists conditions at once

For example where(Not(a=1), Not(b=2)) was rendered as comparison of those two
conditions.
---
 sqlpuzzle/_queryparts/conditions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index f020016..cd4c7bd 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -106,7 +106,8 @@ class Conditions(BinaryOperationMixin, QueryParts):
             'allow_dict': True,
             'allow_list': True,
         }
-        if args and all(isinstance(item, (Conditions, ConditionsOfConditions)) for item in args):
+        from .where import Exists
+        if args and all(isinstance(item, (Conditions, ConditionsOfConditions, Not, Exists)) for item in args):
             for item in args:
                 self.append_unique_part(item)
         else:
-- 
2.43.0


From d9f5938f39f6a4600d2da650edae19277424c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:19 +0000
Subject: [PATCH 18/28] fix: has of insert does not fail for keyword

---
 sqlpuzzle/_queries/insert.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queries/insert.py b/sqlpuzzle/_queries/insert.py
index 742bfdf..48dee59 100644
--- a/sqlpuzzle/_queries/insert.py
+++ b/sqlpuzzle/_queries/insert.py
@@ -1,13 +1,14 @@
 from sqlpuzzle._backends import get_backend
 from sqlpuzzle._queries.options import Options
-from sqlpuzzle._queryparts import Tables, MultipleValues, OnDuplicateKeyUpdate, OnConflictDoUpdate
+from sqlpuzzle._queryparts import QueryPart, Tables, MultipleValues, OnDuplicateKeyUpdate, OnConflictDoUpdate
 from .query import Query
 
 __all__ = ('Insert',)
 
 
-class InsertKeyword:
+class InsertKeyword(QueryPart):
     def __init__(self):
+        super().__init__()
         self._is_replace = False
 
     def __str__(self):
-- 
2.43.0


From 05e6fc6214e0cdeadb56ee0fe811a4ca5c334e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:28 +0000
Subject: [PATCH 19/28] fix: has of FOR UPDATE looks to generated SQL

---
 sqlpuzzle/_queries/selectoptions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_queries/selectoptions.py b/sqlpuzzle/_queries/selectoptions.py
index d0f9d99..fa35253 100644
--- a/sqlpuzzle/_queries/selectoptions.py
+++ b/sqlpuzzle/_queries/selectoptions.py
@@ -1,5 +1,6 @@
-from sqlpuzzle._common import Object
+from sqlpuzzle._common import Object, force_text
 from sqlpuzzle._queries.options import Options
+from sqlpuzzle._queryparts.queryparts import has
 
 __all__ = ()
 
@@ -98,7 +99,7 @@ class SelectForUpdate(Object):
         return self._for_update
 
     def has(self, value):
-        return hasattr(self, value)
+        return has(self, force_text(value).upper())
 
     def for_update(self, allow=True):
         self._for_update = bool(allow)
-- 
2.43.0


From 0879ede31708c48664a09454475514b93715c259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:08 +0000
Subject: [PATCH 20/28] fix: do not ignore named conditions passed together
 with Q objects

---
 sqlpuzzle/_queryparts/conditions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlpuzzle/_queryparts/conditions.py b/sqlpuzzle/_queryparts/conditions.py
index cd4c7bd..3acea2d 100644
--- a/sqlpuzzle/_queryparts/conditions.py
+++ b/sqlpuzzle/_queryparts/conditions.py
@@ -110,9 +110,9 @@ class Conditions(BinaryOperationMixin, QueryParts):
         if args and all(isinstance(item, (Conditions, ConditionsOfConditions, Not, Exists)) for item in args):
             for item in args:
                 self.append_unique_part(item)
-        else:
-            for column_name, value in parse_args(options, *args, **kwds):
-                self.append_unique_part(self._condition_class(column_name, value))
+            args = ()
+        for column_name, value in parse_args(options, *args, **kwds):
+            self.append_unique_part(self._condition_class(column_name, value))
 
         return self
 
-- 
2.43.0


From 56fbcd9cdb5ce34d73946d8b4e897eaaa7a1134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:10 +0000
Subject: [PATCH 21/28] fix: compare also column of ON CONFLICT

---
 sqlpuzzle/_queryparts/onconflictdoupdate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlpuzzle/_queryparts/onconflictdoupdate.py b/sqlpuzzle/_queryparts/onconflictdoupdate.py
index 9e19617..7d5cd92 100644
--- a/sqlpuzzle/_queryparts/onconflictdoupdate.py
+++ b/sqlpuzzle/_queryparts/onconflictdoupdate.py
@@ -10,6 +10,9 @@ class OnConflictDoUpdate(Values):
         super().__init__(*args, **kwds)
         self._on_conflict = ''
 
+    def __eq__(self, other):
+        return type(self) == type(other) and self._on_conflict == other._on_conflict and super().__eq__(other)
+
     @property
     def _keyword_of_parts(self):
         return 'ON CONFLICT ({}) DO UPDATE'.format(self._on_conflict)
-- 
2.43.0


From 3e4837831fe778ace18e9530f27f7f130701dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:12 +0000
Subject: [PATCH 22/28] fix: comparing of queries is symmetric

---
 sqlpuzzle/_common/object.py         | 4 +++-
 sqlpuzzle/_queryparts/queryparts.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlpuzzle/_common/object.py b/sqlpuzzle/_common/object.py
index 6de4d5b..984fe45 100644
--- a/sqlpuzzle/_common/object.py
+++ b/sqlpuzzle/_common/object.py
@@ -12,7 +12,9 @@ def is_same(first, second):
     """
     if isinstance(first, list) and isinstance(second, list):
         return len(first) == len(second) and all(is_same(f, s) for f, s in zip(first, second))
-    return isinstance(first, Object) == isinstance(second, Object) and first == second
+    if isinstance(first, Object) or isinstance(second, Object):
+        return type(first) == type(second) and first == second
+    return first == second
 
 
 @total_ordering
diff --git a/sqlpuzzle/_queryparts/queryparts.py b/sqlpuzzle/_queryparts/queryparts.py
index d0b274c..811a7a5 100644
--- a/sqlpuzzle/_queryparts/queryparts.py
+++ b/sqlpuzzle/_queryparts/queryparts.py
@@ -59,7 +59,7 @@ class QueryParts(Object):
     def __eq__(self, other):
         if not isinstance(other, QueryParts) or len(self._parts) != len(other._parts):
             return False
-        return all(sp == op for sp, op in zip(self._parts, other._parts))
+        return all(type(sp) == type(op) and sp == op for sp, op in zip(self._parts, other._parts))
 
     @property
     def count_of_parts(self):
-- 
2.43.0


From 7e4a41e4066713d11d9859f63bf45392353b1bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:25 +0000
Subject: [PATCH 23/28] fix: dictionary with numbers or same SQL texts as keys
 can be sorted

---
 sqlpuzzle/_common/argsparser.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/argsparser.py b/sqlpuzzle/_common/argsparser.py
index 4c75c55..41689c5 100644
--- a/sqlpuzzle/_common/argsparser.py
+++ b/sqlpuzzle/_common/argsparser.py
@@ -1,6 +1,7 @@
 from collections import OrderedDict
 
 from sqlpuzzle.exceptions import InvalidArgumentException
+from .utils import force_text, is_sql_instance
 
 __all__ = ('parse_args',)
 
@@ -116,9 +117,18 @@ class Parser:
 
     def _parse_dictionary(self, dictionary):
         items = dictionary.items()
-        for item in items if isinstance(dictionary, OrderedDict) else sorted(items):
+        for item in items if isinstance(dictionary, OrderedDict) else sorted(items, key=self._sort_key):
             self._parse_item(item)
 
+    @staticmethod
+    def _sort_key(item):
+        #  Keys can be strings, SQL objects or numbers (of columns), which are not
+        #+ comparable with each other. Others are refused later.
+        key = item[0]
+        if isinstance(key, str) or is_sql_instance(key):
+            return 1, force_text(key)
+        return (0, key) if isinstance(key, int) else (2,)
+
     def _parse_list(self, list_):
         for item in list_:
             if isinstance(item, (list, tuple)):
-- 
2.43.0


From 1fd13db462682d3009727bbcfb1c2ddb6011a1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:32 +0000
Subject: [PATCH 24/28] fix: same custom SQL is only one column of INSERT

---
 sqlpuzzle/_queryparts/values.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index 69a56cd..fa457e3 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -63,10 +63,15 @@ class Values(QueryParts):
     def values(self, column_order=None):
         values = self._parts
         if column_order:
-            map_of_col_to_val = dict((value.column_name, value) for value in values)
-            values = [map_of_col_to_val.get(column, None) for column in column_order]
+            values = [self._last_value_of_column(column) for column in column_order]
         return ', '.join(str(SqlValue(value.value if value else None)) for value in values)
 
+    def _last_value_of_column(self, column):
+        for value in reversed(self._parts):
+            if is_same(value.column_name, column):
+                return value
+        return None
+
 
 class MultipleValues(QueryParts):
     def __str__(self):
@@ -78,10 +83,11 @@ class MultipleValues(QueryParts):
     @property
     def all_columns(self):
         """Return list of all columns."""
-        columns = set()
+        columns = []
         for values in self._parts:
             for value in values._parts:
-                columns.add(value.column_name)
+                if not any(is_same(column, value.column_name) for column in columns):
+                    columns.append(value.column_name)
         return sorted(columns)
 
     def columns(self):
-- 
2.43.0


From a89066851df70befdb20d40f41ba9a00e2311670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:31 +0000
Subject: [PATCH 25/28] fix: SQL object as limit, offset or type of order is
 invalid argument

---
 sqlpuzzle/_common/utils.py     | 4 ++--
 sqlpuzzle/_queryparts/limit.py | 4 ++--
 sqlpuzzle/_queryparts/order.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sqlpuzzle/_common/utils.py b/sqlpuzzle/_common/utils.py
index 9a8275c..141c913 100644
--- a/sqlpuzzle/_common/utils.py
+++ b/sqlpuzzle/_common/utils.py
@@ -15,13 +15,13 @@ def is_sql_instance(value):
     return hasattr(value, 'tosql')
 
 
-def check_type_decorator(allowed_types=()):
+def check_type_decorator(allowed_types=(), allow_sql=True):
     def decorator(func):
         @wraps(func)
         def wrapper(self, value, *args, **kwds):
             if (
                     (not isinstance(value, allowed_types) or (isinstance(value, bool) and bool not in allowed_types))
-                    and not hasattr(value, 'tosql')
+                    and not (allow_sql and hasattr(value, 'tosql'))
             ):
                 raise InvalidArgumentException('{} cannot be of type {}.'.format(
                     func.__name__,
diff --git a/sqlpuzzle/_queryparts/limit.py b/sqlpuzzle/_queryparts/limit.py
index 04e43d9..9660400 100644
--- a/sqlpuzzle/_queryparts/limit.py
+++ b/sqlpuzzle/_queryparts/limit.py
@@ -31,7 +31,7 @@ class Limit(QueryPart):
     def is_set(self):
         return self._limit is not None or self._offset is not None
 
-    @check_type_decorator((type(None), int))
+    @check_type_decorator((type(None), int), allow_sql=False)
     def limit(self, limit, offset=None):
         if limit is None:
             self._limit = None
@@ -42,7 +42,7 @@ class Limit(QueryPart):
                 self.offset(offset)
         return self
 
-    @check_type_decorator((type(None), int))
+    @check_type_decorator((type(None), int), allow_sql=False)
     def offset(self, offset):
         self._offset = int(offset) if offset else None
         return self
diff --git a/sqlpuzzle/_queryparts/order.py b/sqlpuzzle/_queryparts/order.py
index 998c09a..bbcd2ae 100644
--- a/sqlpuzzle/_queryparts/order.py
+++ b/sqlpuzzle/_queryparts/order.py
@@ -44,7 +44,7 @@ class Order(QueryPart):
         return self._sort
 
     @sort.setter
-    @check_type_decorator((str, type(None)))
+    @check_type_decorator((str, type(None)), allow_sql=False)
     def sort(self, sort):
         if sort is None:
             sort = ASC
-- 
2.43.0


From adeeffc78e6d23a0bd0d1228ef61cddade1aca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:34 +0000
Subject: [PATCH 26/28] fix: custom SQL as values of INSERT is invalid argument

---
 sqlpuzzle/_queryparts/values.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlpuzzle/_queryparts/values.py b/sqlpuzzle/_queryparts/values.py
index fa457e3..957f1dd 100644
--- a/sqlpuzzle/_queryparts/values.py
+++ b/sqlpuzzle/_queryparts/values.py
@@ -2,6 +2,7 @@ import datetime
 import decimal
 
 from sqlpuzzle._common import SqlValue, SqlReference, check_type_decorator, is_same, parse_args
+from sqlpuzzle.exceptions import InvalidArgumentException
 from .queryparts import QueryPart, QueryParts, append_custom_sql_decorator
 
 
@@ -99,5 +100,7 @@ class MultipleValues(QueryParts):
 
     def add(self, *args, **kwds):
         values = Values().set(*args, **kwds)
+        if not all(isinstance(value, Value) for value in values._parts):
+            raise InvalidArgumentException('Custom SQL can not be used instead of values.')
         self.append_part(values)
         return self
-- 
2.43.0


From a510d0747225837564cfa8be0e68cffe4bd44878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:23 +0000
Subject: [PATCH 27/28] fix: do not take booleans and the numbers 0 and 1 for
 the same value

Condition a = true was dropped when there already was a = 1 and so on.
---
 sqlpuzzle/_common/object.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sqlpuzzle/_common/object.py b/sqlpuzzle/_common/object.py
index 984fe45..38d06be 100644
--- a/sqlpuzzle/_common/object.py
+++ b/sqlpuzzle/_common/object.py
@@ -8,12 +8,15 @@ def is_same(first, second):
     """
     Objects can be compared with simple strings (see `Object.__eq__`), but
     in the query is for example custom SQL something else than the string
-    (value or reference) with same text.
+    (value or reference) with same text. The same for booleans, which are
+    in Python equal to the numbers 0 and 1, but in SQL they are not.
     """
     if isinstance(first, list) and isinstance(second, list):
         return len(first) == len(second) and all(is_same(f, s) for f, s in zip(first, second))
     if isinstance(first, Object) or isinstance(second, Object):
         return type(first) == type(second) and first == second
+    if isinstance(first, bool) != isinstance(second, bool):
+        return False
     return first == second
 
 
-- 
2.43.0


From c07d01db63124af899d31805ccac1e0e398c4060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:51 +0000
Subject: [PATCH 28/28] fix: an empty name is not a clause of select

---
 sqlpuzzle/_queries/select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlpuzzle/_queries/select.py b/sqlpuzzle/_queries/select.py
index 6c215fc..49aa159 100644
--- a/sqlpuzzle/_queries/select.py
+++ b/sqlpuzzle/_queries/select.py
@@ -68,7 +68,7 @@ class Select(Query):
         """
         if super().has(querypart_name, value):
             return True
-        if not value:
+        if querypart_name and not value:
             return super().has('select_options', querypart_name)
         return False
 
-- 
2.43.0

