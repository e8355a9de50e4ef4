From 21003196e0867c5ed5c7cb4c1a655f25e2adcd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 01/83] fix: escape quotes in schema name for EXEC (MSSQL)

---
 pysqlsync/dialect/mssql/object_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/object_types.py b/pysqlsync/dialect/mssql/object_types.py
index 45f3aff..f4d7c2f 100644
--- a/pysqlsync/dialect/mssql/object_types.py
+++ b/pysqlsync/dialect/mssql/object_types.py
@@ -80,7 +80,7 @@ class MSSQLNamespace(Namespace):
     def create_schema_stmt(self) -> Optional[str]:
         if self.name.local_id:
             # Microsoft SQL Server requires a separate batch for creating a schema
-            return f"IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = N{quote(self.name.id)} ) EXEC('CREATE SCHEMA {self.name}');"
+            return f"IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = N{quote(self.name.id)} ) EXEC({quote(f'CREATE SCHEMA {self.name}')});"
         else:
             return None
 
-- 
2.43.0


From 21015773c0074e7cad2248e7c9d6dccff81669ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 02/83] fix: escape quotes in table name for EXECUTE IMMEDIATE
 (Oracle)

---
 pysqlsync/dialect/oracle/object_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index 5469aff..7e467d6 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -1,7 +1,7 @@
 import re
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
-from pysqlsync.model.data_types import SqlTimestampType
+from pysqlsync.model.data_types import SqlTimestampType, quote
 
 
 class OracleColumn(Column):
@@ -35,9 +35,10 @@ class OracleTable(Table):
         )
 
     def drop_if_exists_stmt(self) -> str:
+        drop_table = f"DROP TABLE {self.name} CASCADE CONSTRAINTS PURGE"
         return (
             "BEGIN\n"
-            f"    EXECUTE IMMEDIATE 'DROP TABLE {self.name} CASCADE CONSTRAINTS PURGE';\n"
+            f"    EXECUTE IMMEDIATE {quote(drop_table)};\n"
             "EXCEPTION WHEN OTHERS THEN IF SQLCODE != -942 THEN RAISE; END IF;\n"
             "END;"
         )
-- 
2.43.0


From f34e0f3c1652cff42d6579f9a2c7ba5b80747e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 03/83] fix: implement namespace discovery for Trino

---
 pysqlsync/dialect/trino/discovery.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/trino/discovery.py b/pysqlsync/dialect/trino/discovery.py
index f754e7e..fe3a4ff 100644
--- a/pysqlsync/dialect/trino/discovery.py
+++ b/pysqlsync/dialect/trino/discovery.py
@@ -1,7 +1,8 @@
 from pysqlsync.base import BaseContext
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.discovery import AnsiExplorer
-from pysqlsync.formation.object_types import ObjectFactory
+from pysqlsync.formation.object_types import Namespace, ObjectFactory
+from pysqlsync.model.id_types import LocalId
 
 
 class TrinoExplorer(AnsiExplorer):
@@ -19,3 +20,9 @@ class TrinoExplorer(AnsiExplorer):
             SqlDiscovery(SqlDiscoveryOptions(substitutions={})),
             ObjectFactory(),
         )
+
+    async def get_namespace_current(self) -> Namespace:
+        return await self.get_namespace_qualified()
+
+    async def get_namespace(self, namespace_id: LocalId) -> Namespace:
+        return await self.get_namespace_qualified(namespace_id)
-- 
2.43.0


From 498fb9de79905197c1de88418c1b378e0c346274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 04/83] fix: escape backslash in comments and migrated labels
 (MySQL)

---
 pysqlsync/dialect/mysql/mutation.py     | 12 ++++++------
 pysqlsync/dialect/mysql/object_types.py | 10 ++++++++--
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index e199c5d..9ba9245 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -9,10 +9,10 @@ from pysqlsync.formation.object_types import (
     deleted,
     join_or_none,
 )
-from pysqlsync.model.data_types import SqlEnumType, SqlVariableCharacterType, quote
+from pysqlsync.model.data_types import SqlEnumType, SqlVariableCharacterType
 from pysqlsync.model.id_types import LocalId
 
-from .object_types import MySQLColumn, MySQLTable
+from .object_types import MySQLColumn, MySQLTable, sql_quoted_string
 
 
 class MySQLMutator(Mutator):
@@ -22,7 +22,7 @@ class MySQLMutator(Mutator):
         statements: list[str] = []
         ref = target_table.get_constraint(target.name)
         if isinstance(source.data_type, SqlEnumType):
-            enum_values = ", ".join(f"({quote(v)})" for v in source.data_type.values)
+            enum_values = ", ".join(f"({sql_quoted_string(v)})" for v in source.data_type.values)
             statements.append(
                 f'INSERT INTO {ref.table} ("value") VALUES {enum_values}\n'
                 'ON DUPLICATE KEY UPDATE "value" = "value";'
@@ -54,14 +54,14 @@ class MySQLMutator(Mutator):
         if source_desc is None:
             if target_desc is not None:
                 statements.append(
-                    f"ALTER TABLE {target.name} COMMENT = {quote(target_desc)};"
+                    f"ALTER TABLE {target.name} COMMENT = {sql_quoted_string(target_desc)};"
                 )
         else:
             if target_desc is None:
-                statements.append(f"ALTER TABLE {target.name} COMMENT = {quote('')};")
+                statements.append(f"ALTER TABLE {target.name} COMMENT = {sql_quoted_string('')};")
             elif source_desc != target_desc:
                 statements.append(
-                    f"ALTER TABLE {target.name} COMMENT = {quote(target_desc)};"
+                    f"ALTER TABLE {target.name} COMMENT = {sql_quoted_string(target_desc)};"
                 )
 
         return join_or_none(statements)
diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index c73b678..3009af9 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -12,6 +12,12 @@ from pysqlsync.model.data_types import SqlEnumType, quote
 from pysqlsync.model.id_types import LocalId
 
 
+def sql_quoted_string(text: str) -> str:
+    "Quotes a string such that a backslash does not start an escape sequence."
+
+    return quote(text.replace("\\", "\\\\"))
+
+
 class MySQLTable(Table):
     @property
     def short_description(self) -> Optional[str]:
@@ -33,7 +39,7 @@ class MySQLTable(Table):
         )
         definition = ",\n".join(defs)
         comment = (
-            f"\nCOMMENT = {quote(self.short_description)}"
+            f"\nCOMMENT = {sql_quoted_string(self.short_description)}"
             if self.short_description
             else ""
         )
@@ -73,7 +79,7 @@ class MySQLColumn(Column):
                     f"comment for column {self.name} too long, expected: maximum 1024; got: {len(description)}"
                 )
 
-            return quote(description)
+            return sql_quoted_string(description)
         else:
             return None
 
-- 
2.43.0


From c29d90b83717afebf338585deb35950938b471f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 05/83] fix: respect range of unsigned integers in common type;
 allow Oracle integers

---
 pysqlsync/model/data_types.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index c71aef6..3e101e2 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -1,3 +1,4 @@
+import copy
 import datetime
 import decimal
 from dataclasses import dataclass
@@ -359,6 +360,34 @@ def max_or_none(left: Optional[int], right: Optional[int]) -> Optional[int]:
         return max(left, right)
 
 
+def _compatible_integer_type(
+    left: SqlIntegerType, right: SqlIntegerType
+) -> SqlIntegerType:
+    "Returns an integer type that can represent instances of both source types."
+
+    result = copy.copy(left)
+    if left.signed == right.signed:
+        result.width = max(left.width, right.width)
+    else:
+        # a signed type takes double the width to represent all values of an unsigned type
+        result.signed = True
+        result.width = max(
+            left.width if left.signed else 2 * left.width,
+            right.width if right.signed else 2 * right.width,
+        )
+        if result.width > 8:
+            raise CompatibilityError()
+    if left.minimum is None or right.minimum is None:
+        result.minimum = None
+    else:
+        result.minimum = min(left.minimum, right.minimum)
+    if left.maximum is None or right.maximum is None:
+        result.maximum = None
+    else:
+        result.maximum = max(left.maximum, right.maximum)
+    return result
+
+
 def _compatible_type(left: SqlDataType, right: SqlDataType) -> SqlDataType:
     """
     Returns a common type that can represent instances of both source types without data loss.
@@ -372,7 +401,7 @@ def _compatible_type(left: SqlDataType, right: SqlDataType) -> SqlDataType:
 
     # integer types
     if isinstance(left, SqlIntegerType) and isinstance(right, SqlIntegerType):
-        return type(left)(width=max(left.width, right.width))
+        return _compatible_integer_type(left, right)
 
     # floating-point types
     if isinstance(left, SqlRealType):
-- 
2.43.0


From 58581e0d398eea08c63c08f9f1015223abe4614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 06/83] fix: length of fixed-length type defaults to 1 in
 common type

---
 pysqlsync/model/data_types.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index 3e101e2..cf54e5a 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -360,6 +360,15 @@ def max_or_none(left: Optional[int], right: Optional[int]) -> Optional[int]:
         return max(left, right)
 
 
+def max_or_unit(left: Optional[int], right: Optional[int]) -> Optional[int]:
+    "Maximum length of fixed-length types. When omitted, length defaults to 1."
+
+    if left is None and right is None:
+        return None
+    else:
+        return max(1 if left is None else left, 1 if right is None else right)
+
+
 def _compatible_integer_type(
     left: SqlIntegerType, right: SqlIntegerType
 ) -> SqlIntegerType:
@@ -416,7 +425,7 @@ def _compatible_type(left: SqlDataType, right: SqlDataType) -> SqlDataType:
     # character types
     if isinstance(left, SqlFixedCharacterType):
         if isinstance(right, SqlFixedCharacterType):
-            return type(left)(limit=max_or_none(left.limit, right.limit))
+            return type(left)(limit=max_or_unit(left.limit, right.limit))
         elif isinstance(right, SqlVariableCharacterType):
             return type(right)(limit=max_or_none(left.limit, right.limit))
     elif isinstance(left, SqlVariableCharacterType):
@@ -426,7 +435,7 @@ def _compatible_type(left: SqlDataType, right: SqlDataType) -> SqlDataType:
     # binary types
     if isinstance(left, SqlFixedBinaryType):
         if isinstance(right, SqlFixedBinaryType):
-            return type(left)(storage=max_or_none(left.storage, right.storage))
+            return type(left)(storage=max_or_unit(left.storage, right.storage))
         elif isinstance(right, SqlVariableBinaryType):
             return type(right)(storage=max_or_none(left.storage, right.storage))
     elif isinstance(left, SqlVariableBinaryType):
-- 
2.43.0


From 694e0359064a6d654f2061a89e923c4325726ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 07/83] fix: discover time zone, time precision and interval
 types

---
 pysqlsync/formation/data_types.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index e5abc76..2de7d07 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -14,6 +14,7 @@ from ..model.data_types import (
     SqlFixedCharacterType,
     SqlFloatType,
     SqlIntegerType,
+    SqlIntervalType,
     SqlJsonType,
     SqlRealType,
     SqlTimestampType,
@@ -26,6 +27,10 @@ from ..model.data_types import (
 from ..model.id_types import QualifiedId
 
 
+def _has_time_zone(suffix: Optional[str]) -> bool:
+    return suffix is not None and suffix.lower() == "with time zone"
+
+
 @dataclasses.dataclass
 class SqlDiscoveryOptions:
     substitutions: dict[str, SqlDataType] = dataclasses.field(default_factory=dict)
@@ -63,7 +68,7 @@ class SqlDiscovery:
             return SqlFloatType()
         elif name in ["timestamp", "timestamp without time zone"]:
             return SqlTimestampType(None, False)
-        elif name == "timestamp with time zone":
+        elif name in ["timestamp with time zone", "timestamptz"]:
             return SqlTimestampType(None, True)
         elif name == "datetime":
             return SqlTimestampType()
@@ -71,8 +76,10 @@ class SqlDiscovery:
             return SqlDateType()
         elif name in ["time", "time without time zone"]:
             return SqlTimeType(None, False)
-        elif name == "time with time zone":
+        elif name in ["time with time zone", "timetz"]:
             return SqlTimeType(None, True)
+        elif name == "interval":
+            return SqlIntervalType()
         elif name in ["char", "character"]:
             return SqlFixedCharacterType()
         elif name in ["varchar", "character varying", "text"]:
@@ -104,10 +111,15 @@ class SqlDiscovery:
             re.IGNORECASE,
         )
         if m is not None:
-            if m.group(2) == "with time zone":
-                return SqlTimestampType(int(m.group(1)), True)
-            else:
-                return SqlTimestampType(int(m.group(1)), False)
+            return SqlTimestampType(int(m.group(1)), _has_time_zone(m.group(2)))
+
+        m = re.fullmatch(
+            r"^time[(](\d+)[)]\s*(with(?:out)? time zone)?$",
+            type_def,
+            re.IGNORECASE,
+        )
+        if m is not None:
+            return SqlTimeType(int(m.group(1)), _has_time_zone(m.group(2)))
 
         m = re.fullmatch(r"^char(?:acter)?[(](\d+)[)]$", type_def, re.IGNORECASE)
         if m is not None:
-- 
2.43.0


From 155e7b025fb8cf16334b2a36349a74be4ef73ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 08/83] fix: unescape quotes in discovered enumeration values

---
 pysqlsync/formation/data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index 2de7d07..984cb4e 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -146,7 +146,8 @@ class SqlDiscovery:
         if m is not None:
             value_list = m.group(1)
             values = [
-                value for value in re.findall(r"'((?:[^']+|'')*)'(?:,|$)", value_list)
+                value.replace("''", "'")
+                for value in re.findall(r"'((?:[^']+|'')*)'(?:,|$)", value_list)
             ]
             return SqlEnumType(values)
 
-- 
2.43.0


From a471e8104365408160866f440c878b6f593d2a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 09/83] fix: discover user-defined types whose name is that of
 a built-in type

---
 pysqlsync/formation/data_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index 984cb4e..7b4951e 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -169,6 +169,9 @@ class SqlDiscovery:
         sql_type: Optional[SqlDataType] = None
         if type_schema is None or type_schema == "pg_catalog" or type_schema == "SYS":
             sql_type = copy.copy(self.options.substitutions.get(type_name))
+        else:
+            # user-defined types may have the same name as a built-in type
+            return SqlUserDefinedType(QualifiedId(type_schema, type_name))
 
         if sql_type is None and type_def is not None:
             sql_type = self.sql_data_type_from_def(type_def)
-- 
2.43.0


From c4e039f8010c188016101f6046714b246bc615b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 10/83] fix: discover length and precision of array elements
 (PostgreSQL)

---
 pysqlsync/dialect/postgresql/discovery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 17a7481..60f6961 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -268,7 +268,9 @@ class PostgreSQLExplorer(Explorer):
             data_type = self.discovery.sql_data_type_from_spec(
                 type_name=col.type_name,
                 type_schema=col.type_schema,
-                type_def=col.type_def,
+                type_def=col.type_def.removesuffix("[]")
+                if col.is_array
+                else col.type_def,
             )
             if col.is_array:
                 data_type = SqlArrayType(data_type)
-- 
2.43.0


From 69be68a2d36a214a8cc98faad0b1fc4429e16508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 11/83] fix: discover precision of decimal and timestamp types
 (Oracle)

---
 pysqlsync/dialect/oracle/discovery.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index 3a7b8a4..d8fab1f 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -7,7 +7,7 @@ from pysqlsync.base import BaseContext, Explorer
 from pysqlsync.formation.constraints import ForeignFactory, UniqueFactory
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.object_types import Column, Constraint, Namespace, Table
-from pysqlsync.model.data_types import escape_like, quote
+from pysqlsync.model.data_types import SqlDecimalType, escape_like, quote
 from pysqlsync.model.id_types import (
     LocalId,
     PrefixedId,
@@ -148,6 +148,15 @@ class OracleExplorer(Explorer):
                 numeric_precision=col.data_precision,
                 numeric_scale=col.data_scale,
             )
+            if isinstance(data_type, OracleIntegerType):
+                if col.data_precision is not None:
+                    data_type = SqlDecimalType(col.data_precision, col.data_scale)
+                elif col.data_scale is not None:
+                    data_type = SqlDecimalType()
+            elif isinstance(data_type, OracleTimestampType):
+                if col.data_scale is not None and col.data_scale != 6:
+                    data_type.precision = col.data_scale
+                data_type.with_time_zone = "WITH TIME ZONE" in col.data_type
             nullable = bool(col.is_nullable)
             identity = bool(col.is_identity)
             columns.append(
-- 
2.43.0


From 6612354c521c5f25e04b4392fa28d570939d0898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 12/83] fix: use varchar(max) for lengths not permitted in
 varchar(n) (MSSQL)

---
 pysqlsync/dialect/mssql/data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/data_types.py b/pysqlsync/dialect/mssql/data_types.py
index ee259e2..41a6975 100644
--- a/pysqlsync/dialect/mssql/data_types.py
+++ b/pysqlsync/dialect/mssql/data_types.py
@@ -43,10 +43,12 @@ class MSSQLVariableCharacterType(SqlVariableCharacterType):
     def __str__(self) -> str:
         if self.encoding is MSSQLEncoding.UTF16:
             chartype = "nvarchar"
+            max_limit = 4000
         else:
             chartype = "varchar"
+            max_limit = 8000
 
-        if self.limit is not None and self.limit > 0 and self.limit != 2147483647:
+        if self.limit is not None and self.limit > 0 and self.limit <= max_limit:
             return f"{chartype}({self.limit})"
         else:
             return f"{chartype}(max)"
-- 
2.43.0


From fc6f8a44696964ebe5d73360c1dc7017c5d19fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 13/83] fix: discover time with no fractional seconds (MSSQL)

---
 pysqlsync/dialect/mssql/discovery.py | 3 ++-
 pysqlsync/formation/data_types.py    | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mssql/discovery.py b/pysqlsync/dialect/mssql/discovery.py
index f52484d..1c79bc3 100644
--- a/pysqlsync/dialect/mssql/discovery.py
+++ b/pysqlsync/dialect/mssql/discovery.py
@@ -4,7 +4,7 @@ from pysqlsync.base import BaseContext
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.discovery import AnsiExplorer
 from pysqlsync.formation.object_types import Column, Namespace, Table
-from pysqlsync.model.data_types import quote
+from pysqlsync.model.data_types import SqlTimeType, quote
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 
 from .data_types import (
@@ -30,6 +30,7 @@ class MSSQLExplorer(AnsiExplorer):
                             encoding=MSSQLEncoding.UTF16
                         ),
                         "varchar": MSSQLVariableCharacterType(),
+                        "time": SqlTimeType(7),
                         "text": MSSQLVariableCharacterType(),
                     }
                 )
diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index 7b4951e..6dca05e 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -198,7 +198,9 @@ class SqlDiscovery:
             if datetime_precision is not None and datetime_precision > 0:
                 sql_type.precision = datetime_precision
         elif isinstance(sql_type, SqlTimeType):
-            if datetime_precision is not None and datetime_precision > 0:
+            if datetime_precision is not None and (
+                datetime_precision > 0 or sql_type.precision is not None
+            ):
                 sql_type.precision = datetime_precision
         elif isinstance(sql_type, SqlFixedCharacterType):
             if character_maximum_length is not None:
-- 
2.43.0


From b23be5431ce67a20bd69ce25de5f0e501eef95d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 14/83] fix: discover tables of the current schema only
 (Oracle)

---
 pysqlsync/dialect/oracle/discovery.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index d8fab1f..215cefc 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -97,13 +97,16 @@ class OracleExplorer(Explorer):
         raise NotImplementedError()
 
     async def get_table(self, table_id: SupportsQualifiedId) -> Table:
-        condition = f"t.table_name = {quote(table_id.local_id)}"
+        current_schema = self.conn.connection.generator.get_current_schema_stmt()
+        condition = (
+            f"t.owner = {current_schema} AND t.table_name = {quote(table_id.local_id)}"
+        )
 
         table_comments = await self.conn.query_all(
             str,
             "SELECT tc.comments\n"
             "FROM dba_tables t JOIN dba_tab_comments tc ON t.owner = tc.owner AND t.table_name = tc.table_name\n"
-            f"WHERE t.owner != 'SYS' AND {condition}\n AND t.tablespace_name != 'SYSAUX'\n"
+            f"WHERE {condition}\n AND t.tablespace_name != 'SYSAUX'\n"
             "    AND t.status = 'VALID' AND t.temporary = 'N' AND t.secondary = 'N' AND t.dropped = 'NO' AND t.read_only = 'NO'",
         )
 
@@ -228,10 +231,11 @@ class OracleExplorer(Explorer):
         else:
             condition = "table_name NOT LIKE '%~_~_%' ESCAPE '~'"
 
+        current_schema = self.conn.connection.generator.get_current_schema_stmt()
         table_names = await self.conn.query_all(
             str,
             "SELECT table_name FROM dba_tables\n"
-            f"WHERE owner != 'SYS' AND {condition}\n AND table_name NOT LIKE '%$%' AND tablespace_name != 'SYSAUX'\n"
+            f"WHERE owner = {current_schema} AND {condition}\n AND table_name NOT LIKE '%$%' AND tablespace_name != 'SYSAUX'\n"
             "    AND status = 'VALID' AND temporary = 'N' AND secondary = 'N' AND dropped = 'NO' AND read_only = 'NO'",
         )
 
-- 
2.43.0


From c3f35997e6dfdb9e019b1bd981c7d2582678ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:08 +0000
Subject: [PATCH 15/83] fix: read columns of composite keys in order
 (PostgreSQL)

---
 pysqlsync/dialect/postgresql/discovery.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 60f6961..4028f1d 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -301,9 +301,10 @@ class PostgreSQLExplorer(Explorer):
             "    con.conrelid AS pkeyrel,\n"
             "    tgt.pkeycol,\n"
             "    con.confrelid AS fkeyrel,\n"
-            "    tgt.fkeycol\n"
+            "    tgt.fkeycol,\n"
+            "    tgt.keypos\n"
             "FROM pg_catalog.pg_constraint AS con\n"
-            "    CROSS JOIN UNNEST(con.conkey, con.confkey) AS tgt(pkeycol, fkeycol)\n"
+            "    CROSS JOIN UNNEST(con.conkey, con.confkey) WITH ORDINALITY AS tgt(pkeycol, fkeycol, keypos)\n"
             "    INNER JOIN pg_catalog.pg_class AS cls ON con.conrelid = cls.oid\n"
             "    INNER JOIN pg_catalog.pg_namespace AS nsp ON cls.relnamespace = nsp.oid\n"
             f"WHERE {self._where_table(table_id)} AND con.contype IN ('p', 'u', 'f')\n"
@@ -311,7 +312,8 @@ class PostgreSQLExplorer(Explorer):
             "    INNER JOIN pg_catalog.pg_attribute AS att_s ON cons.pkeyrel = att_s.attrelid AND cons.pkeycol = att_s.attnum\n"
             "    LEFT JOIN pg_catalog.pg_class AS cls_t ON cons.fkeyrel = cls_t.oid\n"
             "    LEFT JOIN pg_catalog.pg_namespace AS nsp_t ON cls_t.relnamespace = nsp_t.oid\n"
-            "    LEFT JOIN pg_catalog.pg_attribute AS att_t ON cons.fkeyrel = att_t.attrelid AND cons.fkeycol = att_t.attnum",
+            "    LEFT JOIN pg_catalog.pg_attribute AS att_t ON cons.fkeyrel = att_t.attrelid AND cons.fkeycol = att_t.attnum\n"
+            "ORDER BY cons.keypos",
         )
 
         primary: list[LocalId] = []
-- 
2.43.0


From e4a65a89bac0881d86b0dfdbbfd699318a934cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:08 +0000
Subject: [PATCH 16/83] fix: read columns of composite foreign keys in order
 (MySQL)

---
 pysqlsync/dialect/mysql/discovery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index 44dca53..df29b6e 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -128,7 +128,8 @@ class MySQLExplorer(AnsiExplorer):
             "        ON kcu.constraint_catalog = ref.constraint_catalog\n"
             "            AND kcu.constraint_schema = ref.constraint_schema\n"
             "            AND kcu.constraint_name = ref.constraint_name\n"
-            f"WHERE ref.table_name = {quote(table_id.local_id)} AND {self._where_table(table_id, 'kcu')}\n",
+            f"WHERE ref.table_name = {quote(table_id.local_id)} AND {self._where_table(table_id, 'kcu')}\n"
+            "ORDER BY kcu.ordinal_position",
         )
 
         constraints = ForeignFactory()
-- 
2.43.0


From f5e45023a1989f6c1aa962664277100e4b61498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:15 +0000
Subject: [PATCH 17/83] fix: pair columns of composite foreign keys by position
 (Oracle)

---
 pysqlsync/dialect/oracle/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index 215cefc..7d2e65f 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -184,7 +184,7 @@ class OracleExplorer(Explorer):
             "FROM dba_constraints t\n"
             "    JOIN dba_cons_columns tc ON t.owner = tc.owner AND t.constraint_name = tc.constraint_name\n"
             "    LEFT JOIN dba_constraints r ON t.r_owner = r.owner AND t.r_constraint_name = r.constraint_name\n"
-            "    LEFT JOIN dba_cons_columns rc ON r.owner = rc.owner AND r.constraint_name = rc.constraint_name\n"
+            "    LEFT JOIN dba_cons_columns rc ON r.owner = rc.owner AND r.constraint_name = rc.constraint_name AND tc.position = rc.position\n"
             f"WHERE {condition}\n"
             "ORDER BY tc.position",
         )
-- 
2.43.0


From a853b9bf4cede07cf053187412d005dc6325aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 18/83] fix: discover array members of composite types
 (PostgreSQL)

---
 pysqlsync/dialect/postgresql/discovery.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 4028f1d..36665ed 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -59,6 +59,7 @@ class PostgreSQLMemberMeta:
     type_schema: str
     type_name: str
     type_def: str
+    is_array: bool
     description: str
 
 
@@ -192,9 +193,9 @@ class PostgreSQLExplorer(Explorer):
             "SELECT\n"
             "    att.attname AS member_name,\n"
             "    typ_nsp.nspname AS type_schema,\n"
-            "    typ.typname AS type_name,\n"
             "    CASE WHEN typ.typelem != 0 THEN typ_elem.typname ELSE typ.typname END AS type_name,\n"
             "    pg_catalog.format_type(att.atttypid, att.atttypmod) AS type_def,\n"
+            "    att.attndims != 0 AS is_array,\n"
             "    dsc.description AS description\n"
             "FROM pg_catalog.pg_attribute AS att\n"
             "    INNER JOIN pg_catalog.pg_type AS typ ON att.atttypid = typ.oid\n"
@@ -212,8 +213,12 @@ class PostgreSQLExplorer(Explorer):
             data_type = self.discovery.sql_data_type_from_spec(
                 type_name=mem.type_name,
                 type_schema=mem.type_schema,
-                type_def=mem.type_def,
+                type_def=mem.type_def.removesuffix("[]")
+                if mem.is_array
+                else mem.type_def,
             )
+            if mem.is_array:
+                data_type = SqlArrayType(data_type)
             members.append(
                 StructMember(
                     LocalId(mem.member_name),
-- 
2.43.0


From dd0997872325b3c9c9e6853b735490cff5b916be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 19/83] fix: discover types with length or precision when
 column information is limited

---
 pysqlsync/formation/discovery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/discovery.py b/pysqlsync/formation/discovery.py
index a4b1024..031dbec 100644
--- a/pysqlsync/formation/discovery.py
+++ b/pysqlsync/formation/discovery.py
@@ -184,7 +184,9 @@ class AnsiExplorer(Explorer):
             columns.append(
                 self.factory.column_class(
                     LocalId(column_name),
-                    self.discovery.sql_data_type_from_spec(type_name=data_type),
+                    self.discovery.sql_data_type_from_spec(
+                        type_name=data_type, type_def=data_type
+                    ),
                     bool(nullable),
                 )
             )
-- 
2.43.0


From 8e13b5c072bb0143d6a0edc1aa074138ccd5695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 20/83] fix: assign values to fields of objects by column name
 (Redshift)

---
 pysqlsync/dialect/redshift/connection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 3277b0b..8f7b257 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -19,7 +19,7 @@ from pysqlsync.base import (
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
-from pysqlsync.resultset import resultset_unwrap_object, resultset_unwrap_tuple
+from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
 from pysqlsync.util.typing import override
 
@@ -97,7 +97,11 @@ class RedshiftContext(BaseContext):
             records = cursor.execute(statement).fetchall()
 
             if is_dataclass_type(signature):
-                return resultset_unwrap_object(signature, records)  # type: ignore
+                # rows are lists of values without names
+                names = [column[0] for column in cursor.description or []]
+                return resultset_unwrap_dict(
+                    signature, [dict(zip(names, record)) for record in records]  # type: ignore
+                )
             else:
                 return resultset_unwrap_tuple(signature, records)
 
-- 
2.43.0


From f502f7e54cae5e47aa40bb63c0e79dd0882fb731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:08 +0000
Subject: [PATCH 21/83] fix: assign values to fields of objects by column name
 (Oracle)

---
 pysqlsync/dialect/oracle/connection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index e2032f5..a438d76 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -128,7 +128,13 @@ class OracleContext(BaseContext):
         with self.native_connection.cursor() as cur:
             cur.execute(statement)
             if is_dataclass_type(signature):
-                cur.rowfactory = lambda *args: signature(*args)
+                # identifiers that are not quoted are reported in upper case
+                fields = {name.lower(): name for name in signature.__dataclass_fields__}
+                names = [
+                    fields.get(column[0].lower(), column[0])
+                    for column in cur.description
+                ]
+                cur.rowfactory = lambda *args: signature(**dict(zip(names, args)))
 
             records = cur.fetchall()
 
-- 
2.43.0


From 53a50719b5de43c90bf48b0cc727fc8409c319ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 22/83] fix: percent-decode the database name in a connection
 string

---
 pysqlsync/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/factory.py b/pysqlsync/factory.py
index aef20f1..ef4e3f3 100644
--- a/pysqlsync/factory.py
+++ b/pysqlsync/factory.py
@@ -103,7 +103,7 @@ def get_parameters(url: str) -> tuple[str, ConnectionParameters]:
         port=parts.port,
         username=unquote(parts.username) if parts.username else None,
         password=unquote(parts.password) if parts.password else None,
-        database=parts.path.lstrip("/") if parts.path else None,
+        database=unquote(parts.path.lstrip("/")) if parts.path else None,
         ssl=ssl,
     )
 
-- 
2.43.0


From 931195eea1984c7a36afc8c82070c7fa01ab6ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:28 +0000
Subject: [PATCH 23/83] fix: write IPv6 addresses in brackets in a connection
 string

---
 pysqlsync/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysqlsync/connection.py b/pysqlsync/connection.py
index 52a3556..1f6b3f9 100644
--- a/pysqlsync/connection.py
+++ b/pysqlsync/connection.py
@@ -102,6 +102,8 @@ class ConnectionParameters:
 
     def __str__(self) -> str:
         host = self.host or "localhost"
+        if ":" in host:
+            host = f"[{host}]"  # IPv6 address
         port = f":{self.port}" if self.port else ""
         username = f"{quote(self.username, safe='')}@" if self.username else ""
         database = f"/{quote(self.database, safe='')}" if self.database else ""
-- 
2.43.0


From 3a5d159c0e39e310f1900bd63ac21594949bd4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:44 +0000
Subject: [PATCH 24/83] fix: escape special characters in ODBC connection
 string (MSSQL)

---
 pysqlsync/dialect/mssql/connection.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index 1639471..464a573 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -20,6 +20,12 @@ T = TypeVar("T")
 LOGGER = logging.getLogger("pysqlsync.mssql")
 
 
+def quoted_value(value: Optional[str]) -> Optional[str]:
+    "Encloses a value in a connection string in braces such that it may contain any special characters."
+
+    return "{" + value.replace("}", "}}") + "}" if value is not None else None
+
+
 class MSSQLConnection(BaseConnection):
     """
     Represents a connection to a Microsoft SQL Server.
@@ -39,13 +45,13 @@ class MSSQLConnection(BaseConnection):
                 if self.params.port is not None
                 else self.params.host
             ),
-            "UID": self.params.username,
-            "PWD": self.params.password,
+            "UID": quoted_value(self.params.username),
+            "PWD": quoted_value(self.params.password),
             "LongAsMax": "yes",
             "TrustServerCertificate": "yes",
         }
         if self.params.database is not None:
-            params["DATABASE"] = self.params.database
+            params["DATABASE"] = quoted_value(self.params.database)
         conn_string = ";".join(
             f"{key}={value}" for key, value in params.items() if value is not None
         )
-- 
2.43.0


From 4863b1c8125efc107b42f653e8f3afd7640b83b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 25/83] fix: make no encrypted attempt when SSL is disabled, or
 not first when it is merely allowed (PostgreSQL)

---
 pysqlsync/dialect/postgresql/connection.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index cea28ed..2a79411 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -2,7 +2,7 @@ import dataclasses
 import logging
 import ssl
 import typing
-from typing import Iterable, Optional, TypeVar
+from typing import Iterable, Optional, TypeVar, Union
 
 import asyncpg
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
@@ -28,16 +28,18 @@ class PostgreSQLConnection(BaseConnection):
         LOGGER.info("connecting to %s", self.params)
 
         ssl_mode = self.params.ssl
-        if ssl_mode is None or ssl_mode is ConnectionSSLMode.disable:
+        if ssl_mode is None:
             return await self._open()
+        elif ssl_mode is ConnectionSSLMode.disable:
+            return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.prefer:
             try:
                 return await self._open(create_context(ssl_mode))
             except ConnectionError:
-                return await self._open()
+                return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.allow:
             try:
-                return await self._open()
+                return await self._open(False)
             except ConnectionError:
                 return await self._open(create_context(ssl_mode))
         elif (
@@ -49,7 +51,10 @@ class PostgreSQLConnection(BaseConnection):
         else:
             raise ValueError(f"unsupported SSL mode: {ssl_mode}")
 
-    async def _open(self, ctx: Optional[ssl.SSLContext] = None) -> BaseContext:
+    async def _open(
+        self, ctx: Union[ssl.SSLContext, bool, None] = None
+    ) -> BaseContext:
+        # SSL is disabled with `False`, whereas `None` makes the driver prefer SSL
         conn = await asyncpg.connect(
             host=self.params.host,
             port=self.params.port,
-- 
2.43.0


From e95eb80dfdc14f355c5162736611ca0d3e83814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 26/83] fix: try the other mode when the server refuses a
 connection by host-based rules or fails in TLS handshake (PostgreSQL)

---
 pysqlsync/dialect/postgresql/connection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index 2a79411..861f016 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -19,6 +19,10 @@ T = TypeVar("T")
 
 LOGGER = logging.getLogger("pysqlsync.postgres")
 
+# errors that indicate that the server refuses the connection with or without encryption;
+# note that SSL errors derive from `OSError`, and rules in `pg_hba.conf` are reported as an authorization error
+_CONNECTION_ERRORS = (OSError, asyncpg.InvalidAuthorizationSpecificationError)
+
 
 class PostgreSQLConnection(BaseConnection):
     native: asyncpg.Connection
@@ -35,12 +39,12 @@ class PostgreSQLConnection(BaseConnection):
         elif ssl_mode is ConnectionSSLMode.prefer:
             try:
                 return await self._open(create_context(ssl_mode))
-            except ConnectionError:
+            except _CONNECTION_ERRORS:
                 return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.allow:
             try:
                 return await self._open(False)
-            except ConnectionError:
+            except _CONNECTION_ERRORS:
                 return await self._open(create_context(ssl_mode))
         elif (
             ssl_mode is ConnectionSSLMode.require
-- 
2.43.0


From 563e7f3c166cc3ecfae147ad0a207f30969b39ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 27/83] fix: refuse unencrypted connection when SSL is required
 (MySQL)

---
 pysqlsync/dialect/mysql/connection.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mysql/connection.py b/pysqlsync/dialect/mysql/connection.py
index 06b59d4..e8cd07b 100644
--- a/pysqlsync/dialect/mysql/connection.py
+++ b/pysqlsync/dialect/mysql/connection.py
@@ -5,6 +5,7 @@ from typing import Optional, TypeVar
 
 import aiomysql
 import pymysql
+from pymysql.constants import CLIENT, CR
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
 
 from pysqlsync.base import BaseConnection, BaseContext, DataSource
@@ -49,7 +50,14 @@ class MySQLConnection(BaseConnection):
             or ssl_mode is ConnectionSSLMode.verify_ca
             or ssl_mode is ConnectionSSLMode.verify_full
         ):
-            return await self._open(create_context(ssl_mode))
+            context = await self._open(create_context(ssl_mode))
+            # the driver reverts to an unencrypted connection if the server does not offer encryption
+            if not self.native.server_capabilities & CLIENT.SSL:
+                self.native.close()
+                raise pymysql.err.OperationalError(
+                    CR.CR_SSL_CONNECTION_ERROR, "server does not support SSL"
+                )
+            return context
         else:
             raise ValueError(f"unsupported SSL mode: {ssl_mode}")
 
-- 
2.43.0


From 63564916f64a8c581c22bff94ae1860342196a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 28/83] fix: respect SSL mode (MSSQL)

---
 pysqlsync/dialect/mssql/connection.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index 464a573..8453769 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -6,6 +6,7 @@ import pyodbc
 from strong_typing.inspection import is_dataclass_type
 
 from pysqlsync.base import BaseConnection, BaseContext, DataSource, RecordType
+from pysqlsync.connection import ConnectionSSLMode
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.data_types import quote
 from pysqlsync.model.id_types import LocalId, QualifiedId
@@ -48,8 +49,20 @@ class MSSQLConnection(BaseConnection):
             "UID": quoted_value(self.params.username),
             "PWD": quoted_value(self.params.password),
             "LongAsMax": "yes",
-            "TrustServerCertificate": "yes",
+            "TrustServerCertificate": (
+                "no"
+                if self.params.ssl is ConnectionSSLMode.verify_ca
+                or self.params.ssl is ConnectionSSLMode.verify_full
+                else "yes"
+            ),
         }
+        if (
+            self.params.ssl is ConnectionSSLMode.disable
+            or self.params.ssl is ConnectionSSLMode.allow
+        ):
+            params["Encrypt"] = "no"  # unless the server requires encryption
+        elif self.params.ssl is not None:
+            params["Encrypt"] = "yes"
         if self.params.database is not None:
             params["DATABASE"] = quoted_value(self.params.database)
         conn_string = ";".join(
-- 
2.43.0


From 7b281ace5a75ea6861221c07cc71fabd20473d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:45 +0000
Subject: [PATCH 29/83] fix: do not mistake an empty line for the end of the
 file when reading delimited text

---
 pysqlsync/data/exchange.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pysqlsync/data/exchange.py b/pysqlsync/data/exchange.py
index f20925c..9d61b9e 100644
--- a/pysqlsync/data/exchange.py
+++ b/pysqlsync/data/exchange.py
@@ -134,20 +134,26 @@ class TextReader:
 
         rows: list[tuple] = []
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            rows.append(self.parser.parse_line(line))
+            record = line.rstrip(b"\n")
+            if not record and len(self.columns) > 1:
+                continue
+            rows.append(self.parser.parse_line(record))
         return rows
 
     def records(self) -> Iterable[tuple]:
         "An iterator to records in a file-like object."
 
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            yield self.parser.parse_line(line)
+            record = line.rstrip(b"\n")
+            if not record and len(self.columns) > 1:
+                continue
+            yield self.parser.parse_line(record)
 
 
 class AsyncBinaryIO(Protocol):
@@ -191,9 +197,11 @@ class AsyncTextReader:
         rows: list[tuple] = []
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
+            record = line.rstrip(b"\n")
+            if not record and len(self.columns) > 1:
+                continue
             rows.append(self.parser.parse_line(record))
         return rows
 
@@ -202,7 +210,9 @@ class AsyncTextReader:
 
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
+            record = line.rstrip(b"\n")
+            if not record and len(self.columns) > 1:
+                continue
             yield self.parser.parse_line(record)
-- 
2.43.0


From bb548d2e105b741b20b552994a50cf38202cf998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:18 +0000
Subject: [PATCH 30/83] fix: update only those columns that are supplied
 (PostgreSQL, MySQL)

---
 pysqlsync/dialect/mysql/generator.py      | 2 +-
 pysqlsync/dialect/postgresql/generator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index d7487fc..6abf193 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -107,7 +107,7 @@ class MySQLGenerator(BaseGenerator):
         columns = [column for column in table.get_columns(order)]
         statements.append(_field_list([column.name for column in columns]))
         statements.append("ON DUPLICATE KEY UPDATE")
-        value_columns = table.get_value_columns()
+        value_columns = table.get_value_columns(order)
         if value_columns:
             defs = [_field_update(column.name) for column in value_columns]
         else:
diff --git a/pysqlsync/dialect/postgresql/generator.py b/pysqlsync/dialect/postgresql/generator.py
index 4baa8a0..07c9325 100644
--- a/pysqlsync/dialect/postgresql/generator.py
+++ b/pysqlsync/dialect/postgresql/generator.py
@@ -99,7 +99,7 @@ class PostgreSQLGenerator(BaseGenerator):
             self.placeholder(index) for index, _ in enumerate(columns, start=1)
         )
         statements.append(f"({column_list}) VALUES ({value_list})")
-        value_columns = table.get_value_columns()
+        value_columns = table.get_value_columns(order)
         keys = ", ".join(str(key) for key in table.primary_key)
         if value_columns:
             statements.append(f"ON CONFLICT ({keys}) DO UPDATE SET")
-- 
2.43.0


From 113d75520352b278a25097ca34530c513b2a6421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:20 +0000
Subject: [PATCH 31/83] fix: escape percent sign in identifiers of
 parameterized statements (MySQL)

---
 pysqlsync/dialect/mysql/generator.py | 32 +++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index 6abf193..52e4d5b 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -1,7 +1,7 @@
 import datetime
 import ipaddress
 import uuid
-from typing import Any, Callable, Optional
+from typing import Any, Callable, Optional, Union
 
 from pysqlsync.base import BaseGenerator, GeneratorOptions
 from pysqlsync.formation.inspection import is_ip_address_type
@@ -15,7 +15,7 @@ from pysqlsync.formation.py_to_sql import (
     StructMode,
 )
 from pysqlsync.model.data_types import SqlFixedBinaryType, SqlIntegerType
-from pysqlsync.model.id_types import LocalId
+from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.util.typing import override
 
 from .data_types import MySQLDateTimeType, MySQLVariableCharacterType
@@ -74,9 +74,9 @@ class MySQLGenerator(BaseGenerator):
         self, table: Table, order: Optional[tuple[str, ...]] = None
     ) -> str:
         statements: list[str] = []
-        statements.append(f"INSERT INTO {table.name}")
+        statements.append(f"INSERT INTO {_escape_format(table.name)}")
         columns = [column for column in table.get_columns(order) if not column.identity]
-        column_list = ", ".join(str(column.name) for column in columns)
+        column_list = ", ".join(_escape_format(column.name) for column in columns)
         value_list = ", ".join("%s" for column in columns)
         statements.append(f"({column_list}) VALUES ({value_list})")
         statements.append(";")
@@ -87,9 +87,9 @@ class MySQLGenerator(BaseGenerator):
         self, table: Table, order: Optional[tuple[str, ...]] = None
     ) -> str:
         statements: list[str] = []
-        statements.append(f"INSERT INTO {table.name}")
+        statements.append(f"INSERT INTO {_escape_format(table.name)}")
         columns = [column for column in table.get_columns(order) if not column.identity]
-        column_list = ", ".join(str(column.name) for column in columns)
+        column_list = ", ".join(_escape_format(column.name) for column in columns)
         value_list = ", ".join("%s" for column in columns)
         statements.append(f"({column_list}) VALUES ({value_list})")
         statements.append("ON DUPLICATE KEY UPDATE")
@@ -103,7 +103,7 @@ class MySQLGenerator(BaseGenerator):
         self, table: Table, order: Optional[tuple[str, ...]] = None
     ) -> str:
         statements: list[str] = []
-        statements.append(f"INSERT INTO {table.name}")
+        statements.append(f"INSERT INTO {_escape_format(table.name)}")
         columns = [column for column in table.get_columns(order)]
         statements.append(_field_list([column.name for column in columns]))
         statements.append("ON DUPLICATE KEY UPDATE")
@@ -116,6 +116,12 @@ class MySQLGenerator(BaseGenerator):
         statements.append(";")
         return "\n".join(statements)
 
+    @override
+    def get_table_delete_stmt(self, table: Table) -> str:
+        table_name = _escape_format(table.name)
+        column_name = _escape_format(table.get_primary_column().name)
+        return f"DELETE FROM {table_name} WHERE {column_name} = {self.placeholder(1)}"
+
     @override
     def get_field_extractor(
         self, column: Column, field_name: str, field_type: type
@@ -139,8 +145,18 @@ class MySQLGenerator(BaseGenerator):
         return super().get_value_transformer(column, field_type)
 
 
+def _escape_format(id: Union[LocalId, SupportsQualifiedId]) -> str:
+    """
+    Escapes a percent sign in an identifier.
+
+    The driver applies `%`-style string formatting to the statement, except for the part following the list of values.
+    """
+
+    return str(id).replace("%", "%%")
+
+
 def _field_list(field_ids: list[LocalId]) -> str:
-    field_list = ", ".join(str(field_id) for field_id in field_ids)
+    field_list = ", ".join(_escape_format(field_id) for field_id in field_ids)
     value_list = ", ".join("%s" for _ in field_ids)
     if False:
         # compatible with MySQL 8.0.19 and later, slow with aiomysql 0.2.0 and earlier
-- 
2.43.0


From 127d679a0ef3b02af00b34306cd82b46d24b3517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 32/83] fix: align columns with record fields when fields are
 omitted by type or generated as identity

---
 pysqlsync/base.py                          | 43 +++++++++++++++++++++-
 pysqlsync/dialect/postgresql/connection.py |  5 ++-
 pysqlsync/dialect/redshift/connection.py   |  5 ++-
 3 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 0ef6a2c..3677779 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1084,10 +1084,17 @@ class BaseContext(abc.ABC):
         Override in engine-specific derived classes.
         """
 
+        # statement omits values for identity columns
+        field_names = self._get_field_names(
+            table,
+            field_types=field_types,
+            field_names=field_names,
+            skip_identity=True,
+        )
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = tuple(name for name in field_names if name)
         statement = self.connection.generator.get_table_insert_stmt(table, order)
         await self._execute_typed(statement, record_generator, table, order)
 
@@ -1142,14 +1149,46 @@ class BaseContext(abc.ABC):
         Override in engine-specific derived classes.
         """
 
+        field_names = self._get_field_names(
+            table, field_types=field_types, field_names=field_names
+        )
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = tuple(name for name in field_names if name)
         statement = self.connection.generator.get_table_upsert_stmt(table, order)
 
         await self._execute_typed(statement, record_generator, table, order)
 
+    def _get_field_names(
+        self,
+        table: Table,
+        *,
+        field_types: tuple[type, ...],
+        field_names: Optional[tuple[str, ...]] = None,
+        skip_identity: bool = False,
+    ) -> tuple[str, ...]:
+        """
+        Returns a label for each record field such that omitted fields have an empty string.
+
+        :param table: The database table descriptor.
+        :param field_types: Type of each record field. Use `types.NoneType` to omit a field.
+        :param field_names: Label for each record field. Use an empty string for an omitted field.
+        :param skip_identity: Whether to omit fields whose value is generated by the database.
+        """
+
+        if field_names is None:
+            field_names = tuple(name for name in table.columns.keys())
+
+        names: list[str] = []
+        for field_type, field_name in zip(field_types, field_names):
+            column = table.columns.get(field_name)
+            is_omitted = field_type is type(None) or (
+                skip_identity and column is not None and column.identity
+            )
+            names.append(field_name if not is_omitted else "")
+        return tuple(names)
+
     async def _generate_records(
         self,
         table: Table,
diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index 861f016..60c73b7 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -138,10 +138,13 @@ class PostgreSQLContext(BaseContext):
         field_types: tuple[type, ...],
         field_names: Optional[tuple[str, ...]] = None,
     ) -> None:
+        field_names = self._get_field_names(
+            table, field_types=field_types, field_names=field_names
+        )
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = tuple(name for name in field_names if name)
         async for batch in record_generator.batches():
             result = await self.native_connection.copy_records_to_table(
                 schema_name=table.name.scope_id,
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 8f7b257..2f3b463 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -129,7 +129,10 @@ class RedshiftContext(BaseContext):
         field_types: tuple[type, ...],
         field_names: Optional[tuple[str, ...]] = None,
     ) -> None:
-        order = tuple(name for name in field_names if name) if field_names else None
+        field_names = self._get_field_names(
+            table, field_types=field_types, field_names=field_names
+        )
+        order = tuple(name for name in field_names if name)
         columns = [col.name for col in table.get_columns(order)]
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
-- 
2.43.0


From 37a8dfc40982f4a159fb81707cbbdbb32be118ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 33/83] fix: represent NULL and escape special characters in
 data streams (Redshift)

---
 pysqlsync/dialect/redshift/connection.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 2f3b463..4411a32 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -3,7 +3,7 @@ import logging
 import re
 import typing
 from io import BytesIO
-from typing import Iterable, Optional, TypeVar
+from typing import Any, Iterable, Optional, TypeVar
 
 import redshift_connector
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
@@ -56,6 +56,17 @@ class RedshiftConnection(BaseConnection):
         self.native.close()
 
 
+def _copy_field(value: Any) -> bytes:
+    "Formats a value for the `COPY` command with the option `ESCAPE`."
+
+    if value is None:
+        return b"\\N"
+    text = value.hex() if isinstance(value, bytes) else str(value)
+    for char in ("\\", "|", "\r", "\n"):
+        text = text.replace(char, f"\\{char}")
+    return text.encode("utf-8")
+
+
 class RedshiftContext(BaseContext):
     def __init__(self, connection: RedshiftConnection) -> None:
         super().__init__(connection)
@@ -156,11 +167,11 @@ class RedshiftContext(BaseContext):
         records: Iterable[RecordType],
     ) -> None:
         column_list = ", ".join(str(column) for column in columns)
-        copy_query = f"COPY {table_name} ({column_list}) FROM STDIN"
+        copy_query = f"COPY {table_name} ({column_list}) FROM STDIN ESCAPE"
 
         with BytesIO() as f:
             for record in records:
-                f.write(b"|".join(str(value).encode("utf-8") for value in record))
+                f.write(b"|".join(_copy_field(value) for value in record))
                 f.write(b"\n")
             stream_data = f.getvalue()
 
-- 
2.43.0


From a8da6d4d0658af1a8a48572dc33606ded3d40e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 34/83] fix: convert values whose type is optional, annotated
 or a collection to the type that the driver expects

---
 pysqlsync/base.py                       | 81 +++++++++++++++++++++----
 pysqlsync/dialect/mssql/generator.py    | 18 ++----
 pysqlsync/dialect/mysql/generator.py    | 18 ++----
 pysqlsync/dialect/oracle/generator.py   | 40 +++++-------
 pysqlsync/dialect/redshift/generator.py | 18 ++----
 5 files changed, 100 insertions(+), 75 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 3677779..1073b16 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -27,11 +27,22 @@ from typing import (
     overload,
 )
 
-from strong_typing.inspection import DataclassInstance, is_dataclass_type, is_type_enum
+from strong_typing.inspection import (
+    DataclassInstance,
+    is_dataclass_type,
+    is_generic_list,
+    is_generic_set,
+    is_type_enum,
+    is_type_union,
+    unwrap_generic_list,
+    unwrap_generic_set,
+    unwrap_union_types,
+)
 from strong_typing.name import python_type_to_str
+from strong_typing.serialization import object_to_json
 
 from .connection import ConnectionParameters
-from .formation.inspection import get_entity_types
+from .formation.inspection import get_entity_types, is_struct_type
 from .formation.mutation import Mutator, MutatorOptions
 from .formation.object_types import (
     Catalog,
@@ -42,8 +53,16 @@ from .formation.object_types import (
     Table,
 )
 from .formation.py_to_sql import ArrayMode, DataclassConverter, EnumMode, StructMode
-from .model.data_types import SqlJsonType, SqlVariableCharacterType
+from .model.data_types import (
+    SqlArrayType,
+    SqlDataType,
+    SqlEnumType,
+    SqlJsonType,
+    SqlUserDefinedType,
+    SqlVariableCharacterType,
+)
 from .model.id_types import LocalId, QualifiedId, SupportsQualifiedId
+from .model.properties import get_field_properties
 from .python_types import dataclass_to_code, module_to_code
 
 D = TypeVar("D", bound=DataclassInstance)
@@ -61,12 +80,23 @@ _JSON_ENCODER = json.JSONEncoder(
     allow_nan=False,
     indent=None,
     separators=(",", ":"),
+    default=object_to_json,
 )
 
 # number of records consumed from an asynchronous iterator before a batch is dispatched to a database
 BATCH_SIZE = 100000
 
 
+def _get_enum_transformer(data_type: SqlDataType) -> Callable[[Any], Any]:
+    "Returns a callable function object that transforms an enumeration member into the expected column type."
+
+    if isinstance(data_type, (SqlEnumType, SqlUserDefinedType)):
+        # enumeration types in SQL have text labels, even if the enumeration in Python has integer values
+        return lambda field: str(field.value)
+    else:
+        return lambda field: field.value
+
+
 class ClassRef:
     "Represents a reference to a Python class in a Python module."
 
@@ -502,26 +532,55 @@ class BaseGenerator(abc.ABC):
     ) -> Callable[[Any], Any]:
         "Returns a callable function object that extracts a single field of a data-class."
 
-        if is_type_enum(field_type):
-            return lambda obj: getattr(obj, field_name).value
-        else:
+        fn = self.get_value_transformer(column, field_type)
+        if fn is None:
             return lambda obj: getattr(obj, field_name)
 
+        transformer = fn
+
+        def _extract(obj: Any) -> Any:
+            value = getattr(obj, field_name)
+            return transformer(value) if value is not None else None
+
+        return _extract
+
     def get_value_transformer(
         self, column: Column, field_type: type
     ) -> Optional[Callable[[Any], Any]]:
         "Returns a callable function object that transforms a value type into the expected column type."
 
+        plain_type = get_field_properties(field_type).plain_type
+
         if isinstance(column.data_type, SqlJsonType) or (
             isinstance(column.data_type, SqlVariableCharacterType)
-            and (field_type is dict or field_type is list or field_type is set)
+            and (
+                (typing.get_origin(plain_type) or plain_type) in (dict, list, set)
+                or is_struct_type(plain_type)
+            )
         ):
             return lambda field: _JSON_ENCODER.encode(field)
 
-        if is_type_enum(field_type):
-            return lambda field: field.value
-        else:
-            return None
+        if is_type_enum(plain_type):
+            return _get_enum_transformer(column.data_type)
+
+        if is_type_union(plain_type) and any(
+            is_type_enum(t) for t in unwrap_union_types(plain_type)
+        ):
+            # extensible enumeration type
+            return lambda field: field.value if isinstance(field, enum.Enum) else field
+
+        if isinstance(column.data_type, SqlArrayType):
+            if is_generic_list(plain_type):
+                element_type = unwrap_generic_list(plain_type)
+            elif is_generic_set(plain_type):
+                element_type = unwrap_generic_set(plain_type)
+            else:
+                return None
+            if is_type_enum(element_type):
+                fn = _get_enum_transformer(column.data_type.element_type)
+                return lambda field: [fn(item) for item in field]
+
+        return None
 
     def get_enum_transformer(self, enum_dict: dict[str, int]) -> Callable[[Any], Any]:
         "Returns a callable function object that looks up an assigned integer value based on the enumeration string value."
diff --git a/pysqlsync/dialect/mssql/generator.py b/pysqlsync/dialect/mssql/generator.py
index bde52b6..0b229ed 100644
--- a/pysqlsync/dialect/mssql/generator.py
+++ b/pysqlsync/dialect/mssql/generator.py
@@ -1,5 +1,6 @@
 import datetime
 import ipaddress
+import typing
 import uuid
 from typing import Any, Callable, Optional
 
@@ -17,6 +18,7 @@ from pysqlsync.formation.py_to_sql import (
     StructMode,
 )
 from pysqlsync.model.data_types import SqlFixedBinaryType
+from pysqlsync.model.properties import get_field_properties
 from pysqlsync.util.typing import override
 
 from .data_types import MSSQLBooleanType, MSSQLDateTimeType, MSSQLVariableCharacterType
@@ -71,24 +73,14 @@ class MSSQLGenerator(BaseGenerator):
     def placeholder(self, index: int) -> str:
         return "?"
 
-    @override
-    def get_field_extractor(
-        self, column: Column, field_name: str, field_type: type
-    ) -> Callable[[Any], Any]:
-        if field_type is uuid.UUID:
-            return lambda obj: getattr(obj, field_name).bytes
-        elif is_ip_address_type(field_type):
-            return lambda obj: getattr(obj, field_name).packed
-
-        return super().get_field_extractor(column, field_name, field_type)
-
     @override
     def get_value_transformer(
         self, column: Column, field_type: type
     ) -> Optional[Callable[[Any], Any]]:
-        if field_type is uuid.UUID:
+        plain_type = typing.cast(type, get_field_properties(field_type).plain_type)
+        if plain_type is uuid.UUID:
             return lambda field: field.bytes
-        elif is_ip_address_type(field_type):
+        elif is_ip_address_type(plain_type):
             return lambda field: field.packed
 
         return super().get_value_transformer(column, field_type)
diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index 52e4d5b..95a5de3 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -1,5 +1,6 @@
 import datetime
 import ipaddress
+import typing
 import uuid
 from typing import Any, Callable, Optional, Union
 
@@ -16,6 +17,7 @@ from pysqlsync.formation.py_to_sql import (
 )
 from pysqlsync.model.data_types import SqlFixedBinaryType, SqlIntegerType
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
+from pysqlsync.model.properties import get_field_properties
 from pysqlsync.util.typing import override
 
 from .data_types import MySQLDateTimeType, MySQLVariableCharacterType
@@ -122,24 +124,14 @@ class MySQLGenerator(BaseGenerator):
         column_name = _escape_format(table.get_primary_column().name)
         return f"DELETE FROM {table_name} WHERE {column_name} = {self.placeholder(1)}"
 
-    @override
-    def get_field_extractor(
-        self, column: Column, field_name: str, field_type: type
-    ) -> Callable[[Any], Any]:
-        if field_type is uuid.UUID:
-            return lambda obj: getattr(obj, field_name).bytes
-        elif is_ip_address_type(field_type):
-            return lambda obj: getattr(obj, field_name).packed
-
-        return super().get_field_extractor(column, field_name, field_type)
-
     @override
     def get_value_transformer(
         self, column: Column, field_type: type
     ) -> Optional[Callable[[Any], Any]]:
-        if field_type is uuid.UUID:
+        plain_type = typing.cast(type, get_field_properties(field_type).plain_type)
+        if plain_type is uuid.UUID:
             return lambda field: field.bytes
-        elif is_ip_address_type(field_type):
+        elif is_ip_address_type(plain_type):
             return lambda field: field.packed
 
         return super().get_value_transformer(column, field_type)
diff --git a/pysqlsync/dialect/oracle/generator.py b/pysqlsync/dialect/oracle/generator.py
index 9a16b89..93ad032 100644
--- a/pysqlsync/dialect/oracle/generator.py
+++ b/pysqlsync/dialect/oracle/generator.py
@@ -1,5 +1,6 @@
 import datetime
 import ipaddress
+import typing
 import uuid
 from typing import Any, Callable, Optional
 
@@ -18,6 +19,7 @@ from pysqlsync.formation.py_to_sql import (
     NamespaceMapping,
     StructMode,
 )
+from pysqlsync.model.properties import get_field_properties
 from pysqlsync.util.typing import override
 
 from .data_types import (
@@ -33,6 +35,14 @@ MIN_DATETIME = datetime.datetime.min.replace(tzinfo=datetime.timezone.utc)
 MIN_DATE = datetime.date.min
 
 
+def _time_to_interval(value: datetime.time) -> datetime.timedelta:
+    "Converts a time of day into the time elapsed since midnight."
+
+    if value.tzinfo is None:
+        value = value.replace(tzinfo=datetime.timezone.utc)
+    return datetime.datetime.combine(MIN_DATE, value) - MIN_DATETIME
+
+
 class OracleGenerator(BaseGenerator):
     "Generator for Oracle."
 
@@ -85,36 +95,16 @@ class OracleGenerator(BaseGenerator):
     def placeholder(self, index: int) -> str:
         return f":{index}"
 
-    @override
-    def get_field_extractor(
-        self, column: Column, field_name: str, field_type: type
-    ) -> Callable[[Any], Any]:
-        if field_type is uuid.UUID:
-            return lambda obj: getattr(obj, field_name).bytes
-        elif is_ip_address_type(field_type):
-            return lambda obj: getattr(obj, field_name).packed
-        elif field_type is datetime.time:
-            return (
-                lambda obj: datetime.datetime.combine(
-                    MIN_DATE, getattr(obj, field_name)
-                )
-                - MIN_DATETIME
-            )
-
-        return super().get_field_extractor(column, field_name, field_type)
-
     @override
     def get_value_transformer(
         self, column: Column, field_type: type
     ) -> Optional[Callable[[Any], Any]]:
-        if field_type is uuid.UUID:
+        plain_type = typing.cast(type, get_field_properties(field_type).plain_type)
+        if plain_type is uuid.UUID:
             return lambda field: field.bytes
-        elif is_ip_address_type(field_type):
+        elif is_ip_address_type(plain_type):
             return lambda field: field.packed
-        elif field_type is datetime.time:
-            return (
-                lambda field: datetime.datetime.combine(datetime.date.min, field)
-                - datetime.datetime.min
-            )
+        elif plain_type is datetime.time:
+            return _time_to_interval
 
         return super().get_value_transformer(column, field_type)
diff --git a/pysqlsync/dialect/redshift/generator.py b/pysqlsync/dialect/redshift/generator.py
index 3a1a2cc..ece999c 100644
--- a/pysqlsync/dialect/redshift/generator.py
+++ b/pysqlsync/dialect/redshift/generator.py
@@ -1,4 +1,5 @@
 import ipaddress
+import typing
 import uuid
 from typing import Any, Callable, Optional
 
@@ -16,6 +17,7 @@ from pysqlsync.formation.py_to_sql import (
     StructMode,
 )
 from pysqlsync.model.data_types import SqlVariableCharacterType
+from pysqlsync.model.properties import get_field_properties
 from pysqlsync.util.typing import override
 
 from ..postgresql.mutation import PostgreSQLMutator
@@ -63,24 +65,14 @@ class RedshiftGenerator(BaseGenerator):
     def placeholder(self, index: int) -> str:
         return f":{index}"
 
-    @override
-    def get_field_extractor(
-        self, column: Column, field_name: str, field_type: type
-    ) -> Callable[[Any], Any]:
-        if field_type is uuid.UUID:
-            return lambda obj: getattr(obj, field_name).bytes
-        elif is_ip_address_type(field_type):
-            return lambda obj: getattr(obj, field_name).packed
-
-        return super().get_field_extractor(column, field_name, field_type)
-
     @override
     def get_value_transformer(
         self, column: Column, field_type: type
     ) -> Optional[Callable[[Any], Any]]:
-        if field_type is uuid.UUID:
+        plain_type = typing.cast(type, get_field_properties(field_type).plain_type)
+        if plain_type is uuid.UUID:
             return lambda field: field.bytes
-        elif is_ip_address_type(field_type):
+        elif is_ip_address_type(plain_type):
             return lambda field: field.packed
 
         return super().get_value_transformer(column, field_type)
-- 
2.43.0


From 9cf0c02a183a6e0f155c35245f4c1851cc24a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 35/83] fix: translate enumeration values of objects to lookup
 table keys; recognize enumeration types and NULL lists in rows

---
 pysqlsync/base.py                          | 116 ++++++++++++++++-----
 pysqlsync/dialect/postgresql/connection.py |  25 ++---
 pysqlsync/dialect/redshift/connection.py   |   8 +-
 3 files changed, 105 insertions(+), 44 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 1073b16..c4d5af5 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -670,6 +670,12 @@ class ScalarTransformer(RecordTransformer):
         return self.fn
 
 
+def _get_label(value: Any) -> Any:
+    "Returns the text with which a value of an enumeration type is registered in a lookup table."
+
+    return value.value if isinstance(value, enum.Enum) else value
+
+
 class BaseEnumTransformer(RecordTransformer):
     context: "BaseContext"
     table: Table
@@ -720,10 +726,11 @@ class EnumTransformer(BaseEnumTransformer):
         # a single enumeration value represented as a string
         values: set[Optional[str]] = set()
         for record in records:
-            values.add(record[self.index])
+            values.add(_get_label(record[self.index]))
         values.discard(None)  # do not insert NULL into referenced table
         enum_dict = await self._merge_lookup_table(typing.cast(set[str], values))
-        return self.generator.get_enum_transformer(enum_dict)
+        fn = self.generator.get_enum_transformer(enum_dict)
+        return lambda field: fn(_get_label(field))
 
 
 class EnumListTransformer(BaseEnumTransformer):
@@ -737,10 +744,11 @@ class EnumListTransformer(BaseEnumTransformer):
         # a list of enumeration values represented as a list of strings
         values: set[Optional[str]] = set()
         for record in records:
-            values.update(record[self.index])
+            values.update(_get_label(item) for item in record[self.index] or ())
         values.discard(None)  # do not insert NULL into referenced table
         enum_list_dict = await self._merge_lookup_table(typing.cast(set[str], values))
-        return self.generator.get_enum_list_transformer(enum_list_dict)
+        fn = self.generator.get_enum_list_transformer(enum_list_dict)
+        return lambda field: fn([_get_label(item) for item in field])
 
 
 class DataSource:
@@ -888,10 +896,12 @@ class SelectorTransformerDataSource(CompositeDataSource):
             ]
 
 
-def to_data_source(records: RecordSource) -> DataSource:
+def to_data_source(records: Union[RecordSource, DataSource]) -> DataSource:
     "Converts a synchronous or asynchronous iterable of records into a data source."
 
-    if isinstance(records, Iterable):
+    if isinstance(records, DataSource):
+        return records
+    elif isinstance(records, Iterable):
         return IterableDataSource(records)
     elif isinstance(records, AsyncIterable):
         return AsyncIterableDataSource(records)
@@ -929,7 +939,9 @@ class BaseContext(abc.ABC):
 
         ...
 
-    async def execute_all(self, statement: str, records: RecordSource) -> None:
+    async def execute_all(
+        self, statement: str, records: Union[RecordSource, DataSource]
+    ) -> None:
         "Executes a SQL statement with several records of data."
 
         if not statement:
@@ -1068,8 +1080,8 @@ class BaseContext(abc.ABC):
 
         generator = self.connection.generator
         statement = generator.get_dataclass_insert_stmt(table)
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
-        await self.execute_all(statement, records)
+        source = self._generate_dataclass_records(table, data, skip_identity=True)
+        await self.execute_all(statement, source)
 
     async def upsert_data(self, table: type[D], data: Iterable[D]) -> None:
         "Inserts or updates data in the database table corresponding to the dataclass type."
@@ -1080,8 +1092,46 @@ class BaseContext(abc.ABC):
 
         generator = self.connection.generator
         statement = generator.get_dataclass_upsert_stmt(table)
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=False)
-        await self.execute_all(statement, records)
+        source = self._generate_dataclass_records(table, data, skip_identity=False)
+        await self.execute_all(statement, source)
+
+    def _generate_dataclass_records(
+        self, entity_type: type[D], data: Iterable[D], *, skip_identity: bool
+    ) -> DataSource:
+        """
+        Creates a record generator for objects of a data-class type.
+
+        :param entity_type: The data-class type that corresponds to a database table.
+        :param data: The objects to insert or update.
+        :param skip_identity: Whether to omit fields whose value is generated by the database.
+        """
+
+        generator = self.connection.generator
+        table = self.get_table(entity_type)
+        source = IterableDataSource(
+            generator.get_dataclasses_as_records(
+                entity_type, data, skip_identity=skip_identity
+            )
+        )
+
+        transformers: list[RecordTransformer] = []
+        has_labels = False
+        for field in dataclasses.fields(entity_type):
+            column = table.columns[field.name]
+            if skip_identity and column.identity:
+                continue
+
+            transformer = self._get_label_transformer(
+                table,
+                generator,
+                len(transformers),
+                typing.cast(type, field.type),
+                column,
+            )
+            has_labels = has_labels or transformer is not None
+            transformers.append(transformer or ScalarTransformer(None))
+
+        return TransformerDataSource(source, transformers) if has_labels else source
 
     async def delete_data(
         self, table: type[DataclassInstance], keys: Iterable[Any]
@@ -1323,34 +1373,44 @@ class BaseContext(abc.ABC):
                 f"column {LocalId(field_name)} not found in table {table.name}"
             )
 
-        transformer = generator.get_value_transformer(column, field_type)
+        return self._get_label_transformer(
+            table, generator, index, field_type, column
+        ) or ScalarTransformer(generator.get_value_transformer(column, field_type))
+
+    def _get_label_transformer(
+        self,
+        table: Table,
+        generator: BaseGenerator,
+        index: int,
+        field_type: type,
+        column: Column,
+    ) -> Optional[RecordTransformer]:
+        "Creates a transformer for a record field whose text labels correspond to keys in a lookup table (if any)."
 
         if not table.is_relation(column):
-            return ScalarTransformer(transformer)
+            return None
         relation = generator.state.get_referenced_table(table.name, column.name)
         if not relation.is_lookup_table():
-            return ScalarTransformer(transformer)
+            return None
 
         LOGGER.debug(
             "found lookup table column %s in table %s", column.name, table.name
         )
 
-        if field_type is str:
-            return EnumTransformer(
-                self,
-                relation,
-                generator,
-                index,
-            )
-        elif field_type is list or field_type is set:
-            return EnumListTransformer(
-                self,
-                relation,
-                generator,
-                index,
+        plain_type = get_field_properties(field_type).plain_type
+        if (
+            plain_type is str
+            or is_type_enum(plain_type)
+            or (
+                is_type_union(plain_type)
+                and any(is_type_enum(t) for t in unwrap_union_types(plain_type))
             )
+        ):
+            return EnumTransformer(self, relation, generator, index)
+        elif (typing.get_origin(plain_type) or plain_type) in (list, set):
+            return EnumListTransformer(self, relation, generator, index)
         else:
-            return ScalarTransformer(transformer)
+            return None
 
     async def delete_rows(
         self, table: Table, key_type: type, key_values: Iterable[Any]
diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index 60c73b7..e36a4c7 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -116,18 +116,19 @@ class PostgreSQLContext(BaseContext):
             raise TypeError(f"expected dataclass type, got: {table}")
         generator = self.connection.generator
         table_name = generator.get_qualified_id(ClassRef(table))
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
-        result = await self.native_connection.copy_records_to_table(
-            schema_name=table_name.scope_id,
-            table_name=table_name.local_id,
-            columns=tuple(
-                field.name
-                for field in dataclasses.fields(table)
-                if not is_identity_type(field.type)
-            ),
-            records=records,
-        )
-        LOGGER.debug(result)
+        source = self._generate_dataclass_records(table, data, skip_identity=True)
+        async for batch in source.batches():
+            result = await self.native_connection.copy_records_to_table(
+                schema_name=table_name.scope_id,
+                table_name=table_name.local_id,
+                columns=tuple(
+                    field.name
+                    for field in dataclasses.fields(table)
+                    if not is_identity_type(field.type)
+                ),
+                records=batch,
+            )
+            LOGGER.debug(result)
 
     @override
     async def _insert_rows(
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 4411a32..64e86de 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -117,8 +117,7 @@ class RedshiftContext(BaseContext):
                 return resultset_unwrap_tuple(signature, records)
 
     @override
-    @thread_dispatch
-    def insert_data(self, table: type[D], data: Iterable[D]) -> None:
+    async def insert_data(self, table: type[D], data: Iterable[D]) -> None:
         if not is_dataclass_type(table):
             raise TypeError(f"expected dataclass type, got: {table}")
         generator = self.connection.generator
@@ -128,8 +127,9 @@ class RedshiftContext(BaseContext):
             for field in dataclasses.fields(table)
             if not is_identity_type(field.type)
         ]
-        records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
-        self._insert_copy_stream(table_name, columns, records)
+        source = self._generate_dataclass_records(table, data, skip_identity=True)
+        async for batch in source.batches():
+            await self._insert_copy_stream_async(table_name, columns, batch)
 
     @override
     async def _insert_rows(
-- 
2.43.0


From 3c01939f30a218aa5f699ac31ba9555f3563c515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:19 +0000
Subject: [PATCH 36/83] fix: convert keys of objects to delete to the type that
 the driver expects

---
 pysqlsync/base.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index c4d5af5..0da124f 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1144,7 +1144,21 @@ class BaseContext(abc.ABC):
 
         generator = self.connection.generator
         statement = generator.get_dataclass_delete_stmt(table)
-        await self.execute_all(statement, ((key,) for key in keys))
+
+        column = self.get_table(table).get_primary_column()
+        key_type = next(
+            field.type
+            for field in dataclasses.fields(table)
+            if field.name == column.name.local_id
+        )
+        transformer = generator.get_value_transformer(
+            column, typing.cast(type, key_type)
+        )
+        if transformer is not None:
+            source = IterableDataSource((transformer(key),) for key in keys)
+        else:
+            source = IterableDataSource((key,) for key in keys)
+        await self.execute_all(statement, source)
 
     async def insert_rows(
         self,
-- 
2.43.0


From 558e256bd135715fe3287677c96955dc7337f4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:19 +0000
Subject: [PATCH 37/83] fix: recognize fixed-width types by equality, and store
 unsigned integers in a type that has their range

---
 pysqlsync/formation/py_to_sql.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index ef3a4e0..eac1405 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -371,40 +371,40 @@ class DataclassConverter:
             return SqlIntegerType(8)
         if typ is float:
             return SqlDoubleType()
-        if typ is int8:
+        if typ == int8:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("int1"))
             else:
                 return SqlIntegerType(2)
-        if typ is int16:
+        if typ == int16:
             return SqlIntegerType(2)
-        if typ is int32:
+        if typ == int32:
             return SqlIntegerType(4)
-        if typ is int64:
+        if typ == int64:
             return SqlIntegerType(8)
-        if typ is uint8:
+        if typ == uint8:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint1"))
             else:
                 return SqlIntegerType(2)
-        if typ is uint16:
+        if typ == uint16:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint2"))
             else:
-                return SqlIntegerType(2)
-        if typ is uint32:
+                return SqlIntegerType(4)
+        if typ == uint32:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint4"))
             else:
-                return SqlIntegerType(4)
-        if typ is uint64:
+                return SqlIntegerType(8)
+        if typ == uint64:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint8"))
             else:
                 return SqlIntegerType(8)
-        if typ is float32:
+        if typ == float32:
             return SqlRealType()
-        if typ is float64:
+        if typ == float64:
             return SqlDoubleType()
         if typ is str:
             return SqlVariableCharacterType()
-- 
2.43.0


From b5e845b87e538fee59348430bdb668833ca734be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 38/83] fix: announce the type of floating-point columns to the
 driver (Oracle)

---
 pysqlsync/dialect/oracle/data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/data_types.py b/pysqlsync/dialect/oracle/data_types.py
index edf671e..fd4043f 100644
--- a/pysqlsync/dialect/oracle/data_types.py
+++ b/pysqlsync/dialect/oracle/data_types.py
@@ -7,6 +7,7 @@ from pysqlsync.model.data_types import (
     SqlDecimalType,
     SqlDoubleType,
     SqlFixedCharacterType,
+    SqlFloatType,
     SqlIntegerType,
     SqlRealType,
     SqlTimestampType,
@@ -70,7 +71,7 @@ def sql_to_oracle_type(cur: oracledb.Cursor, data_type: SqlDataType) -> oracledb
         return cur.var(oracledb.DB_TYPE_BOOLEAN)
     elif isinstance(data_type, SqlRealType):
         return cur.var(oracledb.DB_TYPE_BINARY_FLOAT)
-    elif isinstance(data_type, SqlDoubleType):
+    elif isinstance(data_type, (SqlDoubleType, SqlFloatType)):
         return cur.var(oracledb.DB_TYPE_BINARY_DOUBLE)
     elif isinstance(data_type, SqlIntegerType):
         if data_type.width > 4:
-- 
2.43.0


From 7f84022246b7568771712fbfce2b15d3de12c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 39/83] fix: split scripts into statements at boundaries only
 (Oracle, Redshift, Trino)

---
 pysqlsync/dialect/oracle/connection.py   |  18 ++--
 pysqlsync/dialect/redshift/connection.py |   5 +-
 pysqlsync/dialect/trino/connection.py    |  11 ++-
 pysqlsync/util/script.py                 | 110 +++++++++++++++++++++++
 4 files changed, 127 insertions(+), 17 deletions(-)
 create mode 100644 pysqlsync/util/script.py

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index a438d76..19e1fe3 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -1,5 +1,4 @@
 import logging
-import re
 import typing
 from typing import Iterable, Optional, TypeVar
 
@@ -18,6 +17,7 @@ from pysqlsync.model.data_types import escape_like
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.resultset import resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
+from pysqlsync.util.script import split_statements
 from pysqlsync.util.typing import override
 
 from .data_types import sql_to_oracle_type
@@ -70,15 +70,11 @@ class OracleContext(BaseContext):
     @thread_dispatch
     def _execute(self, statement: str) -> None:
         with self.native_connection.cursor() as cur:
-            if statement.startswith("BEGIN"):
-                cur.execute(statement)
-            else:
-                statement = statement.rstrip("\r\n\t\v ;")
-                for s in re.split(r";$", statement, flags=re.MULTILINE):
-                    try:
-                        cur.execute(s)
-                    except Exception as e:
-                        raise QueryException(s) from e
+            for s in split_statements(statement, procedural=True):
+                try:
+                    cur.execute(s)
+                except Exception as e:
+                    raise QueryException(s) from e
 
     @override
     async def _execute_all(self, statement: str, source: DataSource) -> None:
@@ -126,7 +122,7 @@ class OracleContext(BaseContext):
     @thread_dispatch
     def _query_all(self, signature: type[T], statement: str) -> list[T]:
         with self.native_connection.cursor() as cur:
-            cur.execute(statement)
+            cur.execute(statement.rstrip("\r\n\t\v ;"))
             if is_dataclass_type(signature):
                 # identifiers that are not quoted are reported in upper case
                 fields = {name.lower(): name for name in signature.__dataclass_fields__}
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 64e86de..a2fd8b2 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -1,6 +1,5 @@
 import dataclasses
 import logging
-import re
 import typing
 from io import BytesIO
 from typing import Any, Iterable, Optional, TypeVar
@@ -21,6 +20,7 @@ from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
 from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
+from pysqlsync.util.script import split_statements
 from pysqlsync.util.typing import override
 
 D = TypeVar("D", bound=DataclassInstance)
@@ -82,8 +82,7 @@ class RedshiftContext(BaseContext):
             # The library `redshift_connector` executes all statements as prepared statements, which locks out
             # the possibility to execute multiple statements in one go. We artificially split SQL scripts into
             # multiple statements to work around this limitation in the connector.
-            statement = statement.rstrip("\r\n\t\v ;")
-            for s in re.split(r";$", statement, flags=re.MULTILINE):
+            for s in split_statements(statement, dollar_quotes=True):
                 try:
                     cursor.execute(s)
                 except Exception as e:
diff --git a/pysqlsync/dialect/trino/connection.py b/pysqlsync/dialect/trino/connection.py
index 78ecb0d..7a864ea 100644
--- a/pysqlsync/dialect/trino/connection.py
+++ b/pysqlsync/dialect/trino/connection.py
@@ -4,9 +4,10 @@ from typing import Iterable, Optional, TypeVar
 import aiotrino
 from strong_typing.inspection import is_dataclass_type
 
-from pysqlsync.base import BaseConnection, BaseContext, DataSource
+from pysqlsync.base import BaseConnection, BaseContext, DataSource, QueryException
 from pysqlsync.formation.object_types import Table
 from pysqlsync.resultset import resultset_unwrap_tuple
+from pysqlsync.util.script import split_statements
 from pysqlsync.util.typing import override
 
 T = TypeVar("T")
@@ -45,7 +46,11 @@ class TrinoContext(BaseContext):
     @override
     async def _execute(self, statement: str) -> None:
         cur = await self.native_connection.cursor()
-        await cur.execute(statement)
+        for s in split_statements(statement):
+            try:
+                await cur.execute(s)
+            except Exception as e:
+                raise QueryException(s) from e
 
     @override
     async def _execute_all(self, statement: str, source: DataSource) -> None:
@@ -57,7 +62,7 @@ class TrinoContext(BaseContext):
             raise NotImplementedError()
 
         cur = await self.native_connection.cursor()
-        await cur.execute(statement)
+        await cur.execute(statement.rstrip("\r\n\t\v ;"))
         records = await cur.fetchall()
         return resultset_unwrap_tuple(signature, records)
 
diff --git a/pysqlsync/util/script.py b/pysqlsync/util/script.py
new file mode 100644
index 0000000..1488a8f
--- /dev/null
+++ b/pysqlsync/util/script.py
@@ -0,0 +1,110 @@
+"""
+Utility functions for SQL scripts.
+"""
+
+import re
+
+# string literal, quoted identifier, comments, beginning of a dollar-quoted literal, statement terminator or word
+_TOKEN = re.compile(
+    r"""'[^']*(?:'|$)|"[^"]*(?:"|$)|--[^\r\n]*|/\*.*?(?:\*/|$)|\$\w*\$|;|\w+""",
+    re.DOTALL,
+)
+
+_BLOCK_OBJECTS = ("PROCEDURE", "FUNCTION", "TRIGGER", "PACKAGE", "TYPE")
+_BLOCK_MODIFIERS = ("OR", "REPLACE", "EDITIONABLE", "NONEDITIONABLE")
+
+
+def _is_block(words: list[str]) -> bool:
+    "True if the words that a statement starts with introduce a procedural block."
+
+    if words[0] in ("BEGIN", "DECLARE"):
+        return True
+    if words[0] != "CREATE":
+        return False
+    words = [word for word in words[1:] if word not in _BLOCK_MODIFIERS]
+    if words[:1] == ["TYPE"]:
+        return words[1:2] == ["BODY"]
+    return words[:1] != [] and words[0] in _BLOCK_OBJECTS
+
+
+def split_statements(
+    script: str, *, procedural: bool = False, dollar_quotes: bool = False
+) -> list[str]:
+    """
+    Splits a SQL script into statements.
+
+    A semicolon in a string literal, a quoted identifier, a comment or a procedural block does not end a statement.
+    Statements are returned without a terminating semicolon, except for procedural blocks, of which it is a part.
+
+    :param procedural: Whether to recognize procedural blocks (PL/SQL).
+    :param dollar_quotes: Whether to recognize dollar-quoted literals.
+    """
+
+    statements: list[str] = []
+    start = 0  # start position of the current statement
+    empty = True  # if there are only comments in the current statement
+    words: list[str] = []  # leading words of the current statement
+    block = False  # if the current statement has a procedural block
+    opened = False  # if the body of the block has begun
+    depth = 0  # nesting level of blocks
+    last = ""  # most recent word
+
+    position = 0
+    while True:
+        match = _TOKEN.search(script, position)
+        if match is None:
+            break
+        token = match.group()
+        position = match.end()
+
+        if token.startswith("--") or token.startswith("/*"):
+            continue
+
+        if token == ";":
+            if block and (depth > 0 or not opened):
+                last = token
+                continue
+            if not empty:
+                end = match.end() if block else match.start()
+                statements.append(script[start:end].strip())
+            start = match.end()
+            empty = True
+            words = []
+            block = opened = False
+            depth = 0
+            last = ""
+            continue
+
+        empty = False
+        if token.startswith("$"):
+            if dollar_quotes:
+                end = script.find(token, position)
+                position = end + len(token) if end >= 0 else len(script)
+            continue
+        if not procedural or token.startswith("'") or token.startswith('"'):
+            last = token
+            continue
+
+        word = token.upper()
+        if not block and len(words) < 6:
+            words.append(word)
+            block = _is_block(words)
+            if block and word in ("PACKAGE", "BODY"):
+                # ends with a closing keyword even if there are no statements in the package or type body
+                depth = 1
+                opened = True
+        if block:
+            if word == "BEGIN":
+                depth += 1
+                opened = True
+            elif word == "CASE" and last != "END":
+                depth += 1
+            elif word == "END":
+                depth -= 1
+            elif word in ("IF", "LOOP") and last == "END":
+                depth += 1
+        last = word
+
+    if not empty:
+        statements.append(script[start:].strip())
+    return statements
-- 
2.43.0


From 0fac46162aff8b9273050c5bbf606e8240686f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 40/83] fix: run all statements of a script and report their
 errors (MSSQL)

---
 pysqlsync/dialect/mssql/connection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index 8453769..9e98562 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -96,6 +96,9 @@ class MSSQLContext(BaseContext):
     def _execute(self, statement: str) -> None:
         with self.native_connection.cursor() as cur:
             cur.execute(statement)
+            # run statements that follow a statement that produces a result or a row count
+            while cur.nextset():
+                pass
 
     @override
     async def _execute_all(self, statement: str, source: DataSource) -> None:
-- 
2.43.0


From dcd0c9277ec1e80c4fb3e8a86843dac943f22ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 41/83] fix: restore the assumed state of the database if a
 statement fails

---
 pysqlsync/base.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 0da124f..0834c4c 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1059,17 +1059,36 @@ class BaseContext(abc.ABC):
         "Creates tables, structs, enumerations, constraints, etc. corresponding to entity class definitions."
 
         generator = self.connection.generator
+        state = generator.state
         statement = generator.create(tables=tables)
-        if statement:
-            await self.execute(statement)
+        await self._execute_transition(statement, state)
 
     async def drop_objects(self) -> None:
         "Drops all objects currently synced with the generator. (This function is mainly for unit tests.)"
 
         generator = self.connection.generator
+        state = generator.state
         statement = generator.drop()
-        if statement:
+        await self._execute_transition(statement, state)
+
+    async def _execute_transition(
+        self, statement: Optional[str], state: Catalog
+    ) -> None:
+        """
+        Executes a statement that takes the database into the state assumed by the generator.
+
+        :param statement: The statement to execute (if any).
+        :param state: The state to restore if the statement fails.
+        """
+
+        if not statement:
+            return
+
+        try:
             await self.execute(statement)
+        except BaseException:
+            self.connection.generator.state = state
+            raise
 
     async def insert_data(self, table: type[D], data: Iterable[D]) -> None:
         "Inserts data in the database table corresponding to the dataclass type."
-- 
2.43.0


From a2625605886c53574b09157adeba17afe30a2f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:18 +0000
Subject: [PATCH 42/83] fix: drop constraints of Oracle tables one statement at
 a time

---
 pysqlsync/formation/object_types.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 429a648..b715881 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -567,12 +567,8 @@ class Table(DatabaseObject, QualifiedObject):
 
     def drop_constraints_stmt(self) -> Optional[str]:
         if self.table_constraints:
-            return (
-                f"ALTER TABLE {self.name}\n"
-                + ",\n".join(
-                    f"DROP CONSTRAINT {c.name}" for c in self.table_constraints
-                )
-                + "\n;"
+            return self.alter_table_stmt(
+                [f"DROP CONSTRAINT {c.name}" for c in self.table_constraints]
             )
         else:
             return None
-- 
2.43.0


From d39dc01f10f50d8d235b16fdafd53d91ded9b076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:18 +0000
Subject: [PATCH 43/83] fix: drop namespaces in reverse order of reference

---
 pysqlsync/formation/mutation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 35a5c75..5cdd657 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -365,7 +365,8 @@ class Mutator:
         # remove old constraints
         statements.extend(namespace.drop_constraints_stmt() for namespace in ns_drop)
         if self.options.allow_drop_namespace:
-            # drop objects in each namespace removed
+            # drop objects in each namespace removed, starting with namespaces that no other namespace refers to
+            ns_drop.reverse()
             statements.extend(namespace.drop_objects_stmt() for namespace in ns_drop)
 
             # drop old namespaces
-- 
2.43.0


From 7f7e06221813ac473a193e62055d3d8b8f04ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:45 +0000
Subject: [PATCH 44/83] fix: replace the default value of a column that changes
 type (MSSQL)

---
 pysqlsync/dialect/mssql/mutation.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/dialect/mssql/mutation.py b/pysqlsync/dialect/mssql/mutation.py
index 5f49fe8..a8028e2 100644
--- a/pysqlsync/dialect/mssql/mutation.py
+++ b/pysqlsync/dialect/mssql/mutation.py
@@ -30,25 +30,34 @@ class MSSQLMutator(Mutator):
     def mutate_table_stmt(self, source: Table, target: Table) -> Optional[str]:
         statements = StatementList()
 
-        constraints: list[str] = []
+        # a column that is associated with a default definition cannot change type
+        drop_defaults: list[str] = []
+        add_defaults: list[str] = []
         common_columns = source.columns.intersection(target.columns)
         for source_column, target_column in common_columns:
             source_def = source_column.default
             target_def = target_column.default
 
-            if source_def == target_def:
+            if (
+                source_def == target_def
+                and source_column.data_type == target_column.data_type
+            ):
                 continue
 
             name = typing.cast(MSSQLColumn, source_column).default_constraint_name()
             if source_def is not None:
-                constraints.append(f"DROP CONSTRAINT {name}")
+                drop_defaults.append(f"DROP CONSTRAINT {name}")
             if target_def is not None:
-                constraints.append(
+                add_defaults.append(
                     f"ADD CONSTRAINT {name} DEFAULT {target_def} FOR {source_column.name}"
                 )
 
-        if constraints:
-            statements.append(source.alter_table_stmt(constraints))
+        if drop_defaults:
+            statements.append(source.alter_table_stmt(drop_defaults))
 
         statements.append(super().mutate_table_stmt(source, target))
+
+        if add_defaults:
+            statements.append(source.alter_table_stmt(add_defaults))
+
         return join_or_none(statements)
-- 
2.43.0


From 5c12f608db6b3ecd5d5be4fb3968c071d2d1c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:45 +0000
Subject: [PATCH 45/83] fix: remove the identity property of a column before it
 may accept NULL or have a default value

---
 pysqlsync/formation/mutation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 5cdd657..bc0a2c9 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -138,6 +138,10 @@ class Mutator:
         if source.data_type != target.data_type:
             statements.append(f"SET DATA TYPE {target.data_type}")
 
+        # an identity column has neither a default value nor accepts NULL
+        if source.identity and not target.identity:
+            statements.append("DROP IDENTITY")
+
         if source.nullable and not target.nullable:
             statements.append("SET NOT NULL")
         elif not source.nullable and target.nullable:
@@ -148,9 +152,7 @@ class Mutator:
         elif source.default != target.default:
             statements.append(f"SET DEFAULT {target.default}")
 
-        if source.identity and not target.identity:
-            statements.append("DROP IDENTITY")
-        elif not source.identity and target.identity:
+        if not source.identity and target.identity:
             statements.append("ADD GENERATED BY DEFAULT AS IDENTITY")
 
         if statements:
-- 
2.43.0


From c9db3562e3e218e6c3f8634dec803de3850562f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 46/83] fix: write the clauses that change an Oracle column in
 order, and refuse to add an identity property

---
 pysqlsync/dialect/oracle/mutation.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/dialect/oracle/mutation.py b/pysqlsync/dialect/oracle/mutation.py
index 31a0dc1..ce17c17 100644
--- a/pysqlsync/dialect/oracle/mutation.py
+++ b/pysqlsync/dialect/oracle/mutation.py
@@ -2,7 +2,7 @@ import typing
 from typing import Optional
 
 from pysqlsync.formation.mutation import Mutator
-from pysqlsync.formation.object_types import Column
+from pysqlsync.formation.object_types import Column, ColumnFormationError
 
 from .object_types import OracleColumn
 
@@ -14,10 +14,23 @@ class OracleMutator(Mutator):
         source = typing.cast(OracleColumn, source_column)
         target = typing.cast(OracleColumn, target_column)
 
+        if not source.identity and target.identity:
+            raise ColumnFormationError(
+                "operation not permitted; cannot add identity property",
+                source.name,
+            )
+
         changes: list[str] = []
         if source.data_type != target.data_type:
             changes.append(str(target.data_type))
-        if source.default != target.default:
+        if source.identity and not target.identity:
+            if target.default is not None:
+                raise ColumnFormationError(
+                    "operation not permitted; cannot replace identity property with a default value",
+                    source.name,
+                )
+            changes.append("DROP IDENTITY")
+        elif source.default != target.default:
             if target.default is not None:
                 changes.append(f"DEFAULT {target.default_expr}")
             else:
@@ -27,11 +40,6 @@ class OracleMutator(Mutator):
                 changes.append("NOT NULL")
             else:
                 changes.append("NULL")
-        if source.identity != target.identity:
-            if target.identity:
-                changes.append("GENERATED BY DEFAULT AS IDENTITY")
-            else:
-                changes.append("DROP IDENTITY")
 
         if changes:
             return f"MODIFY {source.name} {' '.join(changes)}"
-- 
2.43.0


From 8d719612d822eab22e5ffdeb2bb13ac4bda29ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:51 +0000
Subject: [PATCH 47/83] fix: drop constraints before the columns they involve

---
 pysqlsync/formation/mutation.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index bc0a2c9..46d3c82 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -170,6 +170,15 @@ class Mutator:
         drop_columns = list(source.columns.difference(target.columns))
         migrated_columns: list[tuple[Column, Column]] = []
 
+        # remove outdated constraints before the columns they involve are changed
+        drop_constraints = [
+            f"DROP CONSTRAINT {constraint.name}"
+            for constraint in source.constraints.difference(target.constraints)
+            if constraint.is_alter_table()
+        ]
+        if drop_constraints:
+            statements.append(source.alter_table_stmt(drop_constraints))
+
         # accumulate object creation statements
         create_stmts: list[str] = []
 
@@ -235,13 +244,7 @@ class Mutator:
                 "failed to drop columns in table", target.name
             ) from e
 
-        alter_stmts.extend(
-            f"DROP CONSTRAINT {constraint.name}"
-            for constraint in source.constraints.difference(target.constraints)
-            if constraint.is_alter_table()
-        )
-
-        # remove outdated constraints
+        # check common constraints
         common_constraints = source.constraints.intersection(target.constraints)
         for source_constraint, target_constraint in common_constraints:
             if source_constraint != target_constraint:
-- 
2.43.0


From ecfac4391ea617463187f0c0f34213c15756bce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:49 +0000
Subject: [PATCH 48/83] fix: add a column to an Oracle table with ADD

---
 pysqlsync/dialect/oracle/object_types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index 7e467d6..0d7a97e 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -2,6 +2,7 @@ import re
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
 from pysqlsync.model.data_types import SqlTimestampType, quote
+from pysqlsync.util.typing import override
 
 
 class OracleColumn(Column):
@@ -27,6 +28,10 @@ class OracleColumn(Column):
         identity = " GENERATED BY DEFAULT AS IDENTITY" if self.identity else ""
         return f"{self.data_type}{default}{nullable}{identity}"
 
+    @override
+    def create_stmt(self) -> str:
+        return f"ADD {self.column_spec}"
+
 
 class OracleTable(Table):
     def alter_table_stmt(self, statements: list[str]) -> str:
-- 
2.43.0


From 462a93269b2f7414e929b3f8fe22a4944a2653da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:34 +0000
Subject: [PATCH 49/83] fix: order the statements that change objects in
 several namespaces or that drop objects that refer to one another

---
 pysqlsync/formation/mutation.py | 83 ++++++++++++++++++++++++++-------
 1 file changed, 65 insertions(+), 18 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 46d3c82..4528725 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -14,6 +14,7 @@ from .object_types import (
     Column,
     ColumnFormationError,
     EnumType,
+    ForeignConstraint,
     FormationError,
     Namespace,
     StatementList,
@@ -278,11 +279,8 @@ class Mutator:
         struct_create = list(target.structs.difference(source.structs))
         table_create = list(target.tables.difference(source.tables))
 
-        # identify objects to drop
+        # identify objects to be replaced
         enum_drop = list(source.enums.difference(target.enums))
-        struct_drop = list(source.structs.difference(target.structs))
-        table_drop = list(source.tables.difference(target.tables))
-        enum_soft_deleted: list[EnumType] = []
 
         # create new objects
         statements.extend(enum.create_stmt() for enum in enum_create)
@@ -293,7 +291,6 @@ class Mutator:
                 if enum_type.name != table.name:
                     continue
                 statements.append(enum_type.soft_drop_stmt())
-                enum_soft_deleted.append(enum_type)
 
         statements.extend(table.create_stmt() for table in table_create)
         statements.extend(table.add_constraints_stmt() for table in table_create)
@@ -325,11 +322,53 @@ class Mutator:
             for source_table, target_table in table_mutate
         )
 
+        return join_or_none(statements)
+
+    def drop_constraints_stmt(
+        self, source: Namespace, target: Namespace
+    ) -> Optional[str]:
+        "Drops foreign keys by which tables that exist only in the source namespace refer to other tables."
+
+        statements: StatementList = StatementList()
+
+        if self.options.allow_drop_table:
+            for table in source.tables.difference(target.tables):
+                foreign_keys = [
+                    f"DROP CONSTRAINT {constraint.name}"
+                    for constraint in table.table_constraints
+                    if isinstance(constraint, ForeignConstraint)
+                    and constraint.reference.table != table.name
+                ]
+                if foreign_keys:
+                    statements.append(table.alter_table_stmt(foreign_keys))
+
+        return join_or_none(statements)
+
+    def drop_objects_stmt(self, source: Namespace, target: Namespace) -> Optional[str]:
+        "Drops objects that exist only in the source namespace."
+
+        statements: StatementList = StatementList()
+
+        # identify objects to drop
+        enum_drop = list(source.enums.difference(target.enums))
+        struct_drop = list(source.structs.difference(target.structs))
+        table_drop = list(source.tables.difference(target.tables))
+
+        # enumerations replaced by a table
+        table_create = list(target.tables.difference(source.tables))
+        enum_soft_deleted = [
+            enum_type
+            for enum_type in enum_drop
+            if any(enum_type.name == table.name for table in table_create)
+        ]
+
         # drop old objects
         if self.options.allow_drop_table:
             statements.extend(table.drop_stmt() for table in table_drop)
 
         if self.options.allow_drop_struct:
+            # starting with types that no other type refers to
+            struct_drop.reverse()
             statements.extend(struct.drop_stmt() for struct in struct_drop)
 
         if self.options.allow_drop_enum:
@@ -355,26 +394,34 @@ class Mutator:
         # create new namespaces
         statements.extend(namespace.create_schema_stmt() for namespace in ns_create)
 
-        # create objects in each namespace added
-        statements.extend(namespace.create_objects_stmt() for namespace in ns_create)
-
-        # add new constraints
-        statements.extend(namespace.add_constraints_stmt() for namespace in ns_create)
+        # create and change objects, starting with namespaces that refer to no other namespace
+        for target_ns in target.namespaces.values():
+            source_ns = source.namespaces.get(target_ns.name.local_id)
+            if source_ns is not None:
+                statements.append(self.mutate_namespace_stmt(source_ns, target_ns))
+            else:
+                statements.append(target_ns.create_objects_stmt())
+                statements.append(target_ns.add_constraints_stmt())
 
-        # mutate existing namespaces
+        # remove old constraints
         statements.extend(
-            self.mutate_namespace_stmt(source_ns, target_ns)
+            self.drop_constraints_stmt(source_ns, target_ns)
             for source_ns, target_ns in ns_mutate
         )
+        if self.options.allow_drop_namespace:
+            statements.extend(namespace.drop_constraints_stmt() for namespace in ns_drop)
 
-        # remove old constraints
-        statements.extend(namespace.drop_constraints_stmt() for namespace in ns_drop)
+        # drop old objects, starting with namespaces that no other namespace refers to
+        for source_ns in reversed(list(source.namespaces.values())):
+            target_ns = target.namespaces.get(source_ns.name.local_id)
+            if target_ns is not None:
+                statements.append(self.drop_objects_stmt(source_ns, target_ns))
+            elif self.options.allow_drop_namespace:
+                statements.append(source_ns.drop_objects_stmt())
+
+        # drop old namespaces
         if self.options.allow_drop_namespace:
-            # drop objects in each namespace removed, starting with namespaces that no other namespace refers to
             ns_drop.reverse()
-            statements.extend(namespace.drop_objects_stmt() for namespace in ns_drop)
-
-            # drop old namespaces
             statements.extend(namespace.drop_schema_stmt() for namespace in ns_drop)
 
         return join_or_none(statements)
-- 
2.43.0


From b2adaea06d372af7d042230e241590ab5a76e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:51 +0000
Subject: [PATCH 50/83] fix: change the description of a member of a composite
 type (PostgreSQL)

---
 pysqlsync/dialect/postgresql/mutation.py | 18 ++++++++++++++++++
 pysqlsync/formation/mutation.py          |  2 +-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 03da4af..9d67ba1 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -95,4 +95,22 @@ class PostgreSQLMutator(Mutator):
                     f"COMMENT ON TYPE {target.name} IS {sql_quoted_string(target.description)};"
                 )
 
+        for target_member in target.members.values():
+            source_member = source.members.get(target_member.name.local_id)
+            source_desc = (
+                source_member.description if source_member is not None else None
+            )
+            target_desc = target_member.description
+
+            if target_desc is None:
+                if source_desc is not None:
+                    statements.append(
+                        f"COMMENT ON COLUMN {target.name}.{target_member.name} IS NULL;"
+                    )
+            else:
+                if source_desc != target_desc:
+                    statements.append(
+                        f"COMMENT ON COLUMN {target.name}.{target_member.name} IS {sql_quoted_string(target_desc)};"
+                    )
+
         return join_or_none(statements)
diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 4528725..48d088a 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -89,7 +89,7 @@ class Mutator:
             for member in source.members.difference(target.members)
         )
         for source_member, target_member in source.members.intersection(target.members):
-            if source_member != target_member:
+            if source_member.data_type != target_member.data_type:
                 statements.append(
                     f"ALTER ATTRIBUTE {source_member.name} SET DATA TYPE {target_member.data_type}"
                 )
-- 
2.43.0


From d292c97c1dea132bc7efa4142af91e36f5091426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:30 +0000
Subject: [PATCH 51/83] fix: migrate data only to columns that refer to a
 lookup table

---
 pysqlsync/formation/mutation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 48d088a..99aabd9 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -187,7 +187,10 @@ class Mutator:
         try:
             for pair in common_columns:
                 source_column, target_column = pair
-                if self.is_column_migrated(source_column, target_column):
+                # data is migrated only to a column that refers to a lookup table
+                if target.is_relation(target_column) and self.is_column_migrated(
+                    source_column, target_column
+                ):
                     statements.append(
                         source.alter_table_stmt([source_column.soft_drop_stmt()])
                     )
-- 
2.43.0


From 2639d3db92c89a77965e4767517ab06d73c1d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 52/83] fix: pass synchronization options on to the component
 that generates the script (Trino)

---
 pysqlsync/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 0834c4c..1c2e423 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -211,7 +211,9 @@ class BaseGenerator(abc.ABC):
     ) -> None:
         self.options = options
         self.factory = factory if factory is not None else ObjectFactory()
-        self.mutator = mutator if mutator is not None else Mutator()
+        self.mutator = (
+            mutator if mutator is not None else Mutator(options.synchronization)
+        )
         self.reset()
 
     def reset(self) -> None:
-- 
2.43.0


From 1993b8a37eedb1daaa5ad172437f6d83f6794b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:26 +0000
Subject: [PATCH 53/83] fix: refuse to replace a column by a reference to a
 lookup table if its data cannot be migrated

---
 pysqlsync/formation/mutation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 99aabd9..56f1b08 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -105,7 +105,9 @@ class Mutator:
     def migrate_column_stmt(
         self, source_table: Table, source: Column, target_table: Table, target: Column
     ) -> Optional[str]:
-        return None
+        raise ColumnFormationError(
+            "operation not permitted; cannot migrate data in column", source.name
+        )
 
     def is_column_migrated(self, source: Column, target: Column) -> Optional[bool]:
         """
-- 
2.43.0


From c9a2ec6ce0a8aad6ce2a859463fa0f0343ad64e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:44 +0000
Subject: [PATCH 54/83] fix: migrate data into a column that accepts NULL until
 each row has a value

---
 pysqlsync/formation/mutation.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 56f1b08..7605192 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -1,3 +1,4 @@
+import dataclasses
 from dataclasses import dataclass
 from typing import Optional
 
@@ -172,6 +173,7 @@ class Mutator:
         common_columns = list(source.columns.intersection(target.columns))
         drop_columns = list(source.columns.difference(target.columns))
         migrated_columns: list[tuple[Column, Column]] = []
+        interim_columns: dict[str, Column] = {}
 
         # remove outdated constraints before the columns they involve are changed
         drop_constraints = [
@@ -196,7 +198,12 @@ class Mutator:
                     statements.append(
                         source.alter_table_stmt([source_column.soft_drop_stmt()])
                     )
-                    create_stmts.append(target_column.create_stmt())
+                    # existing rows have no value until data is migrated
+                    interim_column = dataclasses.replace(
+                        target_column, nullable=True, default=None
+                    )
+                    create_stmts.append(interim_column.create_stmt())
+                    interim_columns[target_column.name.local_id] = interim_column
                     migrated_columns.append(pair)
         except ColumnFormationError as e:
             raise TableFormationError(
@@ -234,8 +241,11 @@ class Mutator:
         # mutate existing columns as necessary
         try:
             for source_column, target_column in common_columns:
+                current_column = interim_columns.get(
+                    target_column.name.local_id, source_column
+                )
                 alter_stmts.append(
-                    self.mutate_column_stmt(source_column, target_column)
+                    self.mutate_column_stmt(current_column, target_column)
                 )
         except ColumnFormationError as e:
             raise TableFormationError(
-- 
2.43.0


From 603ad93e4298fa79851860e7727f8cae56a33690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 55/83] fix: register the labels in use when a column becomes a
 reference to a lookup table

---
 pysqlsync/dialect/mysql/mutation.py      | 5 +++--
 pysqlsync/dialect/postgresql/mutation.py | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index 9ba9245..83cf332 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -21,6 +21,7 @@ class MySQLMutator(Mutator):
     ) -> Optional[str]:
         statements: list[str] = []
         ref = target_table.get_constraint(target.name)
+        column = LocalId(deleted(source.name.id))
         if isinstance(source.data_type, SqlEnumType):
             enum_values = ", ".join(f"({sql_quoted_string(v)})" for v in source.data_type.values)
             statements.append(
@@ -29,12 +30,12 @@ class MySQLMutator(Mutator):
             )
         elif isinstance(source.data_type, SqlVariableCharacterType):
             statements.append(
-                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {LocalId(deleted(source.name.id))} FROM {source_table.name}\n'
+                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {column} FROM {source_table.name} WHERE {column} IS NOT NULL\n'
                 'ON DUPLICATE KEY UPDATE "value" = "value";'
             )
         statements.append(
             f"UPDATE {source_table.name} data_table\n"
-            f'JOIN {ref.table} enum_table ON data_table.{LocalId(deleted(source.name.id))} = enum_table."value"\n'
+            f'JOIN {ref.table} enum_table ON data_table.{column} = enum_table."value"\n'
             f'SET data_table.{target.name} = enum_table."id";'
         )
         return "\n".join(statements)
diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 9d67ba1..d0572e6 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -39,11 +39,14 @@ class PostgreSQLMutator(Mutator):
         self, source_table: Table, source: Column, target_table: Table, target: Column
     ) -> Optional[str]:
         ref = target_table.get_constraint(target.name)
+        column = LocalId(deleted(source.name.id))
         return (
+            f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {column}::VARCHAR FROM {source_table.name} WHERE {column} IS NOT NULL\n'
+            'ON CONFLICT ("value") DO NOTHING;\n'
             f"UPDATE {source_table.name} data_table\n"
             f'SET {target.name} = enum_table."id"\n'
             f"FROM {ref.table} enum_table\n"
-            f'WHERE data_table.{LocalId(deleted(source.name.id))}::VARCHAR = enum_table."value";'
+            f'WHERE data_table.{column}::VARCHAR = enum_table."value";'
         )
 
     def mutate_table_stmt(self, source: Table, target: Table) -> Optional[str]:
-- 
2.43.0


From 5a2999a49b3891ed5d2b016c9144127aee2d0c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 56/83] fix: describe a column that replaces another
 (PostgreSQL)

---
 pysqlsync/dialect/postgresql/mutation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index d0572e6..248005a 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -55,6 +55,13 @@ class PostgreSQLMutator(Mutator):
 
         for target_column in target.columns.values():
             source_column = source.columns.get(target_column.name.id)
+            if (
+                source_column is not None
+                and target.is_relation(target_column)
+                and self.is_column_migrated(source_column, target_column)
+            ):
+                # column has been replaced
+                source_column = None
 
             source_desc = (
                 source_column.description if source_column is not None else None
-- 
2.43.0


From 5258b34f6a225792b5a13d826a8e6d99e36edf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 57/83] fix: recognize types that are used as items of arrays
 when ordering namespaces and types

---
 pysqlsync/formation/object_types.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index b715881..4997d56 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -6,7 +6,12 @@ from typing import Any, Iterable, Optional, overload
 from strong_typing.inspection import is_dataclass_instance
 from strong_typing.topological import topological_sort
 
-from ..model.data_types import SqlDataType, SqlUserDefinedType, constant
+from ..model.data_types import (
+    SqlArrayType,
+    SqlDataType,
+    SqlUserDefinedType,
+    constant,
+)
 from ..model.id_types import LocalId, SupportsQualifiedId
 from .object_dict import ObjectDict
 
@@ -38,6 +43,14 @@ def join_or_none(statements: Iterable[Optional[str]]) -> Optional[str]:
     return join(statements) or None
 
 
+def element_type(data_type: SqlDataType) -> SqlDataType:
+    "The type of an item for an array type, or the type itself for other types."
+
+    while isinstance(data_type, SqlArrayType):
+        data_type = data_type.element_type
+    return data_type
+
+
 class MappingError(RuntimeError):
     "Raised when a Python class cannot map to a database entity."
 
@@ -162,11 +175,8 @@ class StructType(DatabaseObject, QualifiedObject):
         self.description = description
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
-        return set(
-            m.data_type.ref
-            for m in self.members.values()
-            if isinstance(m.data_type, SqlUserDefinedType)
-        )
+        types = (element_type(m.data_type) for m in self.members.values())
+        return set(t.ref for t in types if isinstance(t, SqlUserDefinedType))
 
     def create_stmt(self) -> str:
         members = ",\n".join(str(m) for m in self.members.values())
@@ -522,11 +532,8 @@ class Table(DatabaseObject, QualifiedObject):
         raise KeyError(f"foreign constraint not found for column: {column_id}")
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
-        return set(
-            c.data_type.ref
-            for c in self.columns.values()
-            if isinstance(c.data_type, SqlUserDefinedType)
-        )
+        types = (element_type(c.data_type) for c in self.columns.values())
+        return set(t.ref for t in types if isinstance(t, SqlUserDefinedType))
 
     def get_referenced_tables(self) -> set[SupportsQualifiedId]:
         items: set[SupportsQualifiedId] = set()
-- 
2.43.0


From d5287b2031eba9497aa0db2cdfa83daa65e94d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 58/83] fix: store annotated unsigned integers in a type that
 has their range

---
 pysqlsync/formation/py_to_sql.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index eac1405..397e2be 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -454,6 +454,13 @@ class DataclassConverter:
                     raise TypeError(f"unsupported annotated Python type: {typ}")
                 sql_type.parse_meta(meta)
 
+            if isinstance(sql_type, SqlIntegerType):
+                # same storage as for `int8`, `uint8`, `uint16`, etc. without extra numeric types
+                if not sql_type.signed:
+                    sql_type.width = 2 * sql_type.width
+                    sql_type.signed = True
+                sql_type.width = min(max(sql_type.width, 2), 8)
+
             if sql_type:
                 return sql_type
 
-- 
2.43.0


From ef4e1944155f4de42bd2a1699226e51b1cdfef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 59/83] fix: map unsigned integers to a type that exists in
 Oracle

---
 pysqlsync/dialect/oracle/generator.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/generator.py b/pysqlsync/dialect/oracle/generator.py
index 93ad032..8ff95d4 100644
--- a/pysqlsync/dialect/oracle/generator.py
+++ b/pysqlsync/dialect/oracle/generator.py
@@ -4,7 +4,16 @@ import typing
 import uuid
 from typing import Any, Callable, Optional
 
-from strong_typing.auxiliary import int8, int16, int32, int64
+from strong_typing.auxiliary import (
+    int8,
+    int16,
+    int32,
+    int64,
+    uint8,
+    uint16,
+    uint32,
+    uint64,
+)
 from strong_typing.core import JsonType
 
 from pysqlsync.base import BaseGenerator, GeneratorOptions
@@ -75,6 +84,10 @@ class OracleGenerator(BaseGenerator):
                     int16: OracleIntegerType(),
                     int32: OracleIntegerType(),
                     int64: OracleIntegerType(),
+                    uint8: OracleIntegerType(),
+                    uint16: OracleIntegerType(),
+                    uint32: OracleIntegerType(),
+                    uint64: OracleIntegerType(),
                     str: OracleVariableCharacterType(),
                     uuid.UUID: OracleVariableBinaryType(16),
                     JsonType: OracleVariableCharacterType(),
-- 
2.43.0


From 1dbd75ef70d8665c3f68bbe1730c17af9613e699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 60/83] fix: write enumeration defaults as values, and infer a
 default value only for types that have one

---
 pysqlsync/formation/py_to_sql.py | 48 ++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 397e2be..79cde7a 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -668,6 +668,16 @@ class DataclassConverter:
 
         raise TypeError(f"unsupported data type: {typ}")
 
+    def _default_expr(self, value: Any) -> str:
+        "Expression for the default value of a column."
+
+        if isinstance(value, enum.Enum):
+            if self.options.enum_mode in (EnumMode.TYPE, EnumMode.INLINE):
+                return constant(str(value.value))
+            elif self.options.enum_mode is EnumMode.CHECK:
+                return constant(value.value)
+        return constant(value)
+
     def member_to_column(
         self, field: DataclassField, cls: type[DataclassInstance], doc: Docstring
     ) -> Column:
@@ -677,7 +687,7 @@ class DataclassConverter:
         data_type = self.member_to_sql_data_type(props.field_type, cls)
 
         if field.default is not dataclasses.MISSING and field.default is not None:
-            default_value = constant(field.default)
+            default_value = self._default_expr(field.default)
         elif (
             self.options.auto_default
             and not props.nullable
@@ -686,6 +696,9 @@ class DataclassConverter:
         ):
             if is_reference_type(props.plain_type, cls):
                 plain_type = reference_to_key(props.plain_type, cls)
+            elif is_extensible_enum_type(props.plain_type, cls):
+                # unable to infer key in lookup table
+                plain_type = None
             elif is_type_union(props.plain_type):
                 member_types = [
                     evaluate_member_type(t, cls)
@@ -708,19 +721,26 @@ class DataclassConverter:
                 # unable to infer default value for type
                 plain_type = None
 
-            if plain_type is not None:
-                default_expr: Any
-                if plain_type is datetime.datetime:
-                    default_expr = datetime.datetime.min
-                elif plain_type is datetime.date:
-                    default_expr = datetime.date.min
-                elif plain_type is datetime.time:
-                    default_expr = datetime.time.min
-                elif is_type_enum(plain_type):
-                    default_expr = next(member.value for member in plain_type)
-                else:
-                    default_expr = plain_type()  # type: ignore
-                default_value = constant(default_expr)
+            default_expr: Any
+            if plain_type is datetime.datetime:
+                default_expr = datetime.datetime.min
+            elif plain_type is datetime.date:
+                default_expr = datetime.date.min
+            elif plain_type is datetime.time:
+                default_expr = datetime.time.min
+            elif (
+                is_type_enum(plain_type)
+                and self.options.enum_mode is not EnumMode.RELATION
+            ):
+                default_expr = next(iter(plain_type))
+            elif plain_type in (bool, int, float, str, decimal.Decimal):
+                default_expr = plain_type()  # type: ignore
+            else:
+                # unable to infer default value for type
+                default_expr = None
+
+            if default_expr is not None:
+                default_value = self._default_expr(default_expr)
             else:
                 default_value = None
         else:
-- 
2.43.0


From d3a3cad43f923f2f30c9fed8658798e8165275db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 61/83] fix: write default values of date and time columns

---
 pysqlsync/dialect/oracle/object_types.py    | 15 +++++++++++++--
 pysqlsync/dialect/snowflake/object_types.py | 10 ++++++++--
 pysqlsync/model/data_types.py               |  2 ++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index 0d7a97e..3314f14 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -1,7 +1,12 @@
 import re
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
-from pysqlsync.model.data_types import SqlTimestampType, quote
+from pysqlsync.model.data_types import (
+    SqlDateType,
+    SqlTimestampType,
+    SqlTimeType,
+    quote,
+)
 from pysqlsync.util.typing import override
 
 
@@ -13,11 +18,17 @@ class OracleColumn(Column):
 
         if isinstance(self.data_type, SqlTimestampType):
             m = re.match(
-                r"^'(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2}) (?P<hour>\d{2}):(?P<minute>\d{2}):(?P<second>\d{2})'$",
+                r"^'(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2}) (?P<hour>\d{2}):(?P<minute>\d{2}):(?P<second>\d{2})(?P<fraction>\.\d{1,6})?'$",
                 self.default,
             )
             if m:
                 return f"TIMESTAMP {self.default}"
+        elif isinstance(self.data_type, SqlDateType):
+            if re.match(r"^'\d{4}-\d{2}-\d{2}'$", self.default):
+                return f"DATE {self.default}"
+        elif isinstance(self.data_type, SqlTimeType):
+            if re.match(r"^'\d{2}:\d{2}:\d{2}(\.\d{1,6})?'$", self.default):
+                return f"INTERVAL '0 {self.default[1:-1]}' DAY TO SECOND"
 
         return self.default
 
diff --git a/pysqlsync/dialect/snowflake/object_types.py b/pysqlsync/dialect/snowflake/object_types.py
index c9c3b8c..9fefd37 100644
--- a/pysqlsync/dialect/snowflake/object_types.py
+++ b/pysqlsync/dialect/snowflake/object_types.py
@@ -2,7 +2,7 @@ import re
 from typing import Optional
 
 from pysqlsync.formation.object_types import Column, ObjectFactory, Table
-from pysqlsync.model.data_types import SqlTimestampType
+from pysqlsync.model.data_types import SqlDateType, SqlTimestampType, SqlTimeType
 from pysqlsync.model.id_types import LocalId
 
 _sql_quoted_str_table = str.maketrans(
@@ -54,11 +54,17 @@ class SnowflakeColumn(Column):
 
         if isinstance(self.data_type, SqlTimestampType):
             m = re.match(
-                r"^'(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2}) (?P<hour>\d{2}):(?P<minute>\d{2}):(?P<second>\d{2})'$",
+                r"^'(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2}) (?P<hour>\d{2}):(?P<minute>\d{2}):(?P<second>\d{2})(?P<fraction>\.\d{1,6})?'$",
                 self.default,
             )
             if m:
                 return f"TIMESTAMP {self.default}"
+        elif isinstance(self.data_type, SqlDateType):
+            if re.match(r"^'\d{4}-\d{2}-\d{2}'$", self.default):
+                return f"DATE {self.default}"
+        elif isinstance(self.data_type, SqlTimeType):
+            if re.match(r"^'\d{2}:\d{2}:\d{2}(\.\d{1,6})?'$", self.default):
+                return f"TIME {self.default}"
 
         return self.default
 
diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index cf54e5a..92bd721 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -41,6 +41,8 @@ def constant(v: Any) -> str:
         else:
             timestamp = v
         return quote(timestamp.isoformat(sep=" "))
+    elif isinstance(v, (datetime.date, datetime.time)):
+        return quote(v.isoformat())
     elif isinstance(v, tuple):
         values = ", ".join(constant(value) for value in v)
         return f"({values})"
-- 
2.43.0


From 436ec1b42462a5762e799a47760ea2df0960b963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:36 +0000
Subject: [PATCH 62/83] fix: write default values of bit columns as numbers
 (MSSQL)

---
 pysqlsync/dialect/mssql/mutation.py     |  3 ++-
 pysqlsync/dialect/mssql/object_types.py | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/mssql/mutation.py b/pysqlsync/dialect/mssql/mutation.py
index a8028e2..47fa5c6 100644
--- a/pysqlsync/dialect/mssql/mutation.py
+++ b/pysqlsync/dialect/mssql/mutation.py
@@ -48,8 +48,9 @@ class MSSQLMutator(Mutator):
             if source_def is not None:
                 drop_defaults.append(f"DROP CONSTRAINT {name}")
             if target_def is not None:
+                expr = typing.cast(MSSQLColumn, target_column).default_expr
                 add_defaults.append(
-                    f"ADD CONSTRAINT {name} DEFAULT {target_def} FOR {source_column.name}"
+                    f"ADD CONSTRAINT {name} DEFAULT {expr} FOR {source_column.name}"
                 )
 
         if drop_defaults:
diff --git a/pysqlsync/dialect/mssql/object_types.py b/pysqlsync/dialect/mssql/object_types.py
index f4d7c2f..d4220bd 100644
--- a/pysqlsync/dialect/mssql/object_types.py
+++ b/pysqlsync/dialect/mssql/object_types.py
@@ -8,7 +8,7 @@ from pysqlsync.formation.object_types import (
     Table,
     join_or_none,
 )
-from pysqlsync.model.data_types import quote
+from pysqlsync.model.data_types import SqlBooleanType, quote
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.util.typing import override
 
@@ -19,12 +19,23 @@ class MSSQLColumn(Column):
 
         return LocalId(f"df_{self.name.local_id}")
 
+    @property
+    def default_expr(self) -> str:
+        if self.default is None:
+            raise ValueError("default value is NULL")
+
+        if isinstance(self.data_type, SqlBooleanType):
+            # type `bit` has no literals for true and false
+            return {"TRUE": "1", "FALSE": "0"}.get(self.default, self.default)
+
+        return self.default
+
     @property
     def data_spec(self) -> str:
         nullable = " NOT NULL" if not self.nullable else ""
         name = self.default_constraint_name()
         default = (
-            f" CONSTRAINT {name} DEFAULT {self.default}"
+            f" CONSTRAINT {name} DEFAULT {self.default_expr}"
             if self.default is not None
             else ""
         )
-- 
2.43.0


From 14ad18560cc6642e91ee7935bc119fb36b22dee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:46 +0000
Subject: [PATCH 63/83] fix: refuse a label as the default value of a reference
 to a lookup table

---
 pysqlsync/formation/py_to_sql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 79cde7a..b259697 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -687,6 +687,10 @@ class DataclassConverter:
         data_type = self.member_to_sql_data_type(props.field_type, cls)
 
         if field.default is not dataclasses.MISSING and field.default is not None:
+            if is_extensible_enum_type(props.plain_type, cls):
+                raise NotImplementedError(
+                    f"default value for a reference to a lookup table in field: {field.name}"
+                )
             default_value = self._default_expr(field.default)
         elif (
             self.options.auto_default
-- 
2.43.0


From 9fe56139bed932230e55c10b08cf7de7274db131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:46 +0000
Subject: [PATCH 64/83] fix: keep enumeration and composite types of modules
 that have no tables

---
 pysqlsync/formation/py_to_sql.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index b259697..8d4f163 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -1210,14 +1210,16 @@ class DataclassConverter:
                 )
 
         if self.options.qualified_names:
+            # a module may have enumeration or struct types but no tables
+            module_names = dict.fromkeys([*tables, *enums, *structs])
             namespaces = [
                 self.options.factory.namespace_class(
                     name=LocalId(self.options.namespaces.get(module_name) or ""),
                     enums=enums.get(module_name, []),
                     structs=structs.get(module_name, []),
-                    tables=table_defs,
+                    tables=tables.get(module_name, []),
                 )
-                for module_name, table_defs in tables.items()
+                for module_name in module_names
             ]
         else:
             namespaces = [
-- 
2.43.0


From 48dc9f943c0f91172c39ad66336229caaf29e2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:46 +0000
Subject: [PATCH 65/83] fix: create an enumeration type unless the enumeration
 expands into a lookup table

---
 pysqlsync/formation/py_to_sql.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 8d4f163..e716cf5 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -1040,14 +1040,23 @@ class DataclassConverter:
         # collect all enumeration types in alphabetical order
         enums: dict[str, list[EnumType]] = {}
         if self.options.enum_mode is EnumMode.TYPE:
-            enum_types = [obj for obj in referenced_types if is_type_enum(obj)]
+            # extensible enumerations expand into lookup tables
+            expanded_types = {
+                unwrap_extensible_enum_type(field.type, entity)
+                for entity in referenced_types
+                if is_entity_type(entity)
+                for field in dataclass_fields_as_required(
+                    entity, lambda t: is_extensible_enum_type(t, entity)
+                )
+            }
+            enum_types = [
+                obj
+                for obj in referenced_types
+                if is_type_enum(obj) and obj not in expanded_types
+            ]
             enum_types.sort(key=lambda e: e.__name__)
             for enum_type in enum_types:
                 enum_values = [str(e.value) for e in enum_type]  # type: ignore
-                if len(enum_values) < 2:
-                    # enumerations with too few members expand into extensible enumeration tables
-                    continue
-
                 enum_defs = enums.setdefault(enum_type.__module__, [])
                 enum_defs.append(
                     EnumType(
-- 
2.43.0


From 6de0b209bf9aaf330067e6c78fddc980df90934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:46 +0000
Subject: [PATCH 66/83] fix: represent an item of a list of composite values in
 the same way as a single value

---
 pysqlsync/formation/py_to_sql.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index e716cf5..7b33b60 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -620,13 +620,7 @@ class DataclassConverter:
                 )
             if isinstance(item_type, type):
                 if self.options.array_mode is ArrayMode.ARRAY:
-                    return SqlArrayType(
-                        SqlUserDefinedType(
-                            self.create_qualified_id(
-                                item_type.__module__, item_type.__name__
-                            )
-                        )
-                    )
+                    return SqlArrayType(self.member_to_sql_data_type(item_type, cls))
                 elif self.options.array_mode is ArrayMode.JSON:
                     return self.member_to_sql_data_type(JsonType, cls)
                 elif self.options.array_mode is ArrayMode.RELATION:
-- 
2.43.0


From 20b5be8c453c2894643166bbf84265b9c75e1159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:46 +0000
Subject: [PATCH 67/83] fix: tell apart unique constraints of lookup tables in
 different schemas

---
 pysqlsync/formation/py_to_sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 7b33b60..b7ffd61 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -985,7 +985,7 @@ class DataclassConverter:
             )
             constraints.append(
                 UniqueConstraint(
-                    LocalId(f"uq_{enum_table_name}"),
+                    LocalId(f"uq_{self.create_qualified_prefix(enum_type)}"),
                     (LocalId("value"),),
                 )
             )
-- 
2.43.0


From ffc3a84c90894cb6c164d971fbb48a23afc7b541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:05 +0000
Subject: [PATCH 68/83] fix: keep generated integers within the storage size of
 the type

---
 pysqlsync/data/generator.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/data/generator.py b/pysqlsync/data/generator.py
index 8d6dec5..908cec5 100644
--- a/pysqlsync/data/generator.py
+++ b/pysqlsync/data/generator.py
@@ -10,7 +10,15 @@ from socket import AF_INET, AF_INET6, inet_ntop
 from struct import pack
 from typing import Any, Callable, Optional, TypeVar
 
-from strong_typing.auxiliary import IntegerRange, MaxLength, MinLength, Precision
+from strong_typing.auxiliary import (
+    IntegerRange,
+    Length,
+    MaxLength,
+    MinLength,
+    Precision,
+    Signed,
+    Storage,
+)
 from strong_typing.inspection import (
     DataclassInstance,
     dataclass_fields,
@@ -242,7 +250,15 @@ class RandomGenerator:
                 maximum_value = integer_range.maximum
                 return lambda _: random.randint(minimum_value, maximum_value)
 
-            return lambda _: random.randint(0, 1000000)
+            largest_value = 1000000
+            storage = get_annotation(field_type, Storage)
+            if storage is not None:
+                signed = get_annotation(field_type, Signed)
+                value_bits = 8 * storage.bytes
+                if signed is None or signed.is_signed:
+                    value_bits -= 1
+                largest_value = min(largest_value, 2**value_bits - 1)
+            return lambda _: random.randint(0, largest_value)
         elif plain_type is float:
             return lambda _: random.uniform(0.0, 1.0)
         elif plain_type is datetime.datetime:
-- 
2.43.0


From 851d7e68b956ed0c1fe5ddb207a72b95d3d607e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:10 +0000
Subject: [PATCH 69/83] fix: generate texts for any combination of length
 limits

---
 pysqlsync/data/generator.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/data/generator.py b/pysqlsync/data/generator.py
index 908cec5..2e9b0d4 100644
--- a/pysqlsync/data/generator.py
+++ b/pysqlsync/data/generator.py
@@ -274,11 +274,21 @@ class RandomGenerator:
         elif plain_type is datetime.time:
             return lambda _: random_time()
         elif plain_type is str:
+            length_tag = get_annotation(field_type, Length)
+            if length_tag is not None:
+                length = length_tag.value
+                return lambda _: random_alphanumeric_str(length, length)
+
             min_length_tag = get_annotation(field_type, MinLength)
             # use a minimum length of at least 1; Oracle treats empty string as equivalent to NULL
             min_length = min_length_tag.value if min_length_tag is not None else 1
             max_length_tag = get_annotation(field_type, MaxLength)
-            max_length = max_length_tag.value if max_length_tag is not None else 255
+            if max_length_tag is not None:
+                max_length = max_length_tag.value
+                if min_length_tag is None:
+                    min_length = min(min_length, max_length)
+            else:
+                max_length = max(255, min_length)
             return lambda _: random_alphanumeric_str(min_length, max_length)
         elif plain_type is decimal.Decimal:
             precision = get_annotation(field_type, Precision)
-- 
2.43.0


From cfa34b60b0c5974acbd68d2d76e8d7d018fe0f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:10 +0000
Subject: [PATCH 70/83] fix: never repeat a generated value for a unique field

---
 pysqlsync/data/generator.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pysqlsync/data/generator.py b/pysqlsync/data/generator.py
index 2e9b0d4..2131834 100644
--- a/pysqlsync/data/generator.py
+++ b/pysqlsync/data/generator.py
@@ -187,6 +187,30 @@ def call_repeat(generator: Callable[[P], R], arg: P, max_count: int) -> list[R]:
     return [generator(arg) for _ in range(count)]
 
 
+def distinct(
+    generator: Callable[[int], R], max_attempts: int = 1000
+) -> Callable[[int], R]:
+    """
+    Creates a generator that never produces the same value twice.
+
+    :param generator: The generator to draw values from.
+    :param max_attempts: The number of consecutive repeated values after which to give up.
+    """
+
+    values: set[R] = set()
+
+    def create(k: int) -> R:
+        for _ in range(max_attempts):
+            value = generator(k)
+            if value not in values:
+                values.add(value)
+                return value
+
+        raise DataGeneratorError("insufficient number of distinct values")
+
+    return create
+
+
 class RandomGenerator:
     """
     Generates a data-class instances with all their fields populated with random values recursively.
@@ -236,6 +260,9 @@ class RandomGenerator:
 
             raise DataGeneratorError(f"unknown key type: {plain_type}")
 
+        if field_properties.is_unique:
+            return distinct(self.create(field_properties.field_type, cls))
+
         if value_properties.nullable:
             optional_generator = self.create(field_type, cls)
             return lambda k: (
-- 
2.43.0


From 3eb428cd9b7732251bfd29f14676c510f69b8447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:47 +0000
Subject: [PATCH 71/83] fix: mark the primary key and nullable references in a
 class derived from a table

---
 pysqlsync/formation/sql_to_py.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 3e80ad7..041ddeb 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -140,12 +140,7 @@ class SqlConverter:
         if column.default is not None:
             default = column.default
 
-        field_type = sql_type_to_python(column.data_type)
-        if column.name == table.primary_key:
-            field_type = PrimaryKey[(field_type,)]  # type: ignore
-        elif column.nullable:
-            field_type = Optional[field_type]
-
+        field_type: Any = sql_type_to_python(column.data_type)
         for c in table.constraints.values():
             if not isinstance(c, ReferenceConstraint):
                 continue
@@ -159,6 +154,11 @@ class SqlConverter:
                 union_types = tuple(self.qual_to_module(r.table) for r in c.references)
                 field_type = Union[union_types]
 
+        if column.name in table.primary_key:
+            field_type = PrimaryKey[(field_type,)]  # type: ignore
+        elif column.nullable:
+            field_type = Optional[field_type]
+
         # use cast to ensure compatibility with signature of `make_dataclass`
         data_type = typing.cast(type, field_type)
 
-- 
2.43.0


From 2b6f2215b6f62911bf53e05bf3f0a8c86de05608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:47 +0000
Subject: [PATCH 72/83] fix: keep column descriptions in a class derived from a
 table

---
 pysqlsync/formation/sql_to_py.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 041ddeb..af0e381 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -190,10 +190,10 @@ class SqlConverter:
                 class_name, fields, namespace={"__module__": module.__name__}
             )
         with StringIO() as out:
-            for field in dataclasses.fields(typ):
-                description = field.metadata.get("description")
-                if description is not None:
-                    print(f":param {field.name}: {description}", file=out)
+            for column in table.columns.values():
+                if column.description is not None:
+                    field_name = safe_id(column.name.local_id)
+                    print(f":param {field_name}: {column.description}", file=out)
             paramstring = out.getvalue()
         with StringIO() as out:
             if table.description:
-- 
2.43.0


From d62c071a7f984329df49bb04d21ff5133440d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:47 +0000
Subject: [PATCH 73/83] fix: keep size, sign and precision of numbers in a
 class derived from a table

---
 pysqlsync/formation/sql_to_py.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index af0e381..f97dfe2 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -17,9 +17,14 @@ from strong_typing.auxiliary import (
     TimePrecision,
     float32,
     float64,
+    int8,
     int16,
     int32,
     int64,
+    uint8,
+    uint16,
+    uint32,
+    uint64,
 )
 from strong_typing.core import JsonType
 from strong_typing.inspection import DataclassInstance, TypeLike
@@ -57,12 +62,14 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
     if isinstance(sql_type, SqlBooleanType):
         return bool
     elif isinstance(sql_type, SqlIntegerType):
-        if sql_type.width == 2:
-            return int16
+        if sql_type.width == 1:
+            return int8 if sql_type.signed else uint8
+        elif sql_type.width == 2:
+            return int16 if sql_type.signed else uint16
         elif sql_type.width == 4:
-            return int32
+            return int32 if sql_type.signed else uint32
         elif sql_type.width == 8:
-            return int64
+            return int64 if sql_type.signed else uint64
         return int
     elif isinstance(sql_type, SqlRealType):
         return float32
@@ -73,6 +80,10 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
             return Annotated[float, Precision(sql_type.precision)]
         return float
     elif isinstance(sql_type, SqlDecimalType):
+        if sql_type.precision is not None:
+            return Annotated[
+                decimal.Decimal, Precision(sql_type.precision, sql_type.scale or 0)
+            ]
         return decimal.Decimal
     elif isinstance(sql_type, SqlTimestampType):
         if sql_type.precision is not None:
-- 
2.43.0


From 489ecab4590930412818899f9963aa3ea49b72c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:54 +0000
Subject: [PATCH 74/83] fix: escape special characters of documentation texts
 in generated code

---
 pysqlsync/python_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index ccb9c5e..e26b153 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -187,8 +187,9 @@ def _wrap_print(text: str, file: TextIO) -> None:
         return
 
     # wrap long lines
+    # keep backslash and quotes from altering or terminating the string literal
     for line in textwrap.wrap(
-        text,
+        text.replace("\\", "\\\\").replace('"""', '\\"\\"\\"'),
         width=139,
         initial_indent="    ",
         subsequent_indent="    ",
-- 
2.43.0


From aff38e43296885a828e8ec3d5eab5ebe050ef749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:54 +0000
Subject: [PATCH 75/83] fix: write default values of any type as Python
 expressions in generated code

---
 pysqlsync/python_types.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index e26b153..9bcfc35 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -1,13 +1,15 @@
 import dataclasses
+import datetime
 import enum
 import inspect
 import io
+import math
 import re
 import sys
 import textwrap
 import typing
 from types import ModuleType
-from typing import TextIO
+from typing import Any, TextIO
 
 from strong_typing.docstring import has_docstring, parse_type
 from strong_typing.inspection import (
@@ -98,7 +100,7 @@ def dataclass_to_stream(typ: type[DataclassInstance], target: TextIO) -> None:
     }
     if variables:
         for name, value in variables.items():
-            print(f"    {name} = {repr(value)}", file=target)
+            print(f"    {name} = {_value_to_code(value)}", file=target)
         print(file=target)
 
     # member variables
@@ -109,7 +111,7 @@ def dataclass_to_stream(typ: type[DataclassInstance], target: TextIO) -> None:
 
         field_initializer: dict[str, str] = {}
         if field.default is not dataclasses.MISSING:
-            field_initializer["default"] = repr(field.default)
+            field_initializer["default"] = _value_to_code(field.default)
         if field.default_factory is not dataclasses.MISSING:
             field_initializer["default_factory"] = fmt.python_type_to_str(
                 field.default_factory
@@ -120,12 +122,12 @@ def dataclass_to_stream(typ: type[DataclassInstance], target: TextIO) -> None:
         if not field_initializer:
             initializer = ""
         elif field.default is not dataclasses.MISSING and len(field_initializer) == 1:
-            initializer = f" = {repr(field.default)}"
+            initializer = f" = {_value_to_code(field.default)}"
         else:
             initializer_list = ", ".join(
                 f"{key} = {value}" for key, value in field_initializer.items()
             )
-            initializer = f" = field({initializer_list})"
+            initializer = f" = dataclasses.field({initializer_list})"
 
         print(f"    {field.name}: {type_name}{initializer}", file=target)
 
@@ -182,6 +184,20 @@ def enum_class_to_code(enum_class: type[enum.Enum]) -> str:
         return out.getvalue()
 
 
+def _value_to_code(value: Any) -> str:
+    "Generates a Python expression that evaluates to a value."
+
+    if isinstance(value, enum.Enum):
+        return f"{type(value).__name__}.{value.name}"
+    elif isinstance(value, (datetime.date, datetime.time, datetime.timedelta)):
+        # types are imported from module `datetime` by name
+        return repr(value).replace("datetime.", "")
+    elif isinstance(value, float) and not math.isfinite(value):
+        return f"float('{value}')"
+    else:
+        return repr(value)
+
+
 def _wrap_print(text: str, file: TextIO) -> None:
     if not text:
         return
-- 
2.43.0


From da406c20cfb70948b1481c31eff475debf06a639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:54 +0000
Subject: [PATCH 76/83] fix: import names that generated code relies on, and
 define classes before they are used

---
 pysqlsync/python_types.py | 44 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index 9bcfc35..0c8e2f2 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -27,20 +27,33 @@ def module_to_stream(module: ModuleType, target: TextIO) -> None:
     print("from __future__ import annotations", file=target)
     print("import dataclasses", file=target)
     print("import enum", file=target)
-    print("from datetime import datetime, date, time", file=target)
+    print(
+        "from datetime import date, datetime, time, timedelta, timezone",
+        file=target,
+    )
     print("from decimal import Decimal", file=target)
+    print("from ipaddress import IPv4Address, IPv6Address", file=target)
     print("from uuid import UUID", file=target)
     print(
         "from typing import Annotated, Dict, List, Literal, Optional, Union",
         file=target,
     )
     print(
-        "from strong_typing.auxiliary import int16, int32, int64, float32, float64, MaxLength, Precision, TimePrecision",
+        "from strong_typing.auxiliary import int8, int16, int32, int64, uint8, uint16, uint32, uint64, float32, float64, IntegerRange, Length, MaxLength, MinLength, Precision, Signed, Storage, TimePrecision",
         file=target,
     )
+    print("from strong_typing.core import JsonType", file=target)
+    print(
+        "from pysqlsync.model.key_types import DEFAULT, DefaultTag, IdentityTag, PrimaryKeyTag, UniqueTag",
+        file=target,
+    )
+    print(file=target)
+    print("PrimaryKey = PrimaryKeyTag()", file=target)
+    print("Identity = IdentityTag()", file=target)
+    print("Unique = UniqueTag()", file=target)
     print(file=target)
 
-    for cls in get_module_classes(module):
+    for cls in _definition_order(get_module_classes(module)):
         if is_type_enum(cls):
             enum_class_to_stream(cls, target)
         elif is_dataclass_type(cls):
@@ -52,6 +65,31 @@ def module_to_stream(module: ModuleType, target: TextIO) -> None:
         print(file=target)
 
 
+def _definition_order(classes: list[type]) -> list[type]:
+    "Puts classes after those whose instances they have as a member or default value."
+
+    ordered: list[type] = []
+    visited: set[type] = set()
+
+    def visit(cls: type) -> None:
+        if cls not in classes or cls in visited:
+            return
+        visited.add(cls)
+        if is_type_enum(cls):
+            values = [e.value for e in cls]
+        elif is_dataclass_type(cls):
+            values = [field.default for field in dataclasses.fields(cls)]
+        else:
+            values = []
+        for value in values:
+            visit(type(value))
+        ordered.append(cls)
+
+    for cls in classes:
+        visit(cls)
+    return ordered
+
+
 def module_to_code(module: ModuleType) -> str:
     "Generates Python code of all declared types in a module."
 
-- 
2.43.0


From cd07788e20a0eef4b095b0f8b12741721f66d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:40 +0000
Subject: [PATCH 77/83] fix: discover default values as the expressions that
 define them

---
 pysqlsync/dialect/mssql/discovery.py      | 19 +++++++++++++++-
 pysqlsync/dialect/mysql/discovery.py      | 27 ++++++++++++++++++++++-
 pysqlsync/dialect/mysql/mutation.py       | 10 ++++++++-
 pysqlsync/dialect/oracle/discovery.py     | 21 +++++++++++++++++-
 pysqlsync/dialect/postgresql/discovery.py | 27 +++++++++--------------
 5 files changed, 83 insertions(+), 21 deletions(-)

diff --git a/pysqlsync/dialect/mssql/discovery.py b/pysqlsync/dialect/mssql/discovery.py
index 1c79bc3..a0936cd 100644
--- a/pysqlsync/dialect/mssql/discovery.py
+++ b/pysqlsync/dialect/mssql/discovery.py
@@ -1,3 +1,4 @@
+import re
 from typing import Optional
 
 from pysqlsync.base import BaseContext
@@ -16,6 +17,19 @@ from .data_types import (
 from .object_types import MSSQLObjectFactory
 
 
+def to_default_expr(expr: str) -> str:
+    "Converts a T-SQL default constraint definition into a standard default expression."
+
+    # definition is always enclosed in parentheses, numbers are enclosed twice
+    m = re.fullmatch(r"\((.*)\)", expr, re.DOTALL)
+    if m is not None:
+        expr = m.group(1)
+    m = re.fullmatch(r"\((-?[0-9.]+)\)", expr)
+    if m is not None:
+        expr = m.group(1)
+    return expr
+
+
 class MSSQLExplorer(AnsiExplorer):
     def __init__(self, conn: BaseContext) -> None:
         super().__init__(
@@ -62,7 +76,10 @@ class MSSQLExplorer(AnsiExplorer):
             if c.name.id in identity_columns:
                 c.identity = True
             if c.name.id in default_values:
-                c.default = default_values[c.name.id]
+                default = to_default_expr(default_values[c.name.id])
+                if isinstance(c.data_type, MSSQLBooleanType):
+                    default = {"0": "FALSE", "1": "TRUE"}.get(default, default)
+                c.default = default
 
         return columns
 
diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index df29b6e..e837968 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -22,6 +22,19 @@ from .data_types import (
 from .object_types import MySQLObjectFactory
 
 
+# types whose default value is a string literal
+LITERAL_TYPES = [
+    "char",
+    "varchar",
+    "enum",
+    "set",
+    "date",
+    "time",
+    "datetime",
+    "timestamp",
+]
+
+
 @dataclass
 class MySQLColumnMeta(AnsiColumnMeta):
     column_type: str
@@ -66,6 +79,18 @@ class MySQLExplorer(AnsiExplorer):
         else:
             return PrefixedId(None, name)
 
+    def _get_default(self, col: MySQLColumnMeta) -> Optional[str]:
+        "Expression for the default value of a column."
+
+        if (
+            col.column_default is not None
+            and col.data_type in LITERAL_TYPES
+            and "DEFAULT_GENERATED" not in col.extra
+        ):
+            # information schema stores the text of a string literal without quotes
+            return quote(col.column_default)
+        return col.column_default
+
     async def get_columns(self, table_id: SupportsQualifiedId) -> list[Column]:
         column_meta = await self.conn.query_all(
             MySQLColumnMeta,
@@ -100,7 +125,7 @@ class MySQLExplorer(AnsiExplorer):
                         datetime_precision=col.datetime_precision,
                     ),
                     bool(col.nullable),
-                    default=col.column_default,
+                    default=self._get_default(col),
                     identity="auto_increment" in col.extra,
                     description=col.column_comment or None,
                 )
diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index 83cf332..a3a03fe 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -15,6 +15,14 @@ from pysqlsync.model.id_types import LocalId
 from .object_types import MySQLColumn, MySQLTable, sql_quoted_string
 
 
+def _default_value(column: Column) -> Optional[str]:
+    "Default value as stored by MySQL, in which truth values are numbers."
+
+    if column.default is None:
+        return None
+    return {"FALSE": "0", "TRUE": "1"}.get(column.default, column.default)
+
+
 class MySQLMutator(Mutator):
     def migrate_column_stmt(
         self, source_table: Table, source: Column, target_table: Table, target: Column
@@ -76,7 +84,7 @@ class MySQLMutator(Mutator):
         if (
             source.data_type != target.data_type
             or source.nullable != target.nullable
-            or source.default != target.default
+            or _default_value(source) != _default_value(target)
             or source.identity != target.identity
             or source.comment != target.comment
         ):
diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index 7d2e65f..a3d780e 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -27,6 +27,23 @@ from .object_types import OracleObjectFactory
 LOGGER = logging.getLogger("pysqlsync.oracle")
 
 
+def to_default_expr(expr: Optional[str]) -> Optional[str]:
+    "Converts an Oracle-specific default expression into a standard default expression."
+
+    if expr is None:
+        return None
+
+    # expression is stored as typed by the user
+    expr = expr.strip()
+    m = re.fullmatch(r"(?:TIMESTAMP|DATE) ('[^']*')", expr)
+    if m is not None:
+        return m.group(1)
+    m = re.fullmatch(r"INTERVAL '0 ([^']*)' DAY TO SECOND", expr)
+    if m is not None:
+        return quote(m.group(1))
+    return expr
+
+
 @dataclass
 class OracleColumnMeta:
     column_name: str
@@ -168,7 +185,9 @@ class OracleExplorer(Explorer):
                     data_type,
                     nullable,
                     identity=identity,
-                    default=col.data_default if not identity else None,
+                    default=(
+                        to_default_expr(col.data_default) if not identity else None
+                    ),
                     description=col.comments,
                 )
             )
diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 36665ed..a8d6e95 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -1,4 +1,3 @@
-import datetime
 import re
 from dataclasses import dataclass
 from itertools import groupby
@@ -29,23 +28,17 @@ def to_default_expr(expr: Optional[str]) -> Optional[str]:
     if expr is None:
         return None
 
-    m = re.match(
-        r"^'(?P<year>\d{4})-(?P<mon>\d{2})-(?P<day>\d{2}) (?P<hour>\d{2}):(?P<min>\d{2}):(?P<sec>\d{2})'::timestamp without time zone$",
-        expr,
-    )
-    if m:
-        timestamp = datetime.datetime(
-            int(m.group("year")),
-            int(m.group("mon")),
-            int(m.group("day")),
-            int(m.group("hour")),
-            int(m.group("min")),
-            int(m.group("sec")),
-            tzinfo=None,
-        )
-        return quote(timestamp.isoformat(sep=" "))
-    else:
+    if expr in ("true", "false"):
+        return expr.upper()
+
+    # constant with a type label, e.g. `'text'::character varying` or `'-1'::integer`
+    m = re.fullmatch(r"('(?:[^']|'')*')::([^':]+)", expr)
+    if m is None:
         return expr
+    literal, label = m.groups()
+    if label in ("smallint", "integer", "bigint", "numeric", "real", "double precision"):
+        return literal[1:-1]
+    return literal
 
 
 @dataclass
-- 
2.43.0


From 1716ad94a4562dffba930825c6d5f07ff20afebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:45 +0000
Subject: [PATCH 78/83] fix: represent numbers and times with the types that
 are discovered for their columns

---
 pysqlsync/dialect/mssql/data_types.py | 16 +++++++++++++++-
 pysqlsync/dialect/mssql/discovery.py  |  7 +++++--
 pysqlsync/dialect/mssql/generator.py  |  8 +++++++-
 pysqlsync/dialect/oracle/discovery.py | 14 +++++++++++++-
 4 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/dialect/mssql/data_types.py b/pysqlsync/dialect/mssql/data_types.py
index 41a6975..2a06547 100644
--- a/pysqlsync/dialect/mssql/data_types.py
+++ b/pysqlsync/dialect/mssql/data_types.py
@@ -1,7 +1,8 @@
 import enum
-from typing import Optional
+from typing import Any, Optional
 
 import pyodbc
+from strong_typing.auxiliary import TimePrecision
 
 from pysqlsync.model.data_types import (
     SqlBooleanType,
@@ -61,6 +62,19 @@ class MSSQLDateTimeType(SqlTimestampType):
     def __str__(self) -> str:
         return "datetime2"
 
+    def parse_meta(self, meta: Any) -> None:
+        # always has the default precision
+        if not isinstance(meta, TimePrecision):
+            super().parse_meta(meta)
+
+
+class MSSQLTimeType(SqlTimeType):
+    def __init__(self) -> None:
+        super().__init__(7)
+
+    def __str__(self) -> str:
+        return "time" if self.precision == 7 else super().__str__()
+
 
 def sql_to_odbc_type(data_type: SqlDataType) -> tuple[int, int, int]:
     """
diff --git a/pysqlsync/dialect/mssql/discovery.py b/pysqlsync/dialect/mssql/discovery.py
index a0936cd..5a15620 100644
--- a/pysqlsync/dialect/mssql/discovery.py
+++ b/pysqlsync/dialect/mssql/discovery.py
@@ -5,13 +5,14 @@ from pysqlsync.base import BaseContext
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.discovery import AnsiExplorer
 from pysqlsync.formation.object_types import Column, Namespace, Table
-from pysqlsync.model.data_types import SqlTimeType, quote
+from pysqlsync.model.data_types import SqlDoubleType, quote
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 
 from .data_types import (
     MSSQLBooleanType,
     MSSQLDateTimeType,
     MSSQLEncoding,
+    MSSQLTimeType,
     MSSQLVariableCharacterType,
 )
 from .object_types import MSSQLObjectFactory
@@ -38,13 +39,15 @@ class MSSQLExplorer(AnsiExplorer):
                 SqlDiscoveryOptions(
                     substitutions={
                         "bit": MSSQLBooleanType(),
+                        # a floating-point number of 4 bytes is reported as "real"
+                        "float": SqlDoubleType(),
                         "datetime": MSSQLDateTimeType(),
                         "datetime2": MSSQLDateTimeType(),
                         "nvarchar": MSSQLVariableCharacterType(
                             encoding=MSSQLEncoding.UTF16
                         ),
                         "varchar": MSSQLVariableCharacterType(),
-                        "time": SqlTimeType(7),
+                        "time": MSSQLTimeType(),
                         "text": MSSQLVariableCharacterType(),
                     }
                 )
diff --git a/pysqlsync/dialect/mssql/generator.py b/pysqlsync/dialect/mssql/generator.py
index 0b229ed..452acfe 100644
--- a/pysqlsync/dialect/mssql/generator.py
+++ b/pysqlsync/dialect/mssql/generator.py
@@ -21,7 +21,12 @@ from pysqlsync.model.data_types import SqlFixedBinaryType
 from pysqlsync.model.properties import get_field_properties
 from pysqlsync.util.typing import override
 
-from .data_types import MSSQLBooleanType, MSSQLDateTimeType, MSSQLVariableCharacterType
+from .data_types import (
+    MSSQLBooleanType,
+    MSSQLDateTimeType,
+    MSSQLTimeType,
+    MSSQLVariableCharacterType,
+)
 from .mutation import MSSQLMutator
 from .object_types import MSSQLObjectFactory
 
@@ -53,6 +58,7 @@ class MSSQLGenerator(BaseGenerator):
                 substitutions={
                     bool: MSSQLBooleanType(),
                     datetime.datetime: MSSQLDateTimeType(),
+                    datetime.time: MSSQLTimeType(),
                     str: MSSQLVariableCharacterType(),
                     uuid.UUID: SqlFixedBinaryType(16),
                     JsonType: MSSQLVariableCharacterType(),
diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index a3d780e..ea9cfe6 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -7,7 +7,14 @@ from pysqlsync.base import BaseContext, Explorer
 from pysqlsync.formation.constraints import ForeignFactory, UniqueFactory
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.object_types import Column, Constraint, Namespace, Table
-from pysqlsync.model.data_types import SqlDecimalType, escape_like, quote
+from pysqlsync.model.data_types import (
+    SqlDecimalType,
+    SqlDoubleType,
+    SqlFloatType,
+    SqlRealType,
+    escape_like,
+    quote,
+)
 from pysqlsync.model.id_types import (
     LocalId,
     PrefixedId,
@@ -177,6 +184,11 @@ class OracleExplorer(Explorer):
                 if col.data_scale is not None and col.data_scale != 6:
                     data_type.precision = col.data_scale
                 data_type.with_time_zone = "WITH TIME ZONE" in col.data_type
+            elif isinstance(data_type, SqlFloatType):
+                if data_type.precision == 63:
+                    data_type = SqlRealType()
+                elif data_type.precision == 126:
+                    data_type = SqlDoubleType()
             nullable = bool(col.is_nullable)
             identity = bool(col.is_identity)
             columns.append(
-- 
2.43.0


From 69acc8147537799e528dcee1151f9d7b6739ee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:27 +0000
Subject: [PATCH 79/83] fix: order namespaces after a default namespace that
 they refer to

---
 pysqlsync/formation/object_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 4997d56..eda297e 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -12,7 +12,7 @@ from ..model.data_types import (
     SqlUserDefinedType,
     constant,
 )
-from ..model.id_types import LocalId, SupportsQualifiedId
+from ..model.id_types import LocalId, QualifiedId, SupportsQualifiedId
 from .object_dict import ObjectDict
 
 
@@ -689,7 +689,8 @@ class Namespace(DatabaseObject):
         for t in self.tables.values():
             items.update(t.get_referenced_types())
             items.update(t.get_referenced_tables())
-        return set(LocalId(i.scope_id) for i in items if i.scope_id is not None)
+        # objects without a schema are in the default namespace
+        return set(LocalId(i.scope_id or "") for i in items if isinstance(i, QualifiedId))
 
     def create_schema_stmt(self) -> Optional[str]:
         if self.name.local_id:
-- 
2.43.0


From 2337e744375e0c9db17825510db294959ec05572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:31 +0000
Subject: [PATCH 80/83] fix: discover objects of modules mapped to the default
 namespace

---
 pysqlsync/base.py                         | 16 ++++++++
 pysqlsync/dialect/mssql/discovery.py      |  9 ++++-
 pysqlsync/dialect/postgresql/discovery.py | 46 +++++++++++++++++------
 pysqlsync/formation/discovery.py          |  9 ++++-
 4 files changed, 65 insertions(+), 15 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 1c2e423..b446336 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1533,6 +1533,22 @@ class Explorer(abc.ABC):
     ) -> SupportsQualifiedId:
         return QualifiedId(namespace, id)
 
+    async def get_default_namespace(
+        self, object_id: SupportsQualifiedId
+    ) -> Optional[str]:
+        """
+        Name of the database schema whose objects are referred to with unqualified names.
+
+        :param object_id: The object whose references are to be discovered.
+        :returns: The current schema, or `None` if no Python module is mapped to the default namespace.
+        """
+
+        namespaces = self.conn.connection.generator.converter.options.namespaces
+        if object_id.scope_id is None or None in namespaces.dictionary.values():
+            return await self.conn.current_schema()
+        else:
+            return None
+
     @abc.abstractmethod
     async def get_table_names(self) -> list[QualifiedId]: ...
 
diff --git a/pysqlsync/dialect/mssql/discovery.py b/pysqlsync/dialect/mssql/discovery.py
index 5a15620..6bcaf57 100644
--- a/pysqlsync/dialect/mssql/discovery.py
+++ b/pysqlsync/dialect/mssql/discovery.py
@@ -57,13 +57,18 @@ class MSSQLExplorer(AnsiExplorer):
 
     async def get_columns(self, table_id: SupportsQualifiedId) -> list[Column]:
         columns = await super().get_columns(table_id)
+        schema_name = (
+            quote(table_id.scope_id)
+            if table_id.scope_id is not None
+            else self.conn.connection.generator.get_current_schema_stmt()
+        )
         identity_columns = await self.conn.query_all(
             str,
             "SELECT c.name\n"
             "FROM sys.schemas AS s\n"
             "    INNER JOIN sys.tables AS t ON t.schema_id = s.schema_id\n"
             "    INNER JOIN sys.columns AS c ON c.object_id = t.object_id\n"
-            f"WHERE s.name = {quote(table_id.scope_id or 'dbo')} AND t.name = {quote(table_id.local_id)} AND c.is_identity = 1;",
+            f"WHERE s.name = {schema_name} AND t.name = {quote(table_id.local_id)} AND c.is_identity = 1;",
         )
         default_columns = await self.conn.query_all(
             tuple[str, str],
@@ -72,7 +77,7 @@ class MSSQLExplorer(AnsiExplorer):
             "    INNER JOIN sys.tables AS t ON t.schema_id = s.schema_id\n"
             "    INNER JOIN sys.columns AS c ON c.object_id = t.object_id\n"
             "    INNER JOIN sys.default_constraints AS d ON d.object_id = c.default_object_id\n"
-            f"WHERE s.name = {quote(table_id.scope_id or 'dbo')} AND t.name = {quote(table_id.local_id)} AND c.default_object_id != 0;",
+            f"WHERE s.name = {schema_name} AND t.name = {quote(table_id.local_id)} AND c.default_object_id != 0;",
         )
         default_values = dict(default_columns)
         for c in columns:
diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index a8d6e95..384814c 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -115,12 +115,18 @@ class PostgreSQLExplorer(Explorer):
         )
         return [QualifiedId(row[0], row[1]) for row in rows]  # type: ignore
 
+    @classmethod
+    def _where_namespace(cls, object_id: SupportsQualifiedId) -> str:
+        if object_id.scope_id is not None:
+            return f"nsp.nspname = {quote(object_id.scope_id)}"
+        else:
+            return "nsp.nspname = CURRENT_SCHEMA()"
+
     @classmethod
     def _where_relation(cls, relation_id: SupportsQualifiedId, kinds: list[str]) -> str:
         conditions: list[str] = []
         conditions.append(f"cls.relname = {quote(relation_id.local_id)}")
-        if relation_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(relation_id.scope_id)}")
+        conditions.append(cls._where_namespace(relation_id))
         conditions.append(
             " OR ".join(f"(cls.relkind = {quote(kind)})" for kind in kinds)
         )
@@ -148,8 +154,7 @@ class PostgreSQLExplorer(Explorer):
     ) -> bool:
         conditions: list[str] = []
         conditions.append(f"cls.relname = {quote(table_id.local_id)}")
-        if table_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(table_id.scope_id)}")
+        conditions.append(self._where_namespace(table_id))
         conditions.append("cls.relkind = 'r' OR cls.relkind = 'v'")
         conditions.append(f"att.attname = {quote(column_id.local_id)}")
         condition = " AND ".join(f"({c})" for c in conditions)
@@ -167,8 +172,7 @@ class PostgreSQLExplorer(Explorer):
     async def get_struct(self, struct_id: SupportsQualifiedId) -> StructType:
         conditions: list[str] = []
         conditions.append(f"typ.typname = {quote(struct_id.local_id)}")
-        if struct_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(struct_id.scope_id)}")
+        conditions.append(self._where_namespace(struct_id))
         condition = " AND ".join(f"({c})" for c in conditions)
 
         struct_record = await self.conn.query_one(
@@ -201,6 +205,8 @@ class PostgreSQLExplorer(Explorer):
             "ORDER BY att.attnum",
         )
 
+        default_namespace = await self.get_default_namespace(struct_id)
+
         members: list[StructMember] = []
         for mem in member_records:
             data_type = self.discovery.sql_data_type_from_spec(
@@ -210,6 +216,8 @@ class PostgreSQLExplorer(Explorer):
                 if mem.is_array
                 else mem.type_def,
             )
+            if mem.type_schema == default_namespace:
+                data_type = SqlUserDefinedType(QualifiedId(None, mem.type_name))
             if mem.is_array:
                 data_type = SqlArrayType(data_type)
             members.append(
@@ -261,6 +269,8 @@ class PostgreSQLExplorer(Explorer):
             "ORDER BY att.attnum",
         )
 
+        default_namespace = await self.get_default_namespace(table_id)
+
         columns: list[Column] = []
         for col in column_records:
             data_type = self.discovery.sql_data_type_from_spec(
@@ -270,6 +280,8 @@ class PostgreSQLExplorer(Explorer):
                 if col.is_array
                 else col.type_def,
             )
+            if col.type_schema == default_namespace:
+                data_type = SqlUserDefinedType(QualifiedId(None, col.type_name))
             if col.is_array:
                 data_type = SqlArrayType(data_type)
             columns.append(
@@ -323,10 +335,15 @@ class PostgreSQLExplorer(Explorer):
             elif con.constraint_type == b"u":
                 unique.add(con.constraint_name, LocalId(con.source_column))
             elif con.constraint_type == b"f":
+                target_namespace = (
+                    con.target_namespace
+                    if con.target_namespace != default_namespace
+                    else None
+                )
                 foreign.add(
                     con.constraint_name,
                     LocalId(con.source_column),
-                    QualifiedId(con.target_namespace, con.target_table),
+                    QualifiedId(target_namespace, con.target_table),
                     LocalId(con.target_column),
                 )
 
@@ -346,9 +363,14 @@ class PostgreSQLExplorer(Explorer):
         schema = await self.conn.current_schema()
         if schema is None:
             raise RuntimeError("unable to fetch current schema")
-        return await self.get_namespace(LocalId(schema))
+        return await self._get_namespace(LocalId(schema), None)
 
     async def get_namespace(self, namespace_id: LocalId) -> Namespace:
+        return await self._get_namespace(namespace_id, namespace_id.id)
+
+    async def _get_namespace(
+        self, namespace_id: LocalId, scope_id: Optional[str]
+    ) -> Namespace:
         enum_records = await self.conn.query_all(
             PostgreSQLEnumMeta,
             "SELECT\n"
@@ -366,7 +388,7 @@ class PostgreSQLExplorer(Explorer):
         for enum_name, enum_groups in groupby(enum_records, key=lambda e: e.enum_name):
             enums.append(
                 EnumType(
-                    QualifiedId(namespace_id.id, enum_name),
+                    QualifiedId(scope_id, enum_name),
                     [e.enum_value for e in enum_groups],
                 )
             )
@@ -381,7 +403,7 @@ class PostgreSQLExplorer(Explorer):
 
         structs: list[StructType] = []
         for struct_name in struct_names:
-            struct = await self.get_struct(QualifiedId(namespace_id.id, struct_name))
+            struct = await self.get_struct(QualifiedId(scope_id, struct_name))
             structs.append(struct)
 
         table_names = await self.conn.query_all(
@@ -394,12 +416,12 @@ class PostgreSQLExplorer(Explorer):
 
         tables: list[Table] = []
         for table_name in table_names:
-            table = await self.get_table(QualifiedId(namespace_id.id, table_name))
+            table = await self.get_table(QualifiedId(scope_id, table_name))
             tables.append(table)
 
         if enums or structs or tables:
             return self.factory.namespace_class(
-                namespace_id, enums=enums, structs=structs, tables=tables
+                LocalId(scope_id or ""), enums=enums, structs=structs, tables=tables
             )
         else:
             return self.factory.namespace_class()
diff --git a/pysqlsync/formation/discovery.py b/pysqlsync/formation/discovery.py
index 031dbec..a5dfa8c 100644
--- a/pysqlsync/formation/discovery.py
+++ b/pysqlsync/formation/discovery.py
@@ -301,12 +301,19 @@ class AnsiExplorer(Explorer):
             "ORDER BY kcu1.ordinal_position",
         )
 
+        default_namespace = await self.get_default_namespace(table_id)
+
         constraints = ForeignFactory()
         for con in constraint_meta:
+            target_namespace = (
+                con.uq_table_schema
+                if con.uq_table_schema != default_namespace
+                else None
+            )
             constraints.add(
                 con.fk_constraint_name,
                 LocalId(con.fk_column_name),
-                QualifiedId(con.uq_table_schema, con.uq_table_name),
+                QualifiedId(target_namespace, con.uq_table_name),
                 LocalId(con.uq_column_name),
             )
         return constraints.fetch()
-- 
2.43.0


From 88282c42326fbc5c11228f65666c5f6ff2078bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:18 +0000
Subject: [PATCH 81/83] fix: keep optional members and default factories when
 classes are reshaped

---
 pysqlsync/model/entity_types.py |  8 +++++++-
 pysqlsync/util/dataclasses.py   | 19 ++++++++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/model/entity_types.py b/pysqlsync/model/entity_types.py
index c0f809d..c37854d 100644
--- a/pysqlsync/model/entity_types.py
+++ b/pysqlsync/model/entity_types.py
@@ -43,6 +43,9 @@ def make_entity(cls: type[DataclassInstance], key: str) -> type[DataclassInstanc
     key_field, value_fields = key_value_fields(cls, key)
     key_type = key_field.type
 
+    # default factories are not captured by the generic field representation
+    default_factories = {f.name: f.default_factory for f in dataclasses.fields(cls)}
+
     primary_key_type = PrimaryKey[key_type]  # type: ignore
     target_fields: list[tuple[str, Any, dataclasses.Field]] = [
         (key_field.name, primary_key_type, dataclasses.field(default=key_field.default))
@@ -52,7 +55,10 @@ def make_entity(cls: type[DataclassInstance], key: str) -> type[DataclassInstanc
             (
                 value_field.name,
                 value_field.type,
-                dataclasses.field(default=value_field.default),
+                dataclasses.field(
+                    default=value_field.default,
+                    default_factory=default_factories[value_field.name],
+                ),  # type: ignore
             )
         )
 
diff --git a/pysqlsync/util/dataclasses.py b/pysqlsync/util/dataclasses.py
index 6dadfb5..f776117 100644
--- a/pysqlsync/util/dataclasses.py
+++ b/pysqlsync/util/dataclasses.py
@@ -4,7 +4,12 @@ import types
 from typing import Optional
 
 from strong_typing.docstring import Docstring, DocstringParam, parse_type
-from strong_typing.inspection import DataclassField, DataclassInstance, dataclass_fields
+from strong_typing.inspection import (
+    DataclassField,
+    DataclassInstance,
+    dataclass_fields,
+    is_type_optional,
+)
 
 from ..formation.inspection import is_struct_type
 from ..model.properties import get_field_properties
@@ -72,11 +77,19 @@ def flatten_dataclass(
             nested_docstring = parse_type(plain_type)
             for subfield in dataclass_fields(plain_type):
                 name = f"{field.name}__{subfield.name}"
+                subfield_type = subfield.type
+                subfield_default = subfield.default
+                if props.nullable:
+                    # members of an absent structure have no value
+                    if not is_type_optional(subfield_type):
+                        subfield_type = Optional[subfield_type]
+                    if field.default is None:
+                        subfield_default = None
                 fields.append(
                     DataclassField(
                         name,
-                        subfield.type,
-                        subfield.default,
+                        subfield_type,
+                        subfield_default,
                     )
                 )
                 param = nested_docstring.params.get(subfield.name)
-- 
2.43.0


From 615ed5349984df7c5c56f5bec36b6673c49a80b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:47 +0000
Subject: [PATCH 82/83] fix: fields_to_types accepts a mapping that leaves out
 fields

---
 pysqlsync/data/exchange.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysqlsync/data/exchange.py b/pysqlsync/data/exchange.py
index 9d61b9e..013986f 100644
--- a/pysqlsync/data/exchange.py
+++ b/pysqlsync/data/exchange.py
@@ -99,6 +99,7 @@ def fields_to_types(
             reference_to_key(field.type, entity_type)
         ).tsv_type
         for field in dataclass_fields(entity_type)
+        if field.name in field_mapping
     }
 
 
-- 
2.43.0


From 77185de410ade8390079de1f2069ba4c9feca907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:51 +0000
Subject: [PATCH 83/83] fix: drop_schema in Oracle drops tables of the current
 user only

---
 pysqlsync/dialect/oracle/connection.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index 19e1fe3..304d388 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -146,9 +146,8 @@ class OracleContext(BaseContext):
     @override
     async def drop_schema(self, namespace: LocalId) -> None:
         LOGGER.debug("drop schema: %s", namespace)
-        condition = (
-            f"table_name LIKE '{escape_like(namespace.id, '~')}~_~_%' ESCAPE '~'"
-        )
+        current_schema = self.connection.generator.get_current_schema_stmt()
+        condition = f"owner = {current_schema} AND table_name LIKE '{escape_like(namespace.id, '~')}~_~_%' ESCAPE '~'"
         tables = await self.query_all(
             str,
             f"SELECT table_name FROM dba_tables WHERE {condition}",
-- 
2.43.0

