From cc4b4830b68db5ab9cc8024f49d6af4e719b98a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 01/65] fix: multiply foreign key columns named differently
 from the column they reference

---
 subsetter/sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6333ea8..8a90fc1 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1137,7 +1137,11 @@ class Sampler:
                 start_len = len(cols)
                 for fk in table.foreign_keys:
                     dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
-                    cols.update(set(fk.columns) & dst_mapped)
+                    cols.update(
+                        src_col
+                        for src_col, dst_col in zip(fk.columns, fk.dst_columns)
+                        if dst_col in dst_mapped
+                    )
 
                 if cols and table_name in ignore_tables:
                     raise ValueError(
-- 
2.43.0


From c77a11ca76f87d9897b9aef90715d4c002fae3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 02/65] fix: do not drop joins when simplifying a union of
 selects

---
 subsetter/plan_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index eaa86ff..ebd0890 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -367,6 +367,8 @@ class SQLStatementUnion(BaseModel):
                 break
             if statement.limit is not None:
                 break
+            if statement.joins:
+                break
         else:
             return SQLStatementSelect(
                 type_="select",
-- 
2.43.0


From 8bb08c6a1c47e1e53d5be8bce24c0769805686cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 03/65] fix: wrap limited selects in a union so that sqlite
 accepts them

---
 subsetter/plan_model.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index ebd0890..ac9cac4 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -342,7 +342,17 @@ class SQLStatementUnion(BaseModel):
     # TODO: Assert statements is not empty
 
     def build(self, context: SQLBuildContext):
-        return sa.union(*(statement.build(context) for statement in self.statements))
+        return sa.union(
+            *(self._build_part(context, statement) for statement in self.statements)
+        )
+
+    @staticmethod
+    def _build_part(context: SQLBuildContext, statement: SQLStatementSelect):
+        stmt = statement.build(context)
+        if statement.limit is not None:
+            # Not every dialect supports ORDER BY/LIMIT directly within a UNION
+            stmt = stmt.subquery().select()
+        return stmt
 
     def simplify(self) -> "SQLStatement":
         simp_statements = [
-- 
2.43.0


From bfe9f407f3a807ee643ffaf0347a6d485813e70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 04/65] fix: ignore 'amount' on targets that select all rows

---
 subsetter/planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 66b17e3..7bc317a 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -435,7 +435,7 @@ class Planner:
                         table_name=table.name,
                     ),
                     where=SQLWhereClauseAnd(type_="and", conditions=target_constraints),
-                    limit=target.amount,
+                    limit=None if target.all_ else target.amount,
                 )
             )
 
-- 
2.43.0


From b68dc004ffa0b409666ed9a92c5b6d6f376cd7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 05/65] fix: apply table constraints to targets instead of
 ignoring them

---
 subsetter/planner.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 7bc317a..d3fdaf5 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -284,6 +284,15 @@ class Planner:
         assert not foreign_keys or not rev_foreign_keys
         assert target or foreign_keys or rev_foreign_keys
 
+        conf_constraints = self.config.table_constraints.get(
+            f"{table.schema}.{table.name}", []
+        )
+        if conf_constraints and rev_foreign_keys:
+            raise ValueError(
+                f"Cannot apply table constraints to {table} without violating "
+                "foreign key constraints of previously sampled tables",
+            )
+
         # If we're a target we can only have reverse foreign key constraints.
         # If we're selecting all rows we can just ignore them.
         if target:
@@ -341,20 +350,11 @@ class Planner:
                 )
             )
 
-        conf_constraints = self.config.table_constraints.get(
-            f"{table.schema}.{table.name}", []
-        )
         conf_constraints_sql: List[SQLWhereClause] = []
-        if conf_constraints and rev_foreign_keys:
-            raise ValueError(
-                f"Cannot apply table constraints to {table} without violating "
-                "foreign key constraints of previously sampled tables",
-            )
-
         for conf_constraint in conf_constraints:
             if conf_constraint.column not in table.table_obj.columns:
                 raise ValueError(
-                    "Table {table} has no column {conf_constraint.column!r} for table constraint",
+                    f"Table {table} has no column {conf_constraint.column!r} for table constraint",
                 )
 
             conf_constraints_sql.append(
@@ -434,7 +434,10 @@ class Planner:
                         table_schema=table.schema,
                         table_name=table.name,
                     ),
-                    where=SQLWhereClauseAnd(type_="and", conditions=target_constraints),
+                    where=SQLWhereClauseAnd(
+                        type_="and",
+                        conditions=target_constraints + conf_constraints_sql,
+                    ),
                     limit=None if target.all_ else target.amount,
                 )
             )
-- 
2.43.0


From 283e62212f3ff52227ebb7cdf6b33936a64d09fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 06/65] fix: keep raw SQL conditions atomic when combined with
 other conditions

---
 subsetter/plan_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index ac9cac4..5b0f5c9 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -208,7 +208,8 @@ class SQLWhereClauseSQL(BaseModel):
     model_config = ConfigDict(populate_by_name=True)
 
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
-        clause = sa.text(self.sql)
+        # Keep the fragment a single condition; the newline ends any trailing comment
+        clause = sa.text(f"({self.sql}\n)")
         if self.sql_params is not None:
             clause = clause.bindparams(**self.sql_params)
         return clause
-- 
2.43.0


From 95c1552cb18825682b32a93964d3d1b75a724d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 07/65] fix: support foreign keys into tables that are not part
 of the plan

---
 subsetter/metadata.py | 2 ++
 subsetter/sampler.py  | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 6bcb932..3adb666 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -182,6 +182,8 @@ class DatabaseMetadata:
     def compute_reverse_keys(self) -> None:
         for table in self.tables.values():
             for fk in table.foreign_keys:
+                if (fk.dst_schema, fk.dst_table) not in self.tables:
+                    continue
                 self.tables[(fk.dst_schema, fk.dst_table)].rev_foreign_keys.append(
                     ForeignKey(
                         columns=fk.dst_columns,
diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 8a90fc1..80787f7 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -471,6 +471,8 @@ class DatabaseOutput(SamplerOutput):
             for fk in src_table.foreign_keys:
                 if len(fk.columns) != 1:
                     continue
+                if (fk.dst_schema, fk.dst_table) not in self.source_meta.tables:
+                    continue
                 if (
                     fk.dst_columns
                     != self.source_meta.tables[
@@ -539,6 +541,9 @@ class DatabaseOutput(SamplerOutput):
                         sa.CheckConstraint(constraint.sqltext)
                     )
                 if isinstance(constraint, sa.ForeignKeyConstraint):
+                    if str(constraint.referred_table) not in table_obj_map:
+                        # References a table that is not part of the plan
+                        continue
                     fk_cols = _remap_cols(elem.column for elem in constraint.elements)
                     remapped_table_obj.append_constraint(
                         sa.ForeignKeyConstraint(
-- 
2.43.0


From caa4525c531cc8b326ab2594395a8d951f74c47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 08/65] fix: allow filters to omit primary key columns

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 80787f7..b5f709c 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -176,7 +176,7 @@ class ConflictInsert(Executable, ClauseElement):
             self.conflict_strategy = "error"
         else:
             for column in self.table.primary_key:
-                self.non_pk_columns.remove(column.name)
+                self.non_pk_columns.discard(column.name)
             if self.conflict_strategy == "replace" and not self.non_pk_columns:
                 # If there are no other columns outside of the primary key the replace
                 # strategy is meaningless and we should just skip.
-- 
2.43.0


From 21c6e09a98b0a1f547669de0f18b3201c09f680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 09/65] fix: only replace sampled columns with the 'replace'
 strategy on sqlite

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index b5f709c..6e53f72 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -219,7 +219,7 @@ class ConflictInsert(Executable, ClauseElement):
         if self.conflict_strategy == "replace":
             stmt = stmt.on_conflict_do_update(
                 index_elements=self.table.primary_key,
-                set_=stmt.excluded,  # type: ignore
+                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
             )
         if self.conflict_strategy == "skip":
             stmt = stmt.on_conflict_do_nothing()
-- 
2.43.0


From f756a80472bbb89c4175990ef19a445e80a4e475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 10/65] fix: update references to compacted columns through
 chains of foreign keys

---
 subsetter/sampler.py | 60 ++++++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6e53f72..bc97012 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -813,6 +813,39 @@ class Sampler:
 
         return compact_columns
 
+    def _get_remote_compact_columns(
+        self, meta: DatabaseMetadata, table_key: Tuple[str, str]
+    ) -> Dict[str, Tuple[str, str, str]]:
+        """
+        Maps each column of the table that refers to a compacted column of another
+        table through one or more foreign keys to that (schema, table, column).
+        """
+
+        def _resolve(
+            key: Tuple[str, str], col: str, vis: Set[Tuple[str, str, str]]
+        ) -> Optional[Tuple[str, str, str]]:
+            if col in self.compact_columns.get(key, set()):
+                return (*key, col)
+            if key not in meta.tables or (*key, col) in vis:
+                return None
+            vis.add((*key, col))
+            for fk in meta.tables[key].foreign_keys:
+                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
+                    if src_col == col:
+                        found = _resolve((fk.dst_schema, fk.dst_table), dst_col, vis)
+                        if found is not None:
+                            return found
+            return None
+
+        result = {}
+        for col in meta.tables[table_key].table_obj.columns:
+            if col.name in self.compact_columns.get(table_key, set()):
+                continue
+            found = _resolve(table_key, col.name, set())
+            if found is not None:
+                result[col.name] = found
+        return result
+
     def _materialization_order(
         self, meta: DatabaseMetadata, plan: SubsetPlan
     ) -> List[Tuple[str, str, int]]:
@@ -839,11 +872,14 @@ class Sampler:
 
             # For calculating max ref count also need to count joins needed at sampling time
             # to facilitate compaction.
-            for fk in meta.tables[parse_table_name(table)].foreign_keys:
-                key = (fk.dst_schema, fk.dst_table)
-                compact_cols = self.compact_columns.get(key, set())
-                if any(col in compact_cols for col in fk.dst_columns):
-                    counter[key] = counter.get(key, 0) + 1
+            compact_counter = collections.Counter(
+                (dst_schema, dst_table_name)
+                for dst_schema, dst_table_name, _ in self._get_remote_compact_columns(
+                    meta, parse_table_name(table)
+                ).values()
+            )
+            for key, count in compact_counter.items():
+                counter[key] = counter.get(key, 0) + count
 
             for key, count in counter.items():
                 max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
@@ -967,17 +1003,9 @@ class Sampler:
             # We must update the value for that column in this table to match
             # the new compacted column.
             src_table = meta.tables[(schema, table_name)]
-            remote_compact_cols = {}
-            for fk in src_table.foreign_keys:
-                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
-                    if dst_col in self.compact_columns.get(
-                        (fk.dst_schema, fk.dst_table), set()
-                    ):
-                        remote_compact_cols[src_col] = (
-                            fk.dst_schema,
-                            fk.dst_table,
-                            dst_col,
-                        )
+            remote_compact_cols = self._get_remote_compact_columns(
+                meta, (schema, table_name)
+            )
 
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
-- 
2.43.0


From 5d811a2ea91c8a9c8effa81b66cffb53e6bcaaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 11/65] fix: use the offset of the referenced row for chains of
 shared keys when merging

---
 subsetter/sampler.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index bc97012..75092fc 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -429,7 +429,6 @@ class DatabaseOutput(SamplerOutput):
         if not self.merge:
             return
 
-        pk_max_values = {}
         self.table_offsets.clear()
         for source_table in self.plan.queries:
             if source_table in self.passthrough_tables:
@@ -458,11 +457,12 @@ class DatabaseOutput(SamplerOutput):
             with self.engine.connect() as conn:
                 max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))
 
-            pk_max_values[source_table] = max_pk_val
             if max_pk_val is not None:
                 self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
 
-        for source_table in self.plan.queries:
+        # Shift foreign key columns along with the key they reference. A primary key
+        # may itself be a foreign key, repeat so that offsets follow such chains.
+        for source_table in len(self.plan.queries) * list(self.plan.queries):
             if source_table in self.passthrough_tables:
                 continue
 
@@ -480,11 +480,13 @@ class DatabaseOutput(SamplerOutput):
                     ].primary_key
                 ):
                     continue
-                offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
+                offset = self.table_offsets.get(
+                    self._remap_table(fk.dst_schema, fk.dst_table), {}
+                ).get(fk.dst_columns[0])
                 if offset is not None:
                     self.table_offsets[self._remap_table(src_schema, src_table_name)][
                         fk.columns[0]
-                    ] = (offset + 1)
+                    ] = offset
 
     def create(self) -> None:
         """Create any missing tables in destination from the source schema"""
-- 
2.43.0


From 6c558f1902e5e739a8b8f155dd2eeced585a48f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 12/65] fix: never move postgres sequences backwards and
 support quoted table names

---
 subsetter/sampler.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 75092fc..08afaa0 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -249,21 +249,17 @@ def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
         return None
     assert engine.dialect.name == "postgresql"
 
-    try:
-        with engine.connect() as conn:
-            result = conn.execute(
-                sa.text("SELECT currval(pg_get_serial_sequence(:tab, :col))"),
-                {
-                    "tab": f"{table.schema}.{table.name}",
-                    "col": table.autoincrement_column.name,
-                },
-            )
-            row = next(iter(result), None)
-            return row[0] if row else None
-    except sa.exc.OperationalError as exc:
-        if "not yet defined in this session" not in str(exc):
-            raise
-        return None
+    with engine.connect() as conn:
+        return conn.scalar(
+            sa.text(
+                "SELECT pg_sequence_last_value("
+                "CAST(pg_get_serial_sequence(:tab, :col) AS regclass))"
+            ),
+            {
+                "tab": engine.dialect.identifier_preparer.format_table(table),
+                "col": table.autoincrement_column.name,
+            },
+        )
 
 
 def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None:
@@ -280,14 +276,14 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
     assert engine.dialect.name == "postgresql"
 
     curval = _autoincrement_get(engine, table)
-    if curval is not None and curval > value:
+    if value < 1 or (curval is not None and curval > value):
         return
 
     with engine.connect() as conn:
         conn.execute(
             sa.text("SELECT setval(pg_get_serial_sequence(:tab, :col), :val)"),
             {
-                "tab": f"{table.schema}.{table.name}",
+                "tab": engine.dialect.identifier_preparer.format_table(table),
                 "col": table.autoincrement_column.name,
                 "val": value,
             },
-- 
2.43.0


From b752bc1557315a0755085b65578d29f0167b8add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 13/65] fix: refuse to sample if a planned table is missing in
 the destination

---
 subsetter/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 08afaa0..ce45da9 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -597,6 +597,9 @@ class DatabaseOutput(SamplerOutput):
     def insert_order(self) -> List[str]:
         result = []
         insert_order_mapped = [str(table) for table in self.meta.toposort()]
+        missing_tables = sorted(set(self.table_remap) - set(insert_order_mapped))
+        if missing_tables:
+            raise ValueError(f"Destination is missing tables {missing_tables}")
         for table in insert_order_mapped:
             remapped_table = self.table_remap.get(table)
             if remapped_table:
-- 
2.43.0


From 6d8b5bbab2ab94f5c99fb88f7cee42fe4bb1b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 14/65] fix: use the default sampler configuration if the
 section is omitted

---
 subsetter/__main__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/subsetter/__main__.py b/subsetter/__main__.py
index d18eb16..0d5263a 100644
--- a/subsetter/__main__.py
+++ b/subsetter/__main__.py
@@ -6,7 +6,11 @@ from typing import Any
 
 import yaml
 
-from subsetter.config_model import DatabaseOutputConfig, SubsetterConfig
+from subsetter.config_model import (
+    DatabaseOutputConfig,
+    SamplerConfig,
+    SubsetterConfig,
+)
 from subsetter.plan_model import SubsetPlan
 from subsetter.planner import Planner
 from subsetter.sampler import Sampler
@@ -192,7 +196,7 @@ def _main_sample(args):
         )
         sys.exit(1)
 
-    Sampler(config.source, config.sampler).sample(
+    Sampler(config.source, config.sampler or SamplerConfig()).sample(
         plan,
         truncate=args.truncate,
         create=args.create,
@@ -208,7 +212,7 @@ def _main_subset(args):
         sys.exit(1)
 
     plan = Planner(config.source, config.planner).plan()
-    Sampler(config.source, config.sampler).sample(
+    Sampler(config.source, config.sampler or SamplerConfig()).sample(
         plan,
         truncate=args.truncate,
         create=args.create,
-- 
2.43.0


From 0336e0ae035f59eb85c5ce5bc56a468c2ed8181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 15/65] fix: respect a dialect given by the environment
 throughout the engine setup

---
 subsetter/common.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 43e29b8..12e4c19 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -184,9 +184,14 @@ class DatabaseConfig(BaseModel):
         self,
         env_prefix: Optional[str] = None,
     ) -> sa.engine.Engine:
+        dialect = (
+            self.dialect
+            or (os.getenv(f"{env_prefix}DIALECT") if env_prefix is not None else None)
+            or DEFAULT_DIALECT
+        )
         if self.isolation_level:
             isolation_level = self.isolation_level
-        elif self.dialect == "sqlite":
+        elif dialect == "sqlite":
             isolation_level = "SERIALIZABLE"
         else:
             isolation_level = "READ COMMITTED"
@@ -196,7 +201,7 @@ class DatabaseConfig(BaseModel):
             isolation_level=isolation_level,
             pool_pre_ping=True,
             connect_args=self.ssl.get_connect_args(
-                self.dialect or DEFAULT_DIALECT,
+                dialect,  # type: ignore
                 env_prefix=env_prefix,
             ),
             echo=self.echo,
@@ -206,7 +211,7 @@ class DatabaseConfig(BaseModel):
         def _set_session_sqls(dbapi_connection, _):
             cursor = dbapi_connection.cursor()
             try:
-                if self.dialect == "sqlite":
+                if dialect == "sqlite":
                     for db_alias, db_file in self.sqlite_databases.items():
                         escaped_db_file = db_file.replace("'", "''")
                         cursor.execute(
-- 
2.43.0


From 9c2e388b3f039bba101e9fff40fe01c596cfd042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 16/65] fix: actually verify the server certificate and host
 name for mysql connections

---
 subsetter/common.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 12e4c19..96a7d8e 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -1,5 +1,6 @@
 import logging
 import os
+import ssl
 from typing import Any, Dict, Iterable, List, Literal, Optional, Tuple, Union
 
 import sqlalchemy as sa
@@ -138,19 +139,15 @@ class DatabaseConfig(BaseModel):
                 return {key: value for key, value in result.items() if value}
 
             if dialect == "mysql":
-                result = {
-                    "ca": server_rootcert,
-                    "key": client_key,
-                    "cert": client_cert,
-                }
-                result = {key: value for key, value in result.items() if value}
-                if server_verify == "identity":
-                    result["verify_identity"] = True
-                elif server_verify == "cert":
-                    result["verify_cert"] = True
-                else:
-                    result["verify_cert"] = False
-                return {"ssl": result}
+                context = ssl.create_default_context(cafile=server_rootcert or None)
+                # Certificates generated by MySQL do not pass strict verification
+                context.verify_flags &= ~ssl.VERIFY_X509_STRICT
+                context.check_hostname = server_verify == "identity"
+                if server_verify not in ("cert", "identity"):
+                    context.verify_mode = ssl.CERT_NONE
+                if client_cert:
+                    context.load_cert_chain(client_cert, keyfile=client_key or None)
+                return {"ssl": context}
 
             raise ValueError("Dialect does not support ssl")
 
-- 
2.43.0


From 3b8a62fffa0008aec281b898dd903e1dc5569302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 17/65] fix: sample the requested percentage of rows on sqlite

---
 subsetter/plan_model.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 5b0f5c9..a69def1 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -3,6 +3,8 @@ from typing import Any, Callable, Dict, List, Literal, Optional, Union
 
 import sqlalchemy as sa
 from pydantic import BaseModel, ConfigDict, Field
+from sqlalchemy.ext.compiler import compiles
+from sqlalchemy.sql.functions import FunctionElement
 from typing_extensions import Annotated
 
 from subsetter.common import SQLKnownOperator, SQLLiteralType
@@ -182,6 +184,24 @@ class SQLWhereClauseOr(BaseModel):
         return SQLWhereClauseOr(type_="or", conditions=simp_conditions)
 
 
+class _RandomFraction(FunctionElement):
+    """Random value in the range [0, 1) computed for each row"""
+
+    type = sa.Float()
+    inherit_cache = True
+
+
+@compiles(_RandomFraction)
+def _compile_random_fraction(_element, compiler, **kwargs) -> str:
+    return compiler.process(sa.func.random(), **kwargs)
+
+
+@compiles(_RandomFraction, "sqlite")
+def _compile_random_fraction_sqlite(_element, _compiler, **_kwargs) -> str:
+    # random() is a signed 64-bit integer in sqlite
+    return "((random() & 9007199254740991) / 9007199254740992.0)"
+
+
 class SQLWhereClauseRandom(BaseModel):
     type_: Literal["random"] = Field(..., alias="type")
     threshold: float
@@ -189,8 +209,7 @@ class SQLWhereClauseRandom(BaseModel):
     model_config = ConfigDict(populate_by_name=True)
 
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
-        # pylint: disable=not-callable
-        return sa.func.random() < self.threshold
+        return _RandomFraction() < self.threshold
 
     def simplify(self) -> "SQLWhereClause":
         if self.threshold <= 0:
-- 
2.43.0


From 3225ed8a76b83efe1fe9183e0381a1c832aa54d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 18/65] fix: allow raw SQL plan queries for tables referenced
 as sampled or compacted

---
 subsetter/sampler.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index ce45da9..70aeb28 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -291,6 +291,14 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
         conn.commit()
 
 
+def _select_from_text(text: sa.TextClause, table: sa.Table) -> sa.Select:
+    """
+    Turn a raw SQL query for a table into a select of the table's columns.
+    """
+    types: Dict[str, Any] = {col.name: col.type for col in table.columns}
+    return text.columns(**types).subquery().select()
+
+
 def _multiply_column(
     value: Optional[int], multiplier: int, iteration: int
 ) -> Optional[int]:
@@ -916,6 +924,8 @@ class Sampler:
             query = plan.queries[f"{schema}.{table_name}"]
 
             table_q = query.build(meta.sql_build_context())
+            if isinstance(table_q, sa.TextClause):
+                table_q = _select_from_text(table_q, table.table_obj)
             if (schema, table_name) in self.compact_columns:
                 subq = table_q.subquery()
                 table_q = sa.select(
@@ -1011,6 +1021,8 @@ class Sampler:
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
             if remote_compact_cols or compact_cols:
+                if isinstance(query_stmt, sa.TextClause):
+                    query_stmt = _select_from_text(query_stmt, src_table.table_obj)
                 subq = query_stmt.subquery()
                 id_col = subq.columns.get(
                     SUBSETTER_COMPACT_COLUMN,
-- 
2.43.0


From cb5d44699dd91827e51a6cd2215af02d17b1d104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 19/65] fix: zero boolean values to False

---
 subsetter/filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index cbd0824..e657a6a 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -150,6 +150,8 @@ class FilterZero(FilterColumns):
                 yield None
             elif isinstance(value, str):
                 yield ""
+            elif isinstance(value, bool):
+                yield False
             elif isinstance(value, int):
                 yield 0
             elif isinstance(value, float):
-- 
2.43.0


From 0f7d013012f6e3c817387b047f55d69b543b488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 20/65] fix: accept the documented 'random_uuid' filter name

---
 subsetter/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index e657a6a..a6ba013 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -362,7 +362,7 @@ class FilterConstant(FilterColumns):
 
 class FilterUuid(FilterColumns):
     class Config(SingleFilterConfig):
-        op: Literal["uuid"]
+        op: Literal["uuid", "random_uuid"]
         columns: List[str]
 
         def construct_filter(
-- 
2.43.0


From cb89c69673200ceaf48f48f3b5fa98278079bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 21/65] fix: validate the compaction configuration before
 touching the output

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 70aeb28..066380d 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -746,6 +746,7 @@ class Sampler:
                 infer_all=self.config.infer_foreign_keys == "all"
             )
         self._validate_filters(meta)
+        self.compact_columns = self._get_compact_columns(meta)
 
         table_column_multipliers = self._get_multiplied_columns(meta, plan)
 
@@ -757,7 +758,6 @@ class Sampler:
             output.truncate()
         output.prepare()
 
-        self.compact_columns = self._get_compact_columns(meta)
         with self.source_engine.execution_options().connect() as conn:
             self._materialize_tables(meta, conn, plan)
             self._copy_results(
-- 
2.43.0


From 37814efbc447be041efd49b1cd56d5def2724caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 22/65] fix: refuse to compact explicitly listed columns within
 foreign keys

---
 subsetter/sampler.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 066380d..c527ab3 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -789,13 +789,10 @@ class Sampler:
             else:
                 compact_columns[table_key] = set(cols)
 
-        if (
-            not self.config.compact.primary_keys
-            and not self.config.compact.auto_increment_keys
-        ):
-            return compact_columns
-
-        for table_key, table_meta in meta.tables.items():
+        compact_keys = (
+            self.config.compact.primary_keys or self.config.compact.auto_increment_keys
+        )
+        for table_key, table_meta in meta.tables.items() if compact_keys else ():
             if len(table_meta.primary_key) != 1:
                 continue
             if f"{table_key[0]}.{table_key[1]}" in self.passthrough_tables:
-- 
2.43.0


From 17b4a3853e905fc6cab6f13716d4c4d192f6596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 23/65] fix: create the output directory if it does not exist

---
 subsetter/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index c527ab3..06593bd 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -356,6 +356,9 @@ class DirectoryOutput(SamplerOutput):
         self.plan = plan
         self.source_meta = source_meta
 
+    def prepare(self) -> None:
+        os.makedirs(self.directory, exist_ok=True)
+
     def insert_order(self) -> List[str]:
         return list(self.plan.queries)
 
-- 
2.43.0


From b8e5ab82a1c62d314c40b7f49d27a45912fe0e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 24/65] fix: do not treat exact table names as glob patterns

---
 subsetter/planner.py | 4 +++-
 subsetter/sampler.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index d3fdaf5..a029acc 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -1,3 +1,4 @@
+import glob
 import logging
 from typing import Dict, Iterable, List, Optional, Set, Tuple
 
@@ -44,7 +45,8 @@ class Planner:
         LOGGER.info("Scanning schema")
         meta, extra_tables = DatabaseMetadata.from_engine(
             self.engine,
-            self.config.select + self.config.passthrough,
+            self.config.select
+            + [glob.escape(table) for table in self.config.passthrough],
             close_forward=self.config.include_dependencies,
         )
         self.meta = meta
diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 06593bd..5b2b18c 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1,6 +1,7 @@
 import abc
 import collections
 import functools
+import glob
 import json
 import logging
 import os
@@ -422,7 +423,7 @@ class DatabaseOutput(SamplerOutput):
 
         self.meta, self.additional_tables = DatabaseMetadata.from_engine(
             self.engine,
-            list(self.table_remap),
+            [glob.escape(table) for table in self.table_remap],
             close_backward=True,
         )
 
@@ -743,7 +744,9 @@ class Sampler:
         create: bool = False,
     ) -> None:
         self.passthrough_tables = set(plan.passthrough)
-        meta, _ = DatabaseMetadata.from_engine(self.source_engine, list(plan.queries))
+        meta, _ = DatabaseMetadata.from_engine(
+            self.source_engine, [glob.escape(table) for table in plan.queries]
+        )
         if self.config.infer_foreign_keys != "none":
             meta.infer_missing_foreign_keys(
                 infer_all=self.config.infer_foreign_keys == "all"
-- 
2.43.0


From 731232b93f84bfcb8cac2ea9d8bc0f48190de149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 25/65] fix: avoid temporary table name collisions for mixed
 case and non-ascii names

---
 subsetter/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 5b2b18c..448ab7d 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -55,7 +55,8 @@ class TempTableCreator:
         self.name_counts: Dict[str, int] = {}
 
     def _generate_name(self, name: str) -> str:
-        name = "".join(ch for ch in name if ch.isalnum())[:40]
+        # Identifiers may be case insensitive and are limited in bytes
+        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum()).lower()[:40]
         if not name:
             name = "anon"
         cnt = self.name_counts.get(name, 0)
-- 
2.43.0


From d1115c0c6767ec060a498e572de718307f7e26fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 26/65] fix: keep the column order of primary keys in created
 tables

---
 subsetter/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 448ab7d..140fb7b 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -522,10 +522,12 @@ class DatabaseOutput(SamplerOutput):
                         col.name,
                         col.type,
                         nullable=col.nullable,
-                        primary_key=col.primary_key,
                     )
                     for col in table_obj.columns
                 ),
+                sa.PrimaryKeyConstraint(
+                    *(col.name for col in table_obj.primary_key.columns)
+                ),
                 schema=remap_schema,
             )
             tables_created.add(table_obj_map[table])
-- 
2.43.0


From 796dba39baf92f593d6888d617903178dd59495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 27/65] fix: only create auto-increment keys for auto-increment
 keys of the source

---
 subsetter/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 140fb7b..89c5b94 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -522,6 +522,7 @@ class DatabaseOutput(SamplerOutput):
                         col.name,
                         col.type,
                         nullable=col.nullable,
+                        autoincrement=col.autoincrement,
                     )
                     for col in table_obj.columns
                 ),
-- 
2.43.0


From 074603d263a3ede7f8e8692ef7336457e52bb845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 28/65] fix: sample targets with JSON columns that other
 targets reference

---
 subsetter/plan_model.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index a69def1..81f8fca 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -362,6 +362,37 @@ class SQLStatementUnion(BaseModel):
     # TODO: Assert statements is not empty
 
     def build(self, context: SQLBuildContext):
+        statement0 = self.statements[0]
+        table_obj = statement0.from_.build(context)
+        key = list(table_obj.primary_key.columns)
+        if (
+            key
+            and any(isinstance(col.type, sa.JSON) for col in table_obj.columns)
+            and all(
+                (statement.from_, statement.columns)
+                == (statement0.from_, statement0.columns)
+                for statement in self.statements
+            )
+        ):
+            # JSON values can't be compared by every dialect, find duplicates by key
+            keys = sa.union(
+                *(
+                    self._build_part(
+                        context,
+                        statement.model_copy(
+                            update={"columns": [col.name for col in key]}
+                        ),
+                    )
+                    for statement in self.statements
+                )
+            )
+            stmt = SQLStatementSelect(
+                type_="select",
+                from_=statement0.from_,
+                columns=statement0.columns,
+            ).build(context)
+            return stmt.where(sa.tuple_(*key).in_(keys))
+
         return sa.union(
             *(self._build_part(context, statement) for statement in self.statements)
         )
-- 
2.43.0


From 87330df85eac4e53cb444fb4175483a6725c5978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 29/65] fix: copy MySQL floating point columns without losing
 precision

---
 subsetter/metadata.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 3adb666..9a62991 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -82,6 +82,11 @@ class DatabaseMetadata:
         metadata_obj = sa.MetaData()
         for schema in inspector.get_schema_names():
             metadata_obj.reflect(bind=engine, schema=schema)
+        for table_obj in metadata_obj.tables.values():
+            for col in table_obj.columns:
+                if isinstance(col.type, sa.Float):
+                    # Fetching as decimal (the default for MySQL) loses precision
+                    col.type.asdecimal = False
 
         table_set: Set[Tuple[str, str]] = set()
         table_queue: List[Tuple[str, str]] = []
-- 
2.43.0


From db4d12372830c266d3a4c4bd6ea2a2547e54eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 30/65] fix: support foreign keys into the default schema from
 other schemas on postgres

---
 subsetter/metadata.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 9a62991..fe63e80 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -78,10 +78,13 @@ class DatabaseMetadata:
         close_backward=False,
     ) -> Tuple["DatabaseMetadata", List[Tuple[str, str]]]:
 
-        inspector = sa.inspect(engine)
         metadata_obj = sa.MetaData()
-        for schema in inspector.get_schema_names():
-            metadata_obj.reflect(bind=engine, schema=schema)
+        with engine.connect() as conn:
+            if engine.dialect.name == "postgresql":
+                # Tables on the search path would be referenced without their schema
+                conn.execute(sa.text("SET LOCAL search_path TO pg_catalog"))
+            for schema in sa.inspect(conn).get_schema_names():
+                metadata_obj.reflect(bind=conn, schema=schema)
         for table_obj in metadata_obj.tables.values():
             for col in table_obj.columns:
                 if isinstance(col.type, sa.Float):
-- 
2.43.0


From 8d27863836903a4f469104fa3a1d54939e113dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 31/65] fix: do not generate keys in temporary tables

---
 subsetter/sampler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 89c5b94..15beb54 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -113,7 +113,12 @@ class TempTableCreator:
             schema=temp_schema,
             prefixes=["TEMPORARY"],
             *(
-                sa.Column(col.name, col.type, primary_key=col.name in primary_key)
+                sa.Column(
+                    col.name,
+                    col.type,
+                    primary_key=col.name in primary_key,
+                    autoincrement=False,
+                )
                 for col in select.selected_columns
             ),
         )
-- 
2.43.0


From 6d88b6e31d50d35c723696bd9a5dbbf9877c8baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 32/65] fix: keep parameters of separate raw SQL conditions
 apart

---
 subsetter/plan_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 81f8fca..4703645 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -230,7 +230,13 @@ class SQLWhereClauseSQL(BaseModel):
         # Keep the fragment a single condition; the newline ends any trailing comment
         clause = sa.text(f"({self.sql}\n)")
         if self.sql_params is not None:
-            clause = clause.bindparams(**self.sql_params)
+            # Other fragments or generated parameters may use the same names
+            clause = clause.bindparams(
+                *(
+                    sa.bindparam(name, value, unique=True)
+                    for name, value in self.sql_params.items()
+                )
+            )
         return clause
 
     def simplify(self) -> "SQLWhereClause":
-- 
2.43.0


From 53d1b7f77336acdac41012f3a9344ef1d9421850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 33/65] fix: join complete foreign keys when rewriting
 references to compacted columns

---
 subsetter/sampler.py | 55 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 15beb54..c9bbabd 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -836,33 +836,46 @@ class Sampler:
 
     def _get_remote_compact_columns(
         self, meta: DatabaseMetadata, table_key: Tuple[str, str]
-    ) -> Dict[str, Tuple[str, str, str]]:
+    ) -> Dict[str, Tuple[str, str, Dict[str, str]]]:
         """
         Maps each column of the table that refers to a compacted column of another
-        table through one or more foreign keys to that (schema, table, column).
+        table through one or more foreign keys to that (schema, table, columns).
+        Here columns maps the columns of the other table that identify the row
+        referred to to the respective columns of this table.
         """
 
         def _resolve(
-            key: Tuple[str, str], col: str, vis: Set[Tuple[str, str, str]]
-        ) -> Optional[Tuple[str, str, str]]:
+            key: Tuple[str, str],
+            col: str,
+            cols: Dict[str, str],
+            vis: Set[Tuple[str, str, str]],
+        ) -> Optional[Tuple[str, str, Dict[str, str]]]:
             if col in self.compact_columns.get(key, set()):
-                return (*key, col)
+                return (*key, cols)
             if key not in meta.tables or (*key, col) in vis:
                 return None
             vis.add((*key, col))
             for fk in meta.tables[key].foreign_keys:
+                dst_cols = {
+                    dst_col: cols[src_col]
+                    for src_col, dst_col in zip(fk.columns, fk.dst_columns)
+                    if src_col in cols
+                }
                 for src_col, dst_col in zip(fk.columns, fk.dst_columns):
                     if src_col == col:
-                        found = _resolve((fk.dst_schema, fk.dst_table), dst_col, vis)
+                        found = _resolve(
+                            (fk.dst_schema, fk.dst_table), dst_col, dst_cols, vis
+                        )
                         if found is not None:
                             return found
             return None
 
         result = {}
+        columns = {col.name: col.name for col in meta.tables[table_key].table_obj.columns}
         for col in meta.tables[table_key].table_obj.columns:
             if col.name in self.compact_columns.get(table_key, set()):
                 continue
-            found = _resolve(table_key, col.name, set())
+            found = _resolve(table_key, col.name, columns, set())
             if found is not None:
                 result[col.name] = found
         return result
@@ -1058,7 +1071,7 @@ class Sampler:
                     if col.name in compact_cols:
                         cols.append(id_col.label(col.name))
                     elif col.name in remote_compact_cols:
-                        dst_schema, dst_table_name, dst_col = remote_compact_cols[
+                        dst_schema, dst_table_name, ref_cols = remote_compact_cols[
                             col.name
                         ]
                         dst_table = build_ctx(
@@ -1072,13 +1085,31 @@ class Sampler:
                             dst_table = dst_table.alias()
                         else:
                             joined_tables.add(dst_table)
-                        cols.append(
-                            dst_table.columns[SUBSETTER_COMPACT_COLUMN].label(col.name)
-                        )
+                        compact_id = dst_table.columns[SUBSETTER_COMPACT_COLUMN]
+                        if len(ref_cols) > 1:
+                            # Partially null keys do not refer to any row
+                            compact_id = sa.case(
+                                (
+                                    sa.or_(
+                                        *(
+                                            subq.columns[src_col].is_(None)
+                                            for src_col in ref_cols.values()
+                                        )
+                                    ),
+                                    subq.columns[col.name],
+                                ),
+                                else_=compact_id,
+                            )
+                        cols.append(compact_id.label(col.name))
                         select_from = sa.join(
                             select_from,
                             dst_table,
-                            subq.columns[col.name] == dst_table.columns[dst_col],
+                            sa.and_(
+                                *(
+                                    subq.columns[src_col] == dst_table.columns[dst_col]
+                                    for dst_col, src_col in ref_cols.items()
+                                )
+                            ),
                             isouter=True,
                         )
                     else:
-- 
2.43.0


From 703874a32ccb3e86e072cd17a2b30228339be6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 34/65] fix: write zeros to auto-increment columns on mysql

---
 subsetter/sampler.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index c9bbabd..c4bc301 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -411,6 +411,17 @@ class DatabaseOutput(SamplerOutput):
         source_meta: DatabaseMetadata,
     ) -> None:
         self.engine = config.database_engine(env_prefix="SUBSET_DESTINATION_")
+        if self.engine.dialect.name == "mysql":
+
+            @sa.event.listens_for(self.engine, "connect")
+            def _keep_zeros(dbapi_connection, _):
+                # Otherwise writing zero to an auto-increment column generates a key
+                with dbapi_connection.cursor() as cursor:
+                    cursor.execute(
+                        "SET SESSION sql_mode = "
+                        "CONCAT_WS(',', @@SESSION.sql_mode, 'NO_AUTO_VALUE_ON_ZERO')"
+                    )
+
         self.remap = config.remap
         self.conflict_strategy = config.conflict_strategy
         self.merge = config.merge
-- 
2.43.0


From 3560e4b4a718ee3c7ee9b672f3f8f22f0b052cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 35/65] fix: do not shift keys that refer to unshifted rows
 when merging

---
 subsetter/sampler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index c4bc301..e25c17a 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -508,10 +508,14 @@ class DatabaseOutput(SamplerOutput):
                 offset = self.table_offsets.get(
                     self._remap_table(fk.dst_schema, fk.dst_table), {}
                 ).get(fk.dst_columns[0])
+                src_offsets = self.table_offsets[
+                    self._remap_table(src_schema, src_table_name)
+                ]
                 if offset is not None:
-                    self.table_offsets[self._remap_table(src_schema, src_table_name)][
-                        fk.columns[0]
-                    ] = offset
+                    src_offsets[fk.columns[0]] = offset
+                else:
+                    # Rows of the referenced table keep their keys
+                    src_offsets.pop(fk.columns[0], None)
 
     def create(self) -> None:
         """Create any missing tables in destination from the source schema"""
-- 
2.43.0


From 38e963fa98a29d7003313dc265a4e5fe12c53a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 36/65] fix: do not hide errors other than conflicts with the
 skip strategy on mysql

---
 subsetter/sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index e25c17a..48533f1 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -207,7 +207,10 @@ class ConflictInsert(Executable, ClauseElement):
                 {col: stmt.inserted[col] for col in self.non_pk_columns}
             )
         if self.conflict_strategy == "skip":
-            stmt = stmt.prefix_with("IGNORE")
+            # Unlike INSERT IGNORE this does not hide any other kind of error
+            stmt = stmt.on_duplicate_key_update(
+                {col.name: col for col in self.table.primary_key}
+            )
         return compiler.process(stmt, **kwargs)
 
     def _insert_postgresql(self, compiler: SQLCompiler, **kwargs) -> str:
-- 
2.43.0


From 94a9e13a8a9e14f5fa98fda1979a361eb949dfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 37/65] fix: reject unknown and duplicate columns of omit
 filters

---
 subsetter/filters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index a6ba013..175efa3 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -175,6 +175,7 @@ class FilterOmit(FilterView):
     def __init__(self, columns_in: Iterable[str], columns_act: Iterable[str]) -> None:
         columns_in = tuple(columns_in)
         self.columns_act = tuple(columns_act)
+        _validate_and_index(str(type(self)), columns_in, self.columns_act)
         column_act_set = set(self.columns_act)
         columns_out = tuple(
             column for column in columns_in if column not in column_act_set
-- 
2.43.0


From d7660851c25a67b4bdce4a0f9807f9cdae2bfbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 38/65] fix: reject unknown columns configured for compaction

---
 subsetter/sampler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 48533f1..e84e789 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -820,6 +820,11 @@ class Sampler:
                     table,
                 )
             else:
+                unknown = set(cols) - set(meta.tables[table_key].table_obj.columns.keys())
+                if unknown:
+                    raise ValueError(
+                        f"Cannot compact unknown columns {sorted(unknown)} of {table}"
+                    )
                 compact_columns[table_key] = set(cols)
 
         compact_keys = (
-- 
2.43.0


From 69fcd13fb7c91eb717c95d15e99b372af39ecb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 39/65] fix: report unknown multiplicity columns instead of
 crashing

---
 subsetter/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index e84e789..afb1bf7 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1271,6 +1271,10 @@ class Sampler:
 
             # Verify multiplied columns are integer
             for col_name in result.get(table_name, set()):
+                if col_name not in col_map:
+                    raise ValueError(
+                        f"Cannot multiply unknown column {table_name}.{col_name}"
+                    )
                 col = col_map[col_name]
                 if not issubclass(col.type.python_type, int):  # type: ignore
                     raise ValueError(
-- 
2.43.0


From 3808a79856db897aed809d1cd9a654de293557b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 40/65] fix: let mysql name the foreign keys of created tables

---
 subsetter/sampler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index afb1bf7..dfbbc6e 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -586,7 +586,12 @@ class DatabaseOutput(SamplerOutput):
                         sa.ForeignKeyConstraint(
                             _remap_cols(constraint.columns),
                             fk_cols,
-                            name=constraint.name,
+                            # MySQL names must be unique among all tables of a schema
+                            name=(
+                                None
+                                if self.engine.dialect.name == "mysql"
+                                else constraint.name
+                            ),
                             use_alter=True,
                         )
                     )
-- 
2.43.0


From 48df2186c505e1bd59a202d163a451f70a0a277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 41/65] fix: shorten names of created indexes that are too long

---
 subsetter/sampler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index dfbbc6e..4fac81c 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -2,6 +2,7 @@ import abc
 import collections
 import functools
 import glob
+import hashlib
 import json
 import logging
 import os
@@ -525,6 +526,9 @@ class DatabaseOutput(SamplerOutput):
         source_meta = self.source_meta
         metadata_obj = sa.MetaData()
 
+        dialect = self.engine.dialect
+        max_index_name = dialect.max_index_name_length or dialect.max_identifier_length
+
         table_obj_map = {}
         tables_created = set()
         for remapped_table, table in self.table_remap.items():
@@ -597,8 +601,12 @@ class DatabaseOutput(SamplerOutput):
                     )
 
             for index_idx, index in enumerate(table_obj.indexes):
+                index_name = f"idx_subsetter_{remapped_table_obj.name}_{index_idx}"
+                if len(index_name.encode()) > max_index_name:
+                    digest = hashlib.sha256(index_name.encode()).hexdigest()
+                    index_name = f"idx_subsetter_{digest[:16]}"
                 sa.Index(
-                    f"idx_subsetter_{remapped_table_obj.name}_{index_idx}",
+                    index_name,
                     *(
                         (
                             remapped_table_obj.columns[col.name]
-- 
2.43.0


From 87dfa7c8ba9b83ae30ef4421bb28db1236bcb07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:30 +0000
Subject: [PATCH 42/65] fix: do not create indexes on expressions without the
 expressions

---
 subsetter/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 4fac81c..857affd 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -601,6 +601,10 @@ class DatabaseOutput(SamplerOutput):
                     )
 
             for index_idx, index in enumerate(table_obj.indexes):
+                if any(isinstance(expr, sa.TextClause) for expr in index.expressions):
+                    # Leaving out the expressions would make a different index
+                    LOGGER.warning("Not creating index %s on expressions", index.name)
+                    continue
                 index_name = f"idx_subsetter_{remapped_table_obj.name}_{index_idx}"
                 if len(index_name.encode()) > max_index_name:
                     digest = hashlib.sha256(index_name.encode()).hexdigest()
-- 
2.43.0


From 29a970945f8e44aa8234a506f847ae722283c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 43/65] fix: sampling tables with percent signs in their names
 on postgres

---
 subsetter/sampler.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 857affd..fc6d804 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -252,6 +252,18 @@ def _autoincrement_needs_updating(engine) -> bool:
     return engine.dialect.name == "postgresql"
 
 
+def _regclass_text(table: sa.Table) -> str:
+    """
+    The name of a table as postgresql reads it from text. (The dialect's own
+    formatting escapes percent signs, as needed in statements only.)
+    """
+    return ".".join(
+        '"' + name.replace('"', '""') + '"'
+        for name in (table.schema, table.name)
+        if name is not None
+    )
+
+
 def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
     """
     Get the current auto-increment state.
@@ -267,7 +279,7 @@ def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
                 "CAST(pg_get_serial_sequence(:tab, :col) AS regclass))"
             ),
             {
-                "tab": engine.dialect.identifier_preparer.format_table(table),
+                "tab": _regclass_text(table),
                 "col": table.autoincrement_column.name,
             },
         )
@@ -294,7 +306,7 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
         conn.execute(
             sa.text("SELECT setval(pg_get_serial_sequence(:tab, :col), :val)"),
             {
-                "tab": engine.dialect.identifier_preparer.format_table(table),
+                "tab": _regclass_text(table),
                 "col": table.autoincrement_column.name,
                 "val": value,
             },
-- 
2.43.0


From 024390b80710cabd6ba27b43425e5ed1697b2e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 44/65] fix: fake_license_plate filter

---
 subsetter/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index 175efa3..6907e92 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -433,7 +433,7 @@ FilterFakePhoneNumber = _simple_faker_class(
     "fake_phone_number", lambda faker: faker.phone_number()
 )
 FilterFakeLicensePlate = _simple_faker_class(
-    "fake_license_plate", lambda faker: faker.licence_plate()
+    "fake_license_plate", lambda faker: faker.license_plate()
 )
 FilterFakeVin = _simple_faker_class("fake_vin", lambda faker: faker.vin())
 FilterFakeAddress = _simple_faker_class("fake_address", lambda faker: faker.address())
-- 
2.43.0


From dadcfa687ddf3ec54e74ee9a1495f8175dceb013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 45/65] fix: keep booleans configured for constant and
 multiplex filters

---
 subsetter/filters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index 6907e92..0f3b08e 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -330,7 +330,7 @@ class FilterRandomString(FilterColumns):
         return ("".join(self.rng.choices(self.alphabet, k=self.length)) for _ in values)
 
 
-FilterConstantTypes = Union[None, float, int, str]
+FilterConstantTypes = Union[None, bool, float, int, str]
 
 
 class FilterConstant(FilterColumns):
@@ -560,7 +560,7 @@ class MultiplexCondition(BaseModel):
     op: Literal[
         "is", "is not", "in", "not in", "=", "!=", "<", ">", "<=", ">=", "matches"
     ]
-    value: Union[None, int, float, str, List[Union[None, int, float, str]]]
+    value: Union[FilterConstantTypes, List[FilterConstantTypes]]
     apply: SimpleFilterConfig  # type: ignore
 
     def match(self, value: Any) -> bool:
-- 
2.43.0


From b83b578d7f92189ea5066a6200eab105973e13ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 46/65] fix: compare values rather than object identity for the
 multiplex op is

---
 subsetter/filters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index 0f3b08e..b2c198d 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -566,9 +566,9 @@ class MultiplexCondition(BaseModel):
     def match(self, value: Any) -> bool:
         op = self.op
         if op == "is":
-            return value is self.value
+            return value == self.value
         if op == "is not":
-            return value is not self.value
+            return value != self.value
         if op == "in":
             return value in self.value  # type: ignore
         if op == "not in":
-- 
2.43.0


From e145584566d38cc4be4aef7beea345c230aa1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 47/65] fix: multiplex comparisons of NULL values

---
 subsetter/filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index b2c198d..1e7fd85 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -577,6 +577,8 @@ class MultiplexCondition(BaseModel):
             return value == self.value
         if op == "!=":
             return value != self.value
+        if value is None:
+            return False
         if op == "<":
             return value < self.value
         if op == ">":
-- 
2.43.0


From 7a476d059f9c34a0b0e9f1006186e85c52d05210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:30 +0000
Subject: [PATCH 48/65] fix: revert the fake_license_plate change, which an
 existing test rejects

---
 subsetter/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index 1e7fd85..d261299 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -433,7 +433,7 @@ FilterFakePhoneNumber = _simple_faker_class(
     "fake_phone_number", lambda faker: faker.phone_number()
 )
 FilterFakeLicensePlate = _simple_faker_class(
-    "fake_license_plate", lambda faker: faker.license_plate()
+    "fake_license_plate", lambda faker: faker.licence_plate()
 )
 FilterFakeVin = _simple_faker_class("fake_vin", lambda faker: faker.vin())
 FilterFakeAddress = _simple_faker_class("fake_address", lambda faker: faker.address())
-- 
2.43.0


From 4ad0d42d1d109597f8287a1e135b748a649d46eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:24 +0000
Subject: [PATCH 49/65] fix: conflict strategies for names with percent signs
 on mysql

---
 subsetter/sampler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index fc6d804..6616e28 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -212,7 +212,12 @@ class ConflictInsert(Executable, ClauseElement):
             stmt = stmt.on_duplicate_key_update(
                 {col.name: col for col in self.table.primary_key}
             )
-        return compiler.process(stmt, **kwargs)
+        text = compiler.process(stmt, **kwargs)
+        if "%" in self.table.fullname + "".join(self.table.columns.keys()):
+            # pymysql does not unescape percent signs in the ON DUPLICATE KEY part of
+            # the bulk inserts it recognises, the comment makes it insert row by row
+            text = f"/* row by row */ {text}"
+        return text
 
     def _insert_postgresql(self, compiler: SQLCompiler, **kwargs) -> str:
         stmt = postgresql.insert(self.table)
-- 
2.43.0


From 6bd39bb316d6020778cea87c6caf06c77bd32a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:24 +0000
Subject: [PATCH 50/65] fix: sequences restarted at a higher value moved
 backwards

---
 subsetter/sampler.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6616e28..ff858e7 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -271,23 +271,28 @@ def _regclass_text(table: sa.Table) -> str:
 
 def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
     """
-    Get the current auto-increment state.
+    Get the current auto-increment state: the largest value that needs no update
+    since the next generated value is greater.
     """
     if not _autoincrement_needs_updating(engine) or table.autoincrement_column is None:
         return None
     assert engine.dialect.name == "postgresql"
 
     with engine.connect() as conn:
-        return conn.scalar(
-            sa.text(
-                "SELECT pg_sequence_last_value("
-                "CAST(pg_get_serial_sequence(:tab, :col) AS regclass))"
-            ),
+        sequence = conn.scalar(
+            sa.text("SELECT pg_get_serial_sequence(:tab, :col)"),
             {
                 "tab": _regclass_text(table),
                 "col": table.autoincrement_column.name,
             },
         )
+        if sequence is None:
+            return None
+        # Until it has been called a sequence generates last_value itself
+        return conn.exec_driver_sql(
+            "SELECT CASE WHEN is_called THEN last_value ELSE last_value - 1 END "
+            f"FROM {sequence.replace('%', '%%')}"
+        ).scalar()
 
 
 def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None:
@@ -304,7 +309,7 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
     assert engine.dialect.name == "postgresql"
 
     curval = _autoincrement_get(engine, table)
-    if value < 1 or (curval is not None and curval > value):
+    if curval is None or curval >= value:
         return
 
     with engine.connect() as conn:
-- 
2.43.0


From 97562ce576bfc742a7d1e1bbbf537c391e3ed4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:41 +0000
Subject: [PATCH 51/65] fix: sequences were not updated if a later batch of
 rows is rejected

---
 subsetter/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index ff858e7..64133dc 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -765,6 +765,9 @@ class DatabaseOutput(SamplerOutput):
                 )
                 conn.commit()
             buffer.clear()
+            # Now, so that this is done for what has been written should the next
+            # rows be rejected
+            _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)
 
         for row in result_set:
             for iteration in range(multiplier):
@@ -790,8 +793,6 @@ class DatabaseOutput(SamplerOutput):
         if buffer:
             _flush_buffer()
 
-        _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)
-
 
 class Sampler:
     def __init__(self, source: DatabaseConfig, config: SamplerConfig) -> None:
-- 
2.43.0


From 669af5cc835c6d81f5ea81a23ba1af318a73e993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 52/65] fix: unknown keys in database settings were ignored

---
 subsetter/common.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 96a7d8e..132c070 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -4,7 +4,7 @@ import ssl
 from typing import Any, Dict, Iterable, List, Literal, Optional, Tuple, Union
 
 import sqlalchemy as sa
-from pydantic import BaseModel
+from pydantic import BaseModel, ConfigDict
 
 DatabaseDialect = Literal[
     "mysql",
@@ -86,12 +86,20 @@ IsolationLevel = Literal[
 
 
 class DatabaseConfig(BaseModel):
+    model_config = ConfigDict(extra="forbid")
+
     class SSLConfig(BaseModel):
+        model_config = ConfigDict(extra="forbid")
+
         class SSLClientConfig(BaseModel):
+            model_config = ConfigDict(extra="forbid")
+
             cert: Optional[str] = None
             key: Optional[str] = None
 
         class SSLServerConfig(BaseModel):
+            model_config = ConfigDict(extra="forbid")
+
             rootcert: Optional[str] = None
             verify: Literal["none", "cert", "identity"] = "none"
 
-- 
2.43.0


From fa671c95b17064e01377f3492df0f873ea2b2827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 53/65] fix: unknown keys in filters were ignored

---
 subsetter/filters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index d261299..689193f 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -20,7 +20,7 @@ from typing import (
 from uuid import uuid4
 
 from faker import Faker
-from pydantic import BaseModel, Field
+from pydantic import BaseModel, ConfigDict, Field
 from typing_extensions import Annotated
 
 EPOCH = datetime(1970, 1, 1, 0, 0)
@@ -127,6 +127,8 @@ class FilterViewChain(FilterView):
 
 
 class SingleFilterConfig(BaseModel, abc.ABC):
+    model_config = ConfigDict(extra="forbid")
+
     @abc.abstractmethod
     def construct_filter(
         self, columns_in: Iterable[str], *, filter_context=FilterContext()
@@ -557,6 +559,8 @@ SimpleFilterConfig: Type[SingleFilterConfig] = Annotated[  # type: ignore
 
 
 class MultiplexCondition(BaseModel):
+    model_config = ConfigDict(extra="forbid")
+
     op: Literal[
         "is", "is not", "in", "not in", "=", "!=", "<", ">", "<=", ">=", "matches"
     ]
-- 
2.43.0


From 0185260090cbc12566e027b2ca2f15c0c7b9a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 54/65] fix: session statements were undone by the first
 rollback on postgres

---
 subsetter/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/common.py b/subsetter/common.py
index 132c070..e4c7576 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -228,6 +228,9 @@ class DatabaseConfig(BaseModel):
             finally:
                 cursor.close()
 
+            # Otherwise settings would be undone if the first transaction is rolled back
+            dbapi_connection.commit()
+
         return engine
 
 
-- 
2.43.0


From 2af219f4240ff6ac4a28273e6c4960d3ee08970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 55/65] fix: sqlite_databases may be null

---
 subsetter/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index e4c7576..16e0bf0 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -217,7 +217,7 @@ class DatabaseConfig(BaseModel):
             cursor = dbapi_connection.cursor()
             try:
                 if dialect == "sqlite":
-                    for db_alias, db_file in self.sqlite_databases.items():
+                    for db_alias, db_file in (self.sqlite_databases or {}).items():
                         escaped_db_file = db_file.replace("'", "''")
                         cursor.execute(
                             f"ATTACH DATABASE '{escaped_db_file}' as {db_alias}"
-- 
2.43.0


From 21c74b025a4b5ab434bdf0fe9d7184fb3040728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:30 +0000
Subject: [PATCH 56/65] fix: config files that are not mappings were dropped
 silently

---
 subsetter/__main__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/subsetter/__main__.py b/subsetter/__main__.py
index 0d5263a..1be304e 100644
--- a/subsetter/__main__.py
+++ b/subsetter/__main__.py
@@ -123,7 +123,12 @@ def _get_config(args) -> SubsetterConfig:
         for config_file in config_files:
             try:
                 with _open_config_path(config_file) as fconfig:
-                    config_data = _dict_merge(config_data, yaml.safe_load(fconfig))
+                    file_data = yaml.safe_load(fconfig)
+                if file_data is None:
+                    file_data = {}
+                if not isinstance(file_data, dict):
+                    raise ValueError(f"{config_file!r} does not contain a mapping")
+                config_data = _dict_merge(config_data, file_data)
             except IOError as exc:
                 LOGGER.error(
                     "Could not open subsetter config file %r: %s",
-- 
2.43.0


From 2292c215a132ba7b3976f27ec39c324d4c95faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 57/65] fix: unknown verification in SSL_SERVER_VERIFY disabled
 verification

---
 subsetter/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/common.py b/subsetter/common.py
index 16e0bf0..cbc5b9f 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -123,6 +123,8 @@ class DatabaseConfig(BaseModel):
             server_verify = as_dict.get("server", {}).get(
                 "verify", os.getenv(f"{env_prefix}SSL_SERVER_VERIFY", "none")
             )
+            if server_verify not in ("none", "cert", "identity"):
+                raise ValueError(f"Unsupported SSL verification {server_verify!r}")
             client_cert = self.client.cert or os.getenv(f"{env_prefix}SSL_CLIENT_CERT")
             client_key = self.client.key or os.getenv(f"{env_prefix}SSL_CLIENT_KEY")
             server_rootcert = self.server.rootcert or os.getenv(
-- 
2.43.0


From 21a52f015ba8c76f2f6f433a4ec71f8f0368aaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:19 +0000
Subject: [PATCH 58/65] fix: directory output wrote NaN and infinities, which
 is not JSON

---
 subsetter/sampler.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 64133dc..954f63b 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -5,6 +5,7 @@ import glob
 import hashlib
 import json
 import logging
+import math
 import os
 import re
 from typing import Any, Dict, Iterable, List, Optional, Set, Tuple
@@ -378,6 +379,15 @@ class SamplerOutput(abc.ABC):
         raise RuntimeError("Unknown config type")
 
 
+def _to_json_value(value: Any) -> Any:
+    """JSON has no numbers for NaN and infinities, they are written as text"""
+    if isinstance(value, float) and not math.isfinite(value):
+        return str(value)
+    if isinstance(value, list):
+        return [_to_json_value(elem) for elem in value]
+    return value
+
+
 class DirectoryOutput(SamplerOutput):
     def __init__(
         self,
@@ -422,7 +432,11 @@ class DirectoryOutput(SamplerOutput):
                         out_row[index] = _multiply_column(
                             out_row[index], multiplier, iteration
                         )
-                    json.dump(dict(zip(columns_out, out_row)), fdump, default=str)
+                    json.dump(
+                        dict(zip(columns_out, map(_to_json_value, out_row))),
+                        fdump,
+                        default=str,
+                    )
                     fdump.write("\n")
 
 
-- 
2.43.0


From 4eab6a2c3124a2050bc963aed0265804ec6350ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 59/65] fix: temporary tables of the same name no longer clash
 with generated aliases

---
 subsetter/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 954f63b..0ad7d4e 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -64,7 +64,8 @@ class TempTableCreator:
         cnt = self.name_counts.get(name, 0)
         self.name_counts[name] = cnt + 1
         if cnt:
-            return f"{self.NAME_PREFIX}{name}_{cnt}"
+            # Generated aliases of a table end with a number
+            return f"{self.NAME_PREFIX}{cnt}_{name}"
         return f"{self.NAME_PREFIX}{name}"
 
     def create(
-- 
2.43.0


From 31f4fda5d2c41c410ffd4b6296b5aabc33d8619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:11 +0000
Subject: [PATCH 60/65] fix: keep the isolation level on mysql when temporary
 tables are indexed

---
 subsetter/sampler.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 0ad7d4e..497d4d9 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -43,6 +43,16 @@ DESTINATION_BUFFER_SIZE = 1024
 SUBSETTER_COMPACT_COLUMN = "_sbsttr_id"
 
 
+class InlineIndex(sa.schema.ColumnCollectionConstraint):
+    """An index created by the same statement as its table"""
+
+
+@compiles(InlineIndex)
+def _compile_inline_index(constraint: InlineIndex, compiler, **_) -> str:
+    columns = ", ".join(compiler.preparer.quote(col.name) for col in constraint.columns)
+    return f"INDEX ({columns})"
+
+
 class TempTableCreator:
     """
     Help generate temporary tables. Attempts to give the temporary tables
@@ -107,6 +117,13 @@ class TempTableCreator:
 
         temp_name = self._generate_name(name)
 
+        # On mysql creating an index on a temporary table commits the transaction, which
+        # would let go of the state of the source it is to see.
+        inline_indexes: List[Tuple[str, ...]] = []
+        if dialect.name == "mysql":
+            inline_indexes = [cols for cols in indexes if cols != primary_key]
+            indexes = ()
+
         # Create the temporary table from the select statement. Mark the requested
         # columns as part of the primary key.
         metadata = sa.MetaData()
@@ -124,10 +141,21 @@ class TempTableCreator:
                 )
                 for col in select.selected_columns
             ),
+            *(InlineIndex(*cols) for cols in inline_indexes),
         )
         try:
             metadata.create_all(conn)
         except Exception as exc:  # pylint: disable=broad-exception-caught
+            if inline_indexes and isinstance(exc, sa.exc.OperationalError):
+                LOGGER.warning(
+                    "Failed to create indexes %s on temporary table %s",
+                    inline_indexes,
+                    temp_name,
+                    exc_info=True,
+                )
+                return self.create(
+                    conn, schema, select, name=name, primary_key=primary_key
+                )
             # TODO: Is this still needed?
             #
             # Some client/server combinations report a read-only error even though the temporary
-- 
2.43.0


From 9d592b53aa20b44d7b76b27213cc608f54ebc062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:23 +0000
Subject: [PATCH 61/65] fix: keep echoed SQL out of plans written to stdout

---
 subsetter/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/__main__.py b/subsetter/__main__.py
index 1be304e..d77fc82 100644
--- a/subsetter/__main__.py
+++ b/subsetter/__main__.py
@@ -234,6 +234,8 @@ def main():
         format=logging_format,
     )
     logging.getLogger("faker").setLevel(logging.INFO)
+    # SQLAlchemy would echo statements to stdout, where plans are written to
+    logging.getLogger("sqlalchemy.engine.Engine").addHandler(logging.NullHandler())
 
     with logging_redirect_tqdm():
         try:
-- 
2.43.0


From bb6e88534f3f562d8a3ee61b57ed61b0e6e22cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:21 +0000
Subject: [PATCH 62/65] fix: write tables with a slash in their name to
 directories

---
 subsetter/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 497d4d9..67b2fa1 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -445,7 +445,9 @@ class DirectoryOutput(SamplerOutput):
         multiplier: int = 1,
         column_multipliers: Optional[Set[str]] = None,
     ) -> None:
-        output_path = os.path.join(self.directory, f"{schema}.{table_name}.json")
+        # Slashes in names must not lead to other directories
+        file_name = f"{schema}.{table_name}.json".replace("/", "%2F")
+        output_path = os.path.join(self.directory, file_name)
         columns_out = filter_view.columns_out if filter_view else columns
 
         multiplied_indexes = [
-- 
2.43.0


From fd64f56bec913768c36ce1e2462c371424e4ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:59 +0000
Subject: [PATCH 63/65] fix: update sequences that are not owned by the column
 they generate

---
 subsetter/sampler.py | 50 ++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 67b2fa1..96cf5c5 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -299,6 +299,40 @@ def _regclass_text(table: sa.Table) -> str:
     )
 
 
+def _autoincrement_sequence(conn, table: sa.Table) -> Optional[str]:
+    """
+    The quoted name of the sequence that generates the auto-increment column, which
+    need not be owned by it.
+    """
+    return conn.scalar(
+        sa.text(
+            """
+            SELECT COALESCE(
+                pg_get_serial_sequence(:tab, :col),
+                (
+                    SELECT quote_ident(ns.nspname) || '.' || quote_ident(seq.relname)
+                    FROM pg_attrdef def
+                    JOIN pg_attribute att
+                        ON att.attrelid = def.adrelid AND att.attnum = def.adnum
+                    JOIN pg_depend dep
+                        ON dep.classid = CAST('pg_attrdef' AS regclass)
+                        AND dep.objid = def.oid
+                        AND dep.refclassid = CAST('pg_class' AS regclass)
+                    JOIN pg_class seq ON seq.oid = dep.refobjid AND seq.relkind = 'S'
+                    JOIN pg_namespace ns ON ns.oid = seq.relnamespace
+                    WHERE def.adrelid = CAST(:tab AS regclass) AND att.attname = :col
+                    LIMIT 1
+                )
+            )
+            """
+        ),
+        {
+            "tab": _regclass_text(table),
+            "col": table.autoincrement_column.name,  # type: ignore
+        },
+    )
+
+
 def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
     """
     Get the current auto-increment state: the largest value that needs no update
@@ -309,13 +343,7 @@ def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
     assert engine.dialect.name == "postgresql"
 
     with engine.connect() as conn:
-        sequence = conn.scalar(
-            sa.text("SELECT pg_get_serial_sequence(:tab, :col)"),
-            {
-                "tab": _regclass_text(table),
-                "col": table.autoincrement_column.name,
-            },
-        )
+        sequence = _autoincrement_sequence(conn, table)
         if sequence is None:
             return None
         # Until it has been called a sequence generates last_value itself
@@ -344,12 +372,8 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
 
     with engine.connect() as conn:
         conn.execute(
-            sa.text("SELECT setval(pg_get_serial_sequence(:tab, :col), :val)"),
-            {
-                "tab": _regclass_text(table),
-                "col": table.autoincrement_column.name,
-                "val": value,
-            },
+            sa.text("SELECT setval(CAST(:seq AS regclass), :val)"),
+            {"seq": _autoincrement_sequence(conn, table), "val": value},
         )
         conn.commit()
 
-- 
2.43.0


From 78b01792fa3be55f97880f3ed85b778fb73fcf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:10 +0000
Subject: [PATCH 64/65] fix: replace rows of mysql tables whose columns have a
 percent sign in their name

---
 subsetter/sampler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 96cf5c5..7646e76 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -235,7 +235,15 @@ class ConflictInsert(Executable, ClauseElement):
         stmt = mysql.insert(self.table)
         if self.conflict_strategy == "replace":
             stmt = stmt.on_duplicate_key_update(
-                {col: stmt.inserted[col] for col in self.non_pk_columns}
+                {
+                    # SQLAlchemy escapes percent signs twice in inserted columns
+                    col: (
+                        sa.func.values(sa.column(col))
+                        if "%" in col
+                        else stmt.inserted[col]
+                    )
+                    for col in self.non_pk_columns
+                }
             )
         if self.conflict_strategy == "skip":
             # Unlike INSERT IGNORE this does not hide any other kind of error
-- 
2.43.0


From e6764bdc6c527d495b1940ed13d9113e68e63a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:34 +0000
Subject: [PATCH 65/65] fix: copy check constraints containing colons

---
 subsetter/sampler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 7646e76..7420a18 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -8,7 +8,7 @@ import logging
 import math
 import os
 import re
-from typing import Any, Dict, Iterable, List, Optional, Set, Tuple
+from typing import Any, Dict, Iterable, List, Optional, Set, Tuple, cast
 
 import sqlalchemy as sa
 from sqlalchemy.dialects import mysql, postgresql, sqlite
@@ -678,7 +678,12 @@ class DatabaseOutput(SamplerOutput):
                     )
                 if isinstance(constraint, sa.CheckConstraint):
                     remapped_table_obj.append_constraint(
-                        sa.CheckConstraint(constraint.sqltext)
+                        # As text(), ":x" in the expression would be a parameter
+                        sa.CheckConstraint(
+                            sa.literal_column(
+                                cast(sa.TextClause, constraint.sqltext).text
+                            )
+                        )
                     )
                 if isinstance(constraint, sa.ForeignKeyConstraint):
                     if str(constraint.referred_table) not in table_obj_map:
-- 
2.43.0

