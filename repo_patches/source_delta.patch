From 8908c9eda41c04a8b3d53bd514be1af912e5f9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 01/45] fix: escape double quotes inside quoted SQL identifiers

---
 src/util/sqlfmt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index eae728d..7173458 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -1,6 +1,6 @@
 // quoted name
 pub fn sql_qn(schema: &str) -> String {
-    format!("\"{}\"", schema)
+    format!("\"{}\"", schema.replace('"', "\"\""))
 }
 
 // quoted accessor
-- 
2.43.0


From eb6e0d660ce9744d810e3de4f9ad9e835033a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 02/45] fix: quote the schema name in CREATE SCHEMA and DROP
 SCHEMA

---
 src/snapshot/changes/schema/create_schema_change.rs | 3 ++-
 src/snapshot/changes/schema/drop_schema_change.rs   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/snapshot/changes/schema/create_schema_change.rs b/src/snapshot/changes/schema/create_schema_change.rs
index 0d6a1dd..8d0b6ba 100644
--- a/src/snapshot/changes/schema/create_schema_change.rs
+++ b/src/snapshot/changes/schema/create_schema_change.rs
@@ -1,5 +1,6 @@
 use super::DropSchemaChange;
 use crate::snapshot::{changes::Change, Database, Schema, SnapshotError};
+use crate::util::sqlfmt::sql_qn;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -20,7 +21,7 @@ impl CreateSchemaChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("CREATE SCHEMA {};", self.schema_name)
+        format!("CREATE SCHEMA {};", sql_qn(&self.schema_name))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/snapshot/changes/schema/drop_schema_change.rs b/src/snapshot/changes/schema/drop_schema_change.rs
index 5bc92e8..8650e99 100644
--- a/src/snapshot/changes/schema/drop_schema_change.rs
+++ b/src/snapshot/changes/schema/drop_schema_change.rs
@@ -1,5 +1,6 @@
 use super::CreateSchemaChange;
 use crate::snapshot::{changes::Change, Database, Schema, SnapshotError};
+use crate::util::sqlfmt::sql_qn;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -20,7 +21,7 @@ impl DropSchemaChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP SCHEMA {};", self.schema_name)
+        format!("DROP SCHEMA {};", sql_qn(&self.schema_name))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
-- 
2.43.0


From bd20cbbb0acff1e8d57881f0766693cd309cf1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 03/45] fix: render NOT NULL for the columns that are NOT NULL

---
 src/snapshot/changes/column/add_column_change.rs  | 2 +-
 src/snapshot/changes/table/create_table_change.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/snapshot/changes/column/add_column_change.rs b/src/snapshot/changes/column/add_column_change.rs
index bb62237..1fc3800 100644
--- a/src/snapshot/changes/column/add_column_change.rs
+++ b/src/snapshot/changes/column/add_column_change.rs
@@ -49,7 +49,7 @@ impl AddColumnChange {
             sql_qn(&self.column),
             self.data_type,
         )];
-        if !self.not_null {
+        if self.not_null {
             tokens.push("NOT NULL".to_string());
         }
         if let Some(default) = &self.default {
diff --git a/src/snapshot/changes/table/create_table_change.rs b/src/snapshot/changes/table/create_table_change.rs
index a16fcf7..014bbd2 100644
--- a/src/snapshot/changes/table/create_table_change.rs
+++ b/src/snapshot/changes/table/create_table_change.rs
@@ -68,8 +68,8 @@ impl CreateTableChange {
             sql_qa(&self.schema, &self.table),
             sql_l(self.columns.iter().map(|c| {
                 let mut tokens = vec![sql_qn(&c.name), c.data_type.clone()];
-                if !c.not_null {
-                    tokens.push("NULL".to_string());
+                if c.not_null {
+                    tokens.push("NOT NULL".to_string());
                 }
                 if let Some(default) = &c.default {
                     tokens.push(format!("DEFAULT {}", default));
-- 
2.43.0


From 821c2649235107415e10d5e42d1cc8bd167e3461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 04/45] fix: render the keywords of foreign key options and
 their deferrability

---
 .../changes/foreignkey/add_foreign_key_change.rs     | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/changes/foreignkey/add_foreign_key_change.rs b/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
index 940c8ac..db5f5ae 100644
--- a/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
@@ -64,7 +64,7 @@ impl AddForeignKeyChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ADD CONSTRAINT {} FOREIGN KEY ({}) REFERENCES {} ({}) {} {} {}",
+            "ALTER TABLE {} ADD CONSTRAINT {} FOREIGN KEY ({}) REFERENCES {} ({}) MATCH {} ON UPDATE {} ON DELETE {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             sql_ql(&self.columns),
@@ -73,6 +73,16 @@ impl AddForeignKeyChange {
             self.match_option,
             self.update_rule,
             self.delete_rule,
+            if self.deferrable {
+                "DEFERRABLE"
+            } else {
+                "NOT DEFERRABLE"
+            },
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
+            },
         ) + ";"
     }
 
-- 
2.43.0


From 37aaf2504209b2f8258f7fe039ff535605f662f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 05/45] fix: honour initially_deferred when altering foreign
 keys and checks

---
 src/snapshot/changes/check/alter_check_change.rs    | 13 +++++++++----
 .../changes/foreignkey/alter_foreign_key_change.rs  | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/snapshot/changes/check/alter_check_change.rs b/src/snapshot/changes/check/alter_check_change.rs
index a9b15c9..11ab680 100644
--- a/src/snapshot/changes/check/alter_check_change.rs
+++ b/src/snapshot/changes/check/alter_check_change.rs
@@ -36,15 +36,20 @@ impl AlterCheckChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ALTER CONSTRAINT {} {}",
+            "ALTER TABLE {} ALTER CONSTRAINT {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             if self.deferrable {
-                "DEFERRABLE INITIALLY DEFERRED"
+                "DEFERRABLE"
             } else {
-                "NOT DEFERRABLE INITIALLY IMMEDIATE"
+                "NOT DEFERRABLE"
             },
-        )
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
+            },
+        ) + ";"
     }
 
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs b/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
index 90f56e3..8f119e9 100644
--- a/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
@@ -38,15 +38,20 @@ impl AlterForeignKeyChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ALTER CONSTRAINT {} {}",
+            "ALTER TABLE {} ALTER CONSTRAINT {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             if self.deferrable {
-                "DEFERRABLE INITIALLY DEFERRED"
+                "DEFERRABLE"
             } else {
-                "NOT DEFERRABLE INITIALLY IMMEDIATE"
+                "NOT DEFERRABLE"
             },
-        )
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
+            },
+        ) + ";"
     }
 
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
-- 
2.43.0


From ce4f8b2774edc57c21550d7a1f2b445963c1bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 06/45] fix: terminate every rendered statement with a
 semicolon

---
 src/snapshot/changes/foreignkey/drop_foreign_key_change.rs | 2 +-
 src/snapshot/changes/view/create_view_change.rs            | 4 ++--
 src/snapshot/changes/view/drop_view_change.rs              | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/snapshot/changes/foreignkey/drop_foreign_key_change.rs b/src/snapshot/changes/foreignkey/drop_foreign_key_change.rs
index 4ac9549..d8d4c58 100644
--- a/src/snapshot/changes/foreignkey/drop_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/drop_foreign_key_change.rs
@@ -33,7 +33,7 @@ impl DropForeignKeyChange {
             "ALTER TABLE {} DROP CONSTRAINT {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
-        )
+        ) + ";"
     }
 
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/snapshot/changes/view/create_view_change.rs b/src/snapshot/changes/view/create_view_change.rs
index ad10ae8..a4d20be 100644
--- a/src/snapshot/changes/view/create_view_change.rs
+++ b/src/snapshot/changes/view/create_view_change.rs
@@ -31,9 +31,9 @@ impl CreateViewChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "CREATE VIEW {} AS {}",
+            "CREATE VIEW {} AS {};",
             crate::util::sqlfmt::sql_qa(&self.schema, &self.view),
-            self.query
+            self.query.trim_end().trim_end_matches(';')
         )
     }
 
diff --git a/src/snapshot/changes/view/drop_view_change.rs b/src/snapshot/changes/view/drop_view_change.rs
index 0f7b76b..f3977c2 100644
--- a/src/snapshot/changes/view/drop_view_change.rs
+++ b/src/snapshot/changes/view/drop_view_change.rs
@@ -27,7 +27,7 @@ impl DropViewChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP VIEW {}", sqlfmt::sql_qa(&self.schema, &self.view))
+        format!("DROP VIEW {};", sqlfmt::sql_qa(&self.schema, &self.view))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
-- 
2.43.0


From 53c9e91bb15ce350c2527cfe7559bded66682151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 07/45] fix: parenthesise CHECK expressions

---
 src/snapshot/changes/check/add_check_change.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snapshot/changes/check/add_check_change.rs b/src/snapshot/changes/check/add_check_change.rs
index 2d7338f..19514bd 100644
--- a/src/snapshot/changes/check/add_check_change.rs
+++ b/src/snapshot/changes/check/add_check_change.rs
@@ -46,7 +46,7 @@ impl AddCheckChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ADD CONSTRAINT {} CHECK {} {} {}",
+            "ALTER TABLE {} ADD CONSTRAINT {} CHECK ({}) {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             self.expression,
-- 
2.43.0


From ced4394089e52e9fdcbc4fdf3e2a36a333da4e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 08/45] fix: detect index changes other than its key
 expressions

---
 src/snapshot/diff.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 56a32fe..029639c 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -448,7 +448,11 @@ fn diff_index_create(t: &Index) -> Changeset {
 fn diff_index_update(s: &Index, t: &Index) -> Changeset {
     let mut changes = Changeset::new();
 
-    if s.key_expressions != t.key_expressions {
+    if s.table_name != t.table_name
+        || s.unique != t.unique
+        || s.method != t.method
+        || s.key_expressions != t.key_expressions
+    {
         changes.push(DropIndexChange::new(s));
         changes.push(CreateIndexChange::new(t));
     }
-- 
2.43.0


From 94d510cbd89236fceab313d5baecd77d700e6495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 09/45] fix: display snapshot errors instead of panicking

---
 src/snapshot/error.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/error.rs b/src/snapshot/error.rs
index 5f30cbd..5e398ca 100644
--- a/src/snapshot/error.rs
+++ b/src/snapshot/error.rs
@@ -104,7 +104,25 @@ impl SnapshotError {
 
 impl std::fmt::Display for SnapshotError {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        panic!("unimplemented")
+        match self {
+            Self::ObjectNotFound { path, r#type } => {
+                write!(f, "{} not found: {}", r#type, path.join("."))
+            }
+            Self::ObjectAlreadyExists { path, r#type } => {
+                write!(f, "{} already exists: {}", r#type, path.join("."))
+            }
+            Self::ObjectHasUnexpectedType {
+                path,
+                expected,
+                actual,
+            } => write!(
+                f,
+                "{} is a {}, expected a {}",
+                path.join("."),
+                actual,
+                expected
+            ),
+        }
     }
 }
 
-- 
2.43.0


From 6962d578296a83f1bcead29b29cb06f8ea0be7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 10/45] fix: revert a column rename from the state it was
 computed on

---
 src/snapshot/changes/column/rename_column_change.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/snapshot/changes/column/rename_column_change.rs b/src/snapshot/changes/column/rename_column_change.rs
index 2650e85..20b4d3b 100644
--- a/src/snapshot/changes/column/rename_column_change.rs
+++ b/src/snapshot/changes/column/rename_column_change.rs
@@ -44,13 +44,13 @@ impl RenameColumnChange {
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
         let schema = target.get_schema(&self.from_schema)?;
         let table = schema.get_relation(&self.from_table)?.as_table()?;
-        let column = table.get_column(&self.to_column)?;
+        let column = table.get_column(&self.from_column)?;
 
         Ok(RenameColumnChange {
             from_schema: schema.name.clone(),
             from_table: table.name.clone(),
-            from_column: column.name.clone(),
-            to_column: self.from_column.clone(),
+            from_column: self.to_column.clone(),
+            to_column: column.name.clone(),
         }
         .into())
     }
-- 
2.43.0


From 32fe1dd102bd9314856728e4ba581393e24fb749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 11/45] fix: render valid CREATE FUNCTION and DROP FUNCTION
 statements

---
 .../changes/function/create_functon_change.rs      |  8 ++++----
 .../changes/function/drop_function_change.rs       |  4 ++--
 src/util/sqlfmt.rs                                 | 14 ++++++++++++++
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/snapshot/changes/function/create_functon_change.rs b/src/snapshot/changes/function/create_functon_change.rs
index d747d14..6f6e296 100644
--- a/src/snapshot/changes/function/create_functon_change.rs
+++ b/src/snapshot/changes/function/create_functon_change.rs
@@ -1,6 +1,6 @@
 use super::{super::Change, DropFunctionChange};
 use crate::snapshot::{Database, Function, SnapshotError};
-use crate::util::sqlfmt::sql_qa;
+use crate::util::sqlfmt::{sql_qf, sql_s};
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -41,12 +41,12 @@ impl CreateFunctionChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "CREATE FUNCTION {} {} RETURNS {} LANGUAGE {} {}",
-            sql_qa(&self.schema, &self.function),
-            self.body,
+            "CREATE FUNCTION {} RETURNS {} LANGUAGE {} {} AS {}",
+            sql_qf(&self.schema, &self.function),
             self.returns,
             self.language,
             self.volatility,
+            sql_s(&self.body),
         ) + ";"
     }
 
diff --git a/src/snapshot/changes/function/drop_function_change.rs b/src/snapshot/changes/function/drop_function_change.rs
index a5e2dd9..fcf52bb 100644
--- a/src/snapshot/changes/function/drop_function_change.rs
+++ b/src/snapshot/changes/function/drop_function_change.rs
@@ -1,6 +1,6 @@
 use super::{super::Change, CreateFunctionChange};
 use crate::snapshot::{Database, Function, SnapshotError};
-use crate::util::sqlfmt::sql_qa;
+use crate::util::sqlfmt::sql_qf;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -25,7 +25,7 @@ impl DropFunctionChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP FUNCTION {}", sql_qa(&self.schema, &self.function),) + ";"
+        format!("DROP FUNCTION {}", sql_qf(&self.schema, &self.function),) + ";"
     }
 
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index 7173458..3298b00 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -8,6 +8,20 @@ pub fn sql_qa(schema: &str, relation: &str) -> String {
     format!("{}.{}", sql_qn(schema), sql_qn(relation))
 }
 
+// quoted function signature: a name may carry its argument list, as in "f(a integer)"
+pub fn sql_qf(schema: &str, function: &str) -> String {
+    let (name, args) = match function.find('(') {
+        Some(i) => function.split_at(i),
+        None => (function, "()"),
+    };
+    format!("{}{}", sql_qa(schema, name.trim_end()), args)
+}
+
+// string literal
+pub fn sql_s(value: &str) -> String {
+    format!("'{}'", value.replace('\'', "''"))
+}
+
 // quoted list
 pub fn sql_ql<I, S>(names: I) -> String
 where
-- 
2.43.0


From 59888ac1725af4fb838e929760f8691f8cb675fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 12/45] fix: drop the constraints of a table before the table
 so that a revert restores them

---
 src/snapshot/diff.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 029639c..ebb117a 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -200,6 +200,10 @@ fn diff_table_update(s: &Table, t: &Table) -> Changeset {
 fn diff_table_drop(s: &Table) -> Changeset {
     let mut changes = Changeset::new();
 
+    for si in s.iter_constraints() {
+        changes.append(&mut diff_constraint_drop(si));
+    }
+
     changes.push(DropTableChange::new(s));
 
     return changes;
-- 
2.43.0


From 9491b9c01fe4610c2d12d1379a1248d1485550e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 13/45] fix: refuse to apply DROP TABLE to a relation that is
 not a table

---
 src/snapshot/changes/table/drop_table_change.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/snapshot/changes/table/drop_table_change.rs b/src/snapshot/changes/table/drop_table_change.rs
index 6a036b9..5ccc362 100644
--- a/src/snapshot/changes/table/drop_table_change.rs
+++ b/src/snapshot/changes/table/drop_table_change.rs
@@ -22,6 +22,7 @@ impl DropTableChange {
 
     pub fn apply(&self, source: &mut Database) -> Result<(), SnapshotError> {
         let schema = source.get_schema_mut(&self.schema)?;
+        schema.get_relation(&self.table)?.as_table()?;
         schema.remove_relation(&self.table)?;
         Ok(())
     }
-- 
2.43.0


From 7e26fcdc875ea1c73770ee0fe29e8f61fac1a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 14/45] fix: set the owner of sequences, which no change ever
 did

---
 src/snapshot/changes/mod.rs                   |  1 +
 .../alter_sequence_owned_by_change.rs         | 65 +++++++++++++++++++
 src/snapshot/changes/sequence/mod.rs          |  2 +
 src/snapshot/diff.rs                          | 19 ++++--
 4 files changed, 83 insertions(+), 4 deletions(-)
 create mode 100644 src/snapshot/changes/sequence/alter_sequence_owned_by_change.rs

diff --git a/src/snapshot/changes/mod.rs b/src/snapshot/changes/mod.rs
index 473d932..b7cc989 100644
--- a/src/snapshot/changes/mod.rs
+++ b/src/snapshot/changes/mod.rs
@@ -79,6 +79,7 @@ define_change_impl!(
     AlterColumnSetNotNullChange,
     AlterForeignKeyChange,
     AlterPrimaryKeyChange,
+    AlterSequenceOwnedByChange,
     AlterUniqueChange,
     CreateFunctionChange,
     CreateIndexChange,
diff --git a/src/snapshot/changes/sequence/alter_sequence_owned_by_change.rs b/src/snapshot/changes/sequence/alter_sequence_owned_by_change.rs
new file mode 100644
index 0000000..4ef51c7
--- /dev/null
+++ b/src/snapshot/changes/sequence/alter_sequence_owned_by_change.rs
@@ -0,0 +1,65 @@
+use crate::{
+    snapshot::{changes::Change, Database, Sequence, SnapshotError},
+    util::sqlfmt::{sql_qa, sql_qn},
+};
+use serde::{Deserialize, Serialize};
+
+#[derive(Debug, Serialize, Deserialize, PartialEq)]
+pub struct AlterSequenceOwnedByChange {
+    pub schema: String,
+    pub sequence: String,
+
+    pub owned_by_table: Option<String>,
+    pub owned_by_column: Option<String>,
+}
+
+impl AlterSequenceOwnedByChange {
+    pub fn new(t: &Sequence) -> Self {
+        Self {
+            schema: t.schema_name.clone(),
+            sequence: t.name.clone(),
+            owned_by_table: t.owned_by_table.clone(),
+            owned_by_column: t.owned_by_column.clone(),
+        }
+    }
+
+    pub fn new_none(s: &Sequence) -> Self {
+        Self {
+            schema: s.schema_name.clone(),
+            sequence: s.name.clone(),
+            owned_by_table: None,
+            owned_by_column: None,
+        }
+    }
+
+    pub fn apply(&self, source: &mut Database) -> Result<(), SnapshotError> {
+        let schema = source.get_schema_mut(&self.schema)?;
+        let sequence = schema
+            .get_relation_mut(&self.sequence)?
+            .as_sequence_mut()?;
+
+        sequence.owned_by_table = self.owned_by_table.clone();
+        sequence.owned_by_column = self.owned_by_column.clone();
+        Ok(())
+    }
+
+    pub fn render_sql(&self) -> String {
+        let owner = match (&self.owned_by_table, &self.owned_by_column) {
+            (Some(table), Some(column)) => {
+                format!("{}.{}", sql_qa(&self.schema, table), sql_qn(column))
+            }
+            _ => "NONE".to_string(),
+        };
+        format!(
+            "ALTER SEQUENCE {} OWNED BY {};",
+            sql_qa(&self.schema, &self.sequence),
+            owner,
+        )
+    }
+
+    pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
+        let schema = target.get_schema(&self.schema)?;
+        let sequence = schema.get_relation(&self.sequence)?.as_sequence()?;
+        Ok(AlterSequenceOwnedByChange::new(sequence).into())
+    }
+}
diff --git a/src/snapshot/changes/sequence/mod.rs b/src/snapshot/changes/sequence/mod.rs
index 8cf0ea2..0675dd3 100644
--- a/src/snapshot/changes/sequence/mod.rs
+++ b/src/snapshot/changes/sequence/mod.rs
@@ -1,5 +1,7 @@
+mod alter_sequence_owned_by_change;
 mod create_sequence_change;
 mod drop_sequence_change;
 
+pub use alter_sequence_owned_by_change::*;
 pub use create_sequence_change::*;
 pub use drop_sequence_change::*;
diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index ebb117a..8ed60b5 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -473,6 +473,9 @@ fn diff_index_drop(s: &Index) -> Changeset {
 fn diff_sequence_create(t: &Sequence) -> Changeset {
     let mut changes = Changeset::new();
     changes.push(CreateSequenceChange::new(t));
+    if t.owned_by_table.is_some() {
+        changes.push(AlterSequenceOwnedByChange::new(t));
+    }
     return changes;
 }
 
@@ -486,11 +489,16 @@ fn diff_sequence_update(s: &Sequence, t: &Sequence) -> Changeset {
         || s.start != t.start
         || s.cache != t.cache
         || s.cycle != t.cycle
-        || s.owned_by_table != t.owned_by_table
-        || s.owned_by_column != t.owned_by_column
     {
-        changes.push(DropSequenceChange::new(s));
-        changes.push(CreateSequenceChange::new(t));
+        changes.append(&mut diff_sequence_drop(s));
+        changes.append(&mut diff_sequence_create(t));
+    } else if s.owned_by_table != t.owned_by_table || s.owned_by_column != t.owned_by_column {
+        if s.owned_by_table.is_some() {
+            changes.push(AlterSequenceOwnedByChange::new_none(s));
+        }
+        if t.owned_by_table.is_some() {
+            changes.push(AlterSequenceOwnedByChange::new(t));
+        }
     }
 
     return changes;
@@ -498,6 +506,9 @@ fn diff_sequence_update(s: &Sequence, t: &Sequence) -> Changeset {
 
 fn diff_sequence_drop(s: &Sequence) -> Changeset {
     let mut changes = Changeset::new();
+    if s.owned_by_table.is_some() {
+        changes.push(AlterSequenceOwnedByChange::new_none(s));
+    }
     changes.push(DropSequenceChange::new(s));
     return changes;
 }
-- 
2.43.0


From 77a3439cb60c72009ac29c3998d38dc0f35d4349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 15/45] fix: order changes by the dependencies between objects

---
 src/snapshot/diff.rs | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 8ed60b5..ce77dfa 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -18,7 +18,47 @@ impl Changeset {
 }
 
 pub fn compare_diff(s: &Database, t: &Database) -> Vec<Change> {
-    return diff_database_update(s, t).changes;
+    let mut changes = diff_database_update(s, t).changes;
+    changes.sort_by_key(get_change_phase);
+    return changes;
+}
+
+/// Position of a change in a changeset: objects are dropped before what they depend on
+/// and created after it.
+fn get_change_phase(change: &Change) -> u8 {
+    match change {
+        Change::CreateSchemaChange(_) => 0,
+
+        Change::DropViewChange(_) => 1,
+        Change::DropForeignKeyChange(_) => 2,
+        Change::DropPrimaryKeyChange(_)
+        | Change::DropUniqueChange(_)
+        | Change::DropCheckChange(_) => 3,
+        Change::DropIndexChange(_) => 4,
+        Change::AlterSequenceOwnedByChange(c) if c.owned_by_table.is_none() => 5,
+        Change::DropColumnChange(_) | Change::DropTableChange(_) => 6,
+        Change::DropSequenceChange(_) | Change::DropFunctionChange(_) => 7,
+        Change::DropSchemaChange(_) => 8,
+
+        Change::CreateSequenceChange(_) | Change::CreateFunctionChange(_) => 9,
+        Change::CreateTableChange(_)
+        | Change::AddColumnChange(_)
+        | Change::AlterColumnSetDataTypeChange(_)
+        | Change::AlterColumnSetDefaultChange(_)
+        | Change::AlterColumnSetNotNullChange(_)
+        | Change::RenameColumnChange(_) => 10,
+        Change::AlterSequenceOwnedByChange(_) => 11,
+        Change::AddPrimaryKeyChange(_)
+        | Change::AddUniqueChange(_)
+        | Change::AddCheckChange(_)
+        | Change::AlterPrimaryKeyChange(_)
+        | Change::AlterUniqueChange(_)
+        | Change::AlterCheckChange(_)
+        | Change::AlterForeignKeyChange(_) => 12,
+        Change::CreateIndexChange(_) => 13,
+        Change::AddForeignKeyChange(_) => 14,
+        Change::CreateViewChange(_) => 15,
+    }
 }
 
 fn diff_database_update(s: &Database, t: &Database) -> Changeset {
-- 
2.43.0


From e7e23296cad54d4984b5a0f8627684fd424cbe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 16/45] fix: recreate a primary key whose deferrability changes

---
 src/snapshot/diff.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index ce77dfa..c247cc9 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -321,11 +321,13 @@ fn diff_primary_key_create(t: &PrimaryKey) -> Changeset {
 fn diff_primary_key_update(s: &PrimaryKey, t: &PrimaryKey) -> Changeset {
     let mut changes = Changeset::new();
 
-    if s.columns != t.columns {
+    // postgres only alters the deferrability of foreign keys in place
+    if s.columns != t.columns
+        || s.deferrable != t.deferrable
+        || s.initially_deferred != t.initially_deferred
+    {
         changes.push(DropPrimaryKeyChange::new(s));
         changes.push(AddPrimaryKeyChange::new(t));
-    } else if s.deferrable != t.deferrable || s.initially_deferred != t.initially_deferred {
-        changes.push(AlterPrimaryKeyChange::new(t));
     }
 
     return changes;
-- 
2.43.0


From 3973f3f1bd33c2946f6758bc89f8826f2277854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 17/45] fix: exit with a failure status when a command fails

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index b97e8f7..aa8d24f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -87,6 +87,7 @@ fn main() {
     };
     if let Err(e) = res {
         eprintln!("{}", e);
+        std::process::exit(1);
     }
 }
 
-- 
2.43.0


From eb1960c42c9c5eab2b72f244c48a7811c07d49f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 18/45] fix: report a failing statement of a migration instead
 of panicking

---
 src/cmd/down.rs | 6 +++---
 src/cmd/up.rs   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cmd/down.rs b/src/cmd/down.rs
index 58b3f3d..5b73fc5 100644
--- a/src/cmd/down.rs
+++ b/src/cmd/down.rs
@@ -37,13 +37,13 @@ pub fn down(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     }
 
     for name in versions {
-        let v = dbh.get_version(&mut tx, &name).unwrap();
+        let v = dbh.get_version(&mut tx, &name)?;
         println!("  Reverting version {}", v.name.green());
         for stmt in &v.down {
-            tx.execute(stmt, &[]).unwrap();
+            tx.execute(stmt, &[])?;
             println!("    {}", stmt.dimmed());
         }
-        dbh.delete_version(&mut tx, &v).unwrap();
+        dbh.delete_version(&mut tx, &v)?;
     }
 
     tx.commit()?;
diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index 4bc8edf..47448aa 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -42,10 +42,10 @@ pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
         let v = fsh.get_version(&version_name)?;
         println!("  Applying version {}", v.name.green());
         for stmt in &v.up {
-            tx.execute(stmt, &[]).unwrap();
+            tx.execute(stmt, &[])?;
             println!("    {}", stmt.dimmed(),);
         }
-        dbh.save_version(&mut tx, &v).unwrap();
+        dbh.save_version(&mut tx, &v)?;
     }
 
     tx.commit()?;
-- 
2.43.0


From 719c39a9ff5917d867b7845461de937f9f03e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 19/45] fix: up, status and clone use the directories of the
 chosen profile

---
 src/cmd/clone.rs  | 2 +-
 src/cmd/status.rs | 4 ++--
 src/cmd/up.rs     | 2 +-
 src/main.rs       | 1 +
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cmd/clone.rs b/src/cmd/clone.rs
index 143d505..3c780cb 100644
--- a/src/cmd/clone.rs
+++ b/src/cmd/clone.rs
@@ -8,7 +8,7 @@ pub fn clone(profile_name: &str) -> Result<(), AnyError> {
     let cwd: std::path::PathBuf = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
     let database_url = project.resolve_database_url(profile_name)?;
-    let definition_dir = project.resolve_default_definitions_dir()?;
+    let definition_dir = project.resolve_definitions_dir(profile_name)?;
 
     let mut pg_client = Client::connect(&database_url, NoTls)?;
     let mut tx = pg_client.transaction()?;
diff --git a/src/cmd/status.rs b/src/cmd/status.rs
index 46b53b0..ec1197a 100644
--- a/src/cmd/status.rs
+++ b/src/cmd/status.rs
@@ -15,8 +15,8 @@ use postgres::{Client, NoTls};
 pub fn status(profile_name: &str) -> Result<(), AnyError> {
     let cwd = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
-    let history_dir = project.resolve_default_history_dir()?;
-    let definition_dir = project.resolve_default_definitions_dir()?;
+    let history_dir = project.resolve_history_dir(profile_name)?;
+    let definition_dir = project.resolve_definitions_dir(profile_name)?;
     let database_url = project.resolve_database_url(profile_name)?;
 
     let fsh = FSHistory::from_dir(&history_dir)?;
diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index 47448aa..482cb2c 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -9,7 +9,7 @@ use postgres::{Client, NoTls};
 pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     let cwd: std::path::PathBuf = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
-    let history_dir = project.resolve_default_history_dir()?;
+    let history_dir = project.resolve_history_dir(profile_name)?;
     let database_url = project.resolve_database_url(profile_name)?;
     let metadata_schema = project.resolve_metadata_schema(&profile_name)?;
 
diff --git a/src/main.rs b/src/main.rs
index aa8d24f..28d9dce 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,6 +58,7 @@ fn main() {
         .subcommand(
           Command::new("clone")
           .about("inspects the database and creates snapshot and the initial migration")
+          .arg(clap::arg!(--"profile" <String>).default_value("database"))
         )
         .subcommand(
           Command::new("print")
-- 
2.43.0


From 223f188266f6dbaf29fd110d5c3ccc8b898293a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 20/45] fix: quote the metadata schema

---
 src/history/dbh.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index 10efbd8..547e125 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -2,6 +2,8 @@ use postgres::Transaction;
 
 use crate::snapshot::changes::Change;
 
+use crate::util::sqlfmt::sql_qn;
+
 use super::Version;
 
 pub struct DBHistory {
@@ -158,7 +160,7 @@ impl DBHistory {
 }
 
 fn format_create_schema_sql(schema: &str) -> String {
-    format!("CREATE SCHEMA {}", schema)
+    format!("CREATE SCHEMA {}", sql_qn(schema))
 }
 fn format_create_table_sql(schema: &str) -> String {
     format!(
@@ -171,45 +173,45 @@ fn format_create_table_sql(schema: &str) -> String {
     applied_at TIMESTAMP NOT NULL DEFAULT now(),
     applied_order SERIAL NOT NULL UNIQUE
 )",
-        schema, schema,
+        sql_qn(schema), sql_qn(schema),
     )
 }
 fn format_insert_version_sql(schema: &str) -> String {
     format!(
         "INSERT INTO {}.version (name, previous, changes, up, down) VALUES ($1, $2, $3::TEXT::JSON, $4, $5)",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_current_version_sql(schema: &str) -> String {
     format!(
         "SELECT name, previous, changes::TEXT, up, down, applied_at FROM {}.version ORDER BY applied_order DESC LIMIT 1",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_delete_version_sql(schema: &str) -> String {
-    format!("DELETE FROM {}.version WHERE name = $1", schema)
+    format!("DELETE FROM {}.version WHERE name = $1", sql_qn(schema))
 }
 
 fn format_get_downward_range_sql(schema: &str) -> String {
     format!(
         "SELECT name FROM {}.version WHERE $1 >= applied_order AND applied_order > $2 ORDER BY applied_order DESC",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_get_applied_order_sql(schema: &str) -> String {
     format!(
         "SELECT applied_order FROM {}.version WHERE name = $1",
-        schema
+        sql_qn(schema)
     )
 }
 
 fn format_get_version_sql(schema: &str) -> String {
     format!(
         "SELECT name, previous, changes::TEXT, up, down FROM {}.version WHERE name = $1",
-        schema
+        sql_qn(schema)
     )
 }
 
-- 
2.43.0


From 7ec6370bbbea1a26920764b7b78b686e4cf3f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 21/45] fix: version names may themselves end in .yaml

---
 src/history/fsh.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 4463aa7..cc90741 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -35,10 +35,10 @@ impl FSHistory {
             let filetype = entry.file_type()?;
             let filename = entry.file_name().to_str().unwrap().to_owned();
 
-            if filetype.is_dir() || !filename.ends_with(".yaml") {
-                continue;
-            }
-            let version_name = filename.trim_end_matches(".yaml").to_owned();
+            let version_name = match filename.strip_suffix(".yaml") {
+                Some(name) if !filetype.is_dir() => name.to_owned(),
+                _ => continue,
+            };
 
             let v = history.get_version(&version_name)?;
 
-- 
2.43.0


From a24d66f58c548d4e51bfaf7adede5b56ec3d5c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 22/45] fix: report a cyclic history instead of looping forever

---
 src/history/fsh.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index cc90741..d370b89 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     fmt::{Display, Formatter},
     fs::File,
     path::PathBuf,
@@ -55,7 +55,13 @@ impl FSHistory {
         }
 
         let mut curr_version = "init".to_string();
+        let mut seen = HashSet::new();
         while let Some(next) = history.next_map.get(&curr_version) {
+            if !seen.insert(curr_version.clone()) {
+                return Err(FSHistoryError::Cyclic {
+                    version: curr_version,
+                });
+            }
             history.current_version = curr_version.clone();
             curr_version = next.clone();
         }
@@ -78,12 +84,15 @@ impl FSHistory {
     pub fn get_upward_range(&self, from: &str, to: &str) -> Result<Vec<String>, FSHistoryError> {
         let mut versions = vec![];
         let mut curr = to.to_owned();
+        let mut seen = HashSet::new();
 
         loop {
             let v = self.get_version(&curr)?;
 
             if curr == from {
                 break;
+            } else if !seen.insert(curr.clone()) {
+                return Err(FSHistoryError::Cyclic { version: curr });
             } else if let Some(previous) = v.previous.as_ref() {
                 curr = previous.clone();
                 versions.push(v.name);
@@ -123,6 +132,9 @@ pub enum FSHistoryError {
         high: String,
         low: String,
     },
+    Cyclic {
+        version: String,
+    },
     FileSystemError(std::io::Error),
     SerdeYAMLError(serde_yaml::Error),
 }
@@ -158,6 +170,9 @@ impl Display for FSHistoryError {
                 "version \"{}\" is not reachable from version \"{}\"",
                 high, low
             ),
+            FSHistoryError::Cyclic { version } => {
+                write!(f, "version \"{}\" comes after itself", version)
+            }
             FSHistoryError::FileSystemError(err) => write!(f, "{}", err),
             FSHistoryError::SerdeYAMLError(err) => write!(f, "{}", err),
         }
-- 
2.43.0


From 88c63adf6e932f2093b4c616576e8d3fb3673abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 23/45] fix: init leaves an unreadable configuration alone

---
 src/cmd/init.rs    | 12 ++++++++----
 src/project/mod.rs |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/cmd/init.rs b/src/cmd/init.rs
index 640bb2f..7ac753f 100644
--- a/src/cmd/init.rs
+++ b/src/cmd/init.rs
@@ -1,15 +1,19 @@
 use crate::definition;
 use crate::error::AnyError;
 use crate::history::{FSHistory, Version};
-use crate::project::{discover_project, initialize_project};
+use crate::project::{discover_project, initialize_project, ProjectError};
 use crate::snapshot::Database;
 
 pub fn init() -> Result<(), AnyError> {
     let cwd = std::env::current_dir()?;
 
-    if let Ok(proj) = discover_project(cwd.clone()) {
-        println!("Project already exists at: {}", proj.base_dir.display());
-        return Ok(());
+    match discover_project(cwd.clone()) {
+        Ok(proj) => {
+            println!("Project already exists at: {}", proj.base_dir.display());
+            return Ok(());
+        }
+        Err(ProjectError::ProjectNotFound { .. }) => (),
+        Err(e) => return Err(e.into()),
     }
 
     let project = initialize_project(cwd)?;
diff --git a/src/project/mod.rs b/src/project/mod.rs
index d49bb3e..e9a217c 100644
--- a/src/project/mod.rs
+++ b/src/project/mod.rs
@@ -124,7 +124,7 @@ pub fn initialize_project(base_dir: PathBuf) -> Result<Project, ProjectError> {
     let yaml_project = create_base_yaml_project();
     let s = serde_yaml::to_string(&yaml_project).unwrap();
     let config_file = base_dir.join(CONFIG_FILE);
-    fs::write(config_file, &s).unwrap();
+    fs::write(config_file, &s)?;
     load_project_from_str(base_dir, &s)
 }
 
-- 
2.43.0


From aea60506c93de8814dd7ea9d3f4c67742bfd79ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 24/45] fix: make does not overwrite a version made in the same
 second

---
 src/cmd/make.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmd/make.rs b/src/cmd/make.rs
index e6f9502..51c195c 100644
--- a/src/cmd/make.rs
+++ b/src/cmd/make.rs
@@ -23,6 +23,9 @@ pub fn make(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
         chrono::Local::now().format("%Y%m%d_%H%M%S"),
         version.unwrap_or("auto"),
     );
+    if fsh.get_version(&to_make.name).is_ok() {
+        return Err(format!("version \"{}\" already exists", to_make.name).into());
+    }
     let new_stage = Version::new_stage(&to_make.name);
 
     println!("Made version: {}", &to_make.name.green());
-- 
2.43.0


From a19f31ba31471fb77047a3ec2728e7198a987785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 25/45] fix: definitions may give a sequence's increment and an
 index's method

---
 src/definition/base/yaml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index a2cd5e1..3f12c6d 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -5,7 +5,7 @@ use super::{
     error::Error,
 };
 
-static KEYWORDS: [&str; 33] = [
+static KEYWORDS: [&str; 35] = [
     "foreign key",
     "initially deferred",
     "not null",
@@ -23,6 +23,7 @@ static KEYWORDS: [&str; 33] = [
     "deferrable",
     "function",
     "volatility",
+    "increment",
     "index",
     "language",
     "match",
@@ -38,6 +39,7 @@ static KEYWORDS: [&str; 33] = [
     "table",
     "type",
     "unique",
+    "using",
     "view",
 ];
 
-- 
2.43.0


From 3530d1c33c0d6c748aafc096a29093a2a267db68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 26/45] fix: a definition's keyword ends where the word ends

---
 src/definition/base/yaml.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index 3f12c6d..f1640c4 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -78,8 +78,11 @@ fn create_node_from_mapping_key(key: &str) -> Result<Node, Error> {
 
     let mut found = false;
     for keyword in KEYWORDS.iter() {
-        if key.to_lowercase().starts_with(keyword) {
+        if let Some(name) = strip_keyword(key, keyword) {
             node.r#type = keyword;
+            if !name.is_empty() {
+                node.name = Some(name.to_string());
+            }
             found = true;
             break;
         }
@@ -87,13 +90,22 @@ fn create_node_from_mapping_key(key: &str) -> Result<Node, Error> {
     if !found {
         return Err(Error::new(format!("Invalid key: {}", key)));
     }
-    let name = key[node.r#type.len()..].trim().to_string();
-    if !name.is_empty() {
-        node.name = Some(name);
-    }
     Ok(node)
 }
 
+/// The rest of a key that consists of the keyword, in any case, and possibly a name.
+fn strip_keyword<'a>(key: &'a str, keyword: &str) -> Option<&'a str> {
+    let head = key.get(..keyword.len())?;
+    let rest = &key[keyword.len()..];
+    if !head.eq_ignore_ascii_case(keyword) {
+        return None;
+    }
+    if !rest.is_empty() && !rest.starts_with(char::is_whitespace) {
+        return None;
+    }
+    Some(rest.trim())
+}
+
 fn parse_serde_sequence_to_ddl_list(val: &serde_yaml::Sequence) -> Result<Vec<Value>, Error> {
     let mut result: Vec<Value> = Vec::with_capacity(val.len());
     for v in val {
-- 
2.43.0


From 00024bd146cbf512d05d3ae4abbe0b397dc39e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 27/45] fix: report a mapping inside a list instead of
 panicking

---
 src/definition/base/yaml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index f1640c4..635a512 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -128,7 +128,7 @@ fn parse_serde_value_to_ddl_value(val: &serde_yaml::Value) -> Result<Value, Erro
             return Ok(Value::Boolean(*val_bool));
         }
         serde_yaml::Value::Mapping(_) => {
-            unreachable!()
+            return Err(Error::new(format!("Invalid value: {:?}", val)));
         }
         serde_yaml::Value::Sequence(val_sequence) => {
             let parsed = parse_serde_sequence_to_ddl_list(val_sequence)?;
-- 
2.43.0


From b15364d801f404fd0eb6141ec60e837987db4dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 28/45] fix: report errors in the definition of an index

---
 src/definition/ddl/index.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/definition/ddl/index.rs b/src/definition/ddl/index.rs
index 198cbc9..1e4f901 100644
--- a/src/definition/ddl/index.rs
+++ b/src/definition/ddl/index.rs
@@ -49,6 +49,10 @@ pub fn parse_index_definition(ctx: &Context, n: &Node) -> Result<Index, Error> {
         errors.push(Error::new_attribute_required(n, "on"));
     }
 
+    if !errors.is_empty() {
+        return Err(Error::new_has_errors(n, errors));
+    }
+
     Ok(Index {
         schema_name: ctx.schema_name.clone(),
         table_name: table_name.unwrap(),
-- 
2.43.0


From 8be800a84dc0d57ee20f374a6c4cb3808ec766fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 29/45] fix: find the kind of a constraint wherever it is given
 and report when it is not

---
 src/definition/ddl/constraint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/definition/ddl/constraint.rs b/src/definition/ddl/constraint.rs
index d1a4560..8715cd6 100644
--- a/src/definition/ddl/constraint.rs
+++ b/src/definition/ddl/constraint.rs
@@ -42,10 +42,10 @@ pub fn parse_constraint_definition(
                 let def = parse_check_constraint_definition(schema_name, table_name, n)?;
                 return Ok(Constraint::Check(def));
             }
-            _ => unreachable!(),
+            _ => (),
         }
     }
-    unreachable!()
+    Err(Error::new_attribute_required(n, "primary key, unique, foreign key or check"))
 }
 
 pub fn render_constraint_definition(ctx: &Context, c: &Constraint) -> Node {
-- 
2.43.0


From f8d5a1ed5bc8abe357518970f15a94621a2b8c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 30/45] fix: report a definition outside of a schema instead of
 panicking

---
 src/definition/ddl/schema.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/definition/ddl/schema.rs b/src/definition/ddl/schema.rs
index 9419292..fc9bc82 100644
--- a/src/definition/ddl/schema.rs
+++ b/src/definition/ddl/schema.rs
@@ -21,7 +21,9 @@ use super::{
 };
 
 pub fn parse_schema_definition(n: &Node) -> Result<Schema, Error> {
-    assert_eq!(n.r#type, "schema");
+    if n.r#type != "schema" {
+        return Err(Error::new_unexpected_node(n));
+    }
 
     let name = coerce_name(n)?;
     let child_nodes = coerce_nodes(n)?;
-- 
2.43.0


From f636dfbce3b12648ab42285fe1e01d819564651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:29 +0000
Subject: [PATCH 31/45] fix: report duplicate definitions instead of panicking

---
 src/definition/ddl/error.rs  | 10 ++++++++++
 src/definition/ddl/schema.rs |  4 ++--
 src/definition/ddl/table.rs  |  4 ++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/definition/ddl/error.rs b/src/definition/ddl/error.rs
index 04c5782..3fec5cf 100644
--- a/src/definition/ddl/error.rs
+++ b/src/definition/ddl/error.rs
@@ -1,4 +1,5 @@
 use super::super::base::Node;
+use crate::snapshot::SnapshotError;
 
 #[derive(Debug, PartialEq)]
 pub enum Error {
@@ -28,6 +29,9 @@ pub enum Error {
     InvalidColumnReference {
         column_reference: String,
     },
+    Duplicate {
+        message: String,
+    },
     HasErrors {
         node_display_string: String,
         errors: Vec<Error>,
@@ -71,6 +75,11 @@ impl Error {
     pub fn new_invalid_column_reference(column_reference: String) -> Error {
         Error::InvalidColumnReference { column_reference }
     }
+    pub fn new_duplicate(error: SnapshotError) -> Error {
+        Error::Duplicate {
+            message: error.to_string(),
+        }
+    }
     pub fn new_has_errors(node: &Node, errors: Vec<Error>) -> Error {
         Error::HasErrors {
             node_display_string: node.display_string(),
@@ -126,6 +135,7 @@ impl std::fmt::Display for Error {
             Error::InvalidColumnReference { column_reference } => {
                 write!(f, "invalid column reference: {}", column_reference)
             }
+            Error::Duplicate { message } => write!(f, "{}", message),
             Error::HasErrors {
                 node_display_string,
                 errors,
diff --git a/src/definition/ddl/schema.rs b/src/definition/ddl/schema.rs
index fc9bc82..2e38e26 100644
--- a/src/definition/ddl/schema.rs
+++ b/src/definition/ddl/schema.rs
@@ -63,10 +63,10 @@ pub fn parse_schema_definition(n: &Node) -> Result<Schema, Error> {
 
     let mut schema = Schema::new(&name);
     for relation in relations {
-        schema.add_relation(relation).unwrap();
+        schema.add_relation(relation).map_err(Error::new_duplicate)?;
     }
     for function in functions {
-        schema.add_function(function).unwrap();
+        schema.add_function(function).map_err(Error::new_duplicate)?;
     }
 
     Ok(schema)
diff --git a/src/definition/ddl/table.rs b/src/definition/ddl/table.rs
index 3477ff7..c1ee3d4 100644
--- a/src/definition/ddl/table.rs
+++ b/src/definition/ddl/table.rs
@@ -43,10 +43,10 @@ pub fn parse_table_definition(schema_name: &str, n: &Node) -> Result<Table, Erro
 
     let mut table = Table::new(schema_name, &name);
     for column in columns {
-        table.add_column(column).unwrap();
+        table.add_column(column).map_err(Error::new_duplicate)?;
     }
     for pk in constraints {
-        table.add_constraint(pk).unwrap();
+        table.add_constraint(pk).map_err(Error::new_duplicate)?;
     }
 
     Ok(table)
-- 
2.43.0


From e331a126d2b8215dd859fa7bc12438ff77b7707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:29 +0000
Subject: [PATCH 32/45] fix: a column's default may span lines

---
 src/definition/ddl/column.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/definition/ddl/column.rs b/src/definition/ddl/column.rs
index 4253a37..d7cc427 100644
--- a/src/definition/ddl/column.rs
+++ b/src/definition/ddl/column.rs
@@ -33,7 +33,7 @@ pub fn render_column_definition(ctx: &Context, def: &Column) -> Node {
 }
 
 fn parse_column_expression(input: &str) -> Result<(String, bool, Option<String>), Error> {
-    let re = Regex::new(r"^(?P<type>[^=!]+)(?P<notnull>!)?(?:\s*=\s*(?P<default>.+))?$").unwrap();
+    let re = Regex::new(r"(?s)^(?P<type>[^=!]+)(?P<notnull>!)?(?:\s*=\s*(?P<default>.+))?$").unwrap();
     if let Some(caps) = re.captures(input) {
         let data_type = caps.name("type").unwrap().as_str().trim().to_string();
         let not_null = caps.name("notnull").is_some();
-- 
2.43.0


From 087cbe792e6c82100e67d3196d588f420cb1aefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:25 +0000
Subject: [PATCH 33/45] fix: report a sequence of an unknown type instead of
 panicking

---
 src/definition/ddl/sequence.rs | 26 ++++++++++++++++----------
 src/definition/defaults.rs     | 32 ++++++++++++++++----------------
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/definition/ddl/sequence.rs b/src/definition/ddl/sequence.rs
index 33ac05f..8c07f04 100644
--- a/src/definition/ddl/sequence.rs
+++ b/src/definition/ddl/sequence.rs
@@ -56,16 +56,26 @@ pub fn parse_sequence_definition(ctx: &Context, n: &Node) -> Result<Sequence, Er
         increment = Some(defaults::get_sequence_increment());
     }
     if min_value.is_none() {
-        min_value = Some(defaults::get_sequence_min_value(
+        min_value = defaults::get_sequence_min_value(
             increment.unwrap(),
             data_type.as_ref().unwrap(),
-        ));
+        );
     }
     if max_value.is_none() {
-        max_value = Some(defaults::get_sequence_max_value(
+        max_value = defaults::get_sequence_max_value(
             increment.unwrap(),
             data_type.as_ref().unwrap(),
-        ));
+        );
+    }
+    // a data type which is not known to have limits must come with them
+    if min_value.is_none() {
+        errors.push(Error::new_attribute_required(n, "minvalue"));
+    }
+    if max_value.is_none() {
+        errors.push(Error::new_attribute_required(n, "maxvalue"));
+    }
+    if !errors.is_empty() {
+        return Err(Error::new_has_errors(n, errors));
     }
     if start.is_none() {
         start = Some(defaults::get_sequence_start(
@@ -81,10 +91,6 @@ pub fn parse_sequence_definition(ctx: &Context, n: &Node) -> Result<Sequence, Er
         cycle = Some(defaults::get_sequence_cycle());
     }
 
-    if !errors.is_empty() {
-        return Err(Error::new_has_errors(n, errors));
-    }
-
     Ok(Sequence {
         schema_name: ctx.schema_name.clone(),
         name: name,
@@ -109,10 +115,10 @@ pub fn render_sequence_definition(_ctx: &Context, def: &Sequence) -> Node {
     if def.increment != defaults::get_sequence_increment() {
         subnodes.push(Node::new("increment").with_number_integer_value(def.increment));
     }
-    if def.min_value != defaults::get_sequence_min_value(def.increment, &def.data_type) {
+    if Some(def.min_value) != defaults::get_sequence_min_value(def.increment, &def.data_type) {
         subnodes.push(Node::new("minvalue").with_number_integer_value(def.min_value));
     }
-    if def.max_value != defaults::get_sequence_max_value(def.increment, &def.data_type) {
+    if Some(def.max_value) != defaults::get_sequence_max_value(def.increment, &def.data_type) {
         subnodes.push(Node::new("maxvalue").with_number_integer_value(def.max_value));
     }
     if def.start != defaults::get_sequence_start(def.increment, def.min_value, def.max_value) {
diff --git a/src/definition/defaults.rs b/src/definition/defaults.rs
index ca8a973..503e3a8 100644
--- a/src/definition/defaults.rs
+++ b/src/definition/defaults.rs
@@ -74,28 +74,28 @@ pub fn get_sequence_cycle() -> bool {
     false
 }
 
-pub fn get_sequence_min_value(increment: i64, data_type: &str) -> i64 {
+pub fn get_sequence_min_value(increment: i64, data_type: &str) -> Option<i64> {
     if increment >= 0 {
-        return 1;
+        return Some(1);
+    }
+    match data_type {
+        "int2" | "smallint" => Some(-32768),
+        "int4" | "integer" | "int" => Some(-2147483648),
+        "int8" | "bigint" => Some(-9223372036854775808),
+        _ => None,
     }
-    return match data_type {
-        "int2" => -32768,
-        "int4" => -2147483648,
-        "int8" => -9223372036854775808,
-        _ => panic!(r#"invalid sequence datatype: "{}""#, data_type),
-    };
 }
 
-pub fn get_sequence_max_value(increment: i64, data_type: &str) -> i64 {
+pub fn get_sequence_max_value(increment: i64, data_type: &str) -> Option<i64> {
     if increment < 0 {
-        return -1;
+        return Some(-1);
+    }
+    match data_type {
+        "int2" | "smallint" => Some(32767),
+        "int4" | "integer" | "int" => Some(2147483647),
+        "int8" | "bigint" => Some(9223372036854775807),
+        _ => None,
     }
-    return match data_type {
-        "int2" => 32767,
-        "int4" => 2147483647,
-        "int8" => 9223372036854775807,
-        _ => panic!(r#"invalid sequence datatype: "{}""#, data_type),
-    };
 }
 
 pub fn get_sequence_start(increment: i64, min_value: i64, max_value: i64) -> i64 {
-- 
2.43.0


From f677e5f1ea5f6c10a7686237c296256a7a2acd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 34/45] fix: clone keeps the views

---
 src/introspection/mod.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index ad34283..8fb9cc4 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -4,7 +4,7 @@ use crate::{
     error::AnyError,
     snapshot::{
         Check, Column, Constraint, Database, ForeignKey, Function, Index, PrimaryKey, Relation,
-        Schema, Sequence, Table, Unique,
+        Schema, Sequence, Table, Unique, View,
     },
 };
 
@@ -33,6 +33,7 @@ pub fn introspect(tx: &mut Transaction, schemas: &[&str]) -> Result<Database, An
     load_unique(tx, &mut database, schemas)?;
     load_checks(tx, &mut database, schemas)?;
     load_indexes(tx, &mut database, schemas)?;
+    load_views(tx, &mut database, schemas)?;
 
     Ok(database)
 }
@@ -244,6 +245,24 @@ fn load_indexes(
     Ok(())
 }
 
+fn load_views(
+    tx: &mut Transaction,
+    database: &mut Database,
+    schemas: &[&str],
+) -> Result<(), AnyError> {
+    for iview in view::introspect_views(tx, schemas)? {
+        let view = View {
+            name: iview.name,
+            schema_name: iview.schema,
+            query: iview.view_definition,
+        };
+        database
+            .get_schema_mut(&view.schema_name)?
+            .add_relation(Relation::View(view))?;
+    }
+    Ok(())
+}
+
 fn load_functions(
     tx: &mut Transaction,
     database: &mut Database,
-- 
2.43.0


From feea078a470b13d07eaf9c05e1f8581f5fa51785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:32 +0000
Subject: [PATCH 35/45] fix: clone writes a foreign key's match option as SQL
 knows it

---
 src/introspection/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index 8fb9cc4..de9ee54 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -181,7 +181,11 @@ fn load_foreign_keys(
             target_columns: ifk.target_table_columns,
             deferrable: ifk.deferrable,
             initially_deferred: ifk.initially_deferred,
-            match_option: ifk.match_option,
+            // the catalog calls MATCH SIMPLE "NONE", which SQL does not accept
+            match_option: match ifk.match_option.as_str() {
+                "NONE" => "SIMPLE".to_string(),
+                _ => ifk.match_option,
+            },
             update_rule: ifk.update_rule,
             delete_rule: ifk.delete_rule,
         };
-- 
2.43.0


From 3630bfc18931b22fbb00dd11b969939eb3b740a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:59 +0000
Subject: [PATCH 36/45] fix: compare a definition's keyword letter by letter

---
 src/definition/base/yaml.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index 635a512..d406b19 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -95,11 +95,13 @@ fn create_node_from_mapping_key(key: &str) -> Result<Node, Error> {
 
 /// The rest of a key that consists of the keyword, in any case, and possibly a name.
 fn strip_keyword<'a>(key: &'a str, keyword: &str) -> Option<&'a str> {
-    let head = key.get(..keyword.len())?;
-    let rest = &key[keyword.len()..];
-    if !head.eq_ignore_ascii_case(keyword) {
-        return None;
+    let mut rest = key.chars();
+    for letter in keyword.chars() {
+        if !rest.next()?.eq_ignore_ascii_case(&letter) {
+            return None;
+        }
     }
+    let rest = rest.as_str();
     if !rest.is_empty() && !rest.starts_with(char::is_whitespace) {
         return None;
     }
-- 
2.43.0


From 2c891f98a1fb2629fab34ab5542f99076e4890c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 37/45] fix: clone keeps the order of a constraint's columns

---
 src/introspection/foreignkey.sql | 4 ++--
 src/introspection/primarykey.sql | 4 ++--
 src/introspection/unique.sql     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/introspection/foreignkey.sql b/src/introspection/foreignkey.sql
index a304ac2..aefe7bc 100644
--- a/src/introspection/foreignkey.sql
+++ b/src/introspection/foreignkey.sql
@@ -3,8 +3,8 @@ SELECT
     con.conname AS constraint_name,
     c.relname AS constraint_table_name,
     (
-			SELECT array_agg(pa.attname)
-			FROM UNNEST(con.conkey) ck(attnum)
+			SELECT array_agg(pa.attname ORDER BY ck.ord)
+			FROM UNNEST(con.conkey) WITH ORDINALITY ck(attnum, ord)
 			JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.conrelid AND pa.attnum = ck.attnum
 		) AS table_columns,
 
diff --git a/src/introspection/primarykey.sql b/src/introspection/primarykey.sql
index fe4e228..f370f0b 100644
--- a/src/introspection/primarykey.sql
+++ b/src/introspection/primarykey.sql
@@ -4,8 +4,8 @@ SELECT
     nr.nspname AS table_schema,
     r.relname AS table_name,
     (
-        SELECT array_agg(pa.attname)
-        FROM UNNEST(c.conkey) ck(attnum)
+        SELECT array_agg(pa.attname ORDER BY ck.ord)
+        FROM UNNEST(c.conkey) WITH ORDINALITY ck(attnum, ord)
         JOIN pg_catalog.pg_attribute pa ON pa.attrelid = c.conrelid AND pa.attnum = ck.attnum
     ) AS table_columns,
     c.condeferrable
diff --git a/src/introspection/unique.sql b/src/introspection/unique.sql
index afa267a..7b12ffa 100644
--- a/src/introspection/unique.sql
+++ b/src/introspection/unique.sql
@@ -4,8 +4,8 @@ SELECT
     nr.nspname AS table_schema,
     r.relname AS table_name,
     (
-        SELECT array_agg(pa.attname)
-        FROM UNNEST(c.conkey) ck(attnum)
+        SELECT array_agg(pa.attname ORDER BY ck.ord)
+        FROM UNNEST(c.conkey) WITH ORDINALITY ck(attnum, ord)
         JOIN pg_catalog.pg_attribute pa ON pa.attrelid = c.conrelid AND pa.attnum = ck.attnum
     ) AS table_columns,
     c.condeferrable
-- 
2.43.0


From 161fa504f2b49c901ed00e67113fab47e2c11d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 38/45] fix: clone takes a foreign key's target columns from
 the key itself

---
 src/introspection/foreignkey.sql | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/introspection/foreignkey.sql b/src/introspection/foreignkey.sql
index aefe7bc..7b5dd54 100644
--- a/src/introspection/foreignkey.sql
+++ b/src/introspection/foreignkey.sql
@@ -8,21 +8,12 @@ SELECT
 			JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.conrelid AND pa.attnum = ck.attnum
 		) AS table_columns,
 
-    npkc.nspname AS target_schema,
+    nfc.nspname AS target_schema,
     fc.relname AS target_table_name,
 	(
-		SELECT array_agg(pa.attname)
-		FROM pg_catalog.pg_attribute pa
-		WHERE fc.oid = pa.attrelid
-		AND fc.oid =
-			CASE pkc.contype
-				WHEN 'f' THEN pkc.confrelid
-				ELSE pkc.conrelid
-			END AND (pa.attnum = ANY (
-			CASE pkc.contype
-				WHEN 'f' THEN pkc.confkey
-			ELSE pkc.conkey
-		END)) AND NOT pa.attisdropped 
+		SELECT array_agg(pa.attname ORDER BY ck.ord)
+		FROM UNNEST(con.confkey) WITH ORDINALITY ck(attnum, ord)
+		JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.confrelid AND pa.attnum = ck.attnum
 	) AS target_columns,
 	con.condeferrable AS constraint_deferrable,
 	con.condeferred AS constraint_deferred,
@@ -51,10 +42,7 @@ SELECT
 FROM pg_namespace ncon
     JOIN pg_constraint con ON ncon.oid = con.connamespace
     JOIN pg_class c ON con.conrelid = c.oid AND con.contype = 'f'::"char"
-    LEFT JOIN pg_depend d1 ON d1.objid = con.oid AND d1.classid = 'pg_constraint'::regclass::oid AND d1.refclassid = 'pg_class'::regclass::oid AND d1.refobjsubid = 0
-    LEFT JOIN pg_depend d2 ON d2.refclassid = 'pg_constraint'::regclass::oid AND d2.classid = 'pg_class'::regclass::oid AND d2.objid = d1.refobjid AND d2.objsubid = 0 AND d2.deptype = 'i'::"char"
     LEFT JOIN pg_class fc ON con.confrelid = fc.oid
-    LEFT JOIN pg_constraint pkc ON pkc.oid = d2.refobjid AND (pkc.contype = ANY (ARRAY['p'::"char", 'u'::"char"])) AND pkc.conrelid = con.confrelid
-    LEFT JOIN pg_namespace npkc ON pkc.connamespace = npkc.oid
+    LEFT JOIN pg_namespace nfc ON fc.relnamespace = nfc.oid
 WHERE (pg_has_role(c.relowner, 'USAGE') OR has_table_privilege(c.oid, 'INSERT, UPDATE, DELETE, TRUNCATE, REFERENCES, TRIGGER') OR has_any_column_privilege(c.oid, 'INSERT, UPDATE, REFERENCES'))
   AND ncon.nspname = ANY($1);
-- 
2.43.0


From cc31f23e811eb926f7a2fae07899cf31ce6eec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 39/45] fix: clone keeps the order of a table's columns

---
 src/introspection/column.sql | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 8dc09bd..df835be 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -53,4 +53,5 @@ WHERE NOT pg_is_other_temp_schema(nc.oid)
     AND a.attnum > 0
     AND NOT a.attisdropped
     AND c.relkind = 'r'
-    AND nc.nspname = ANY($1);
+    AND nc.nspname = ANY($1)
+ORDER BY c.oid, a.attnum;
-- 
2.43.0


From d4875755d5f883e59ce888866d65ddf767031b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 40/45] fix: clone takes only arrays for arrays

---
 src/introspection/column.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index df835be..9e9c91f 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -12,7 +12,7 @@ SELECT
     a.attnotnull OR t.typtype = 'd' AND t.typnotnull
         AS "not_null",
     CASE
-        WHEN t.typelem <> 0 THEN (SELECT eltype.typname FROM pg_type eltype WHERE eltype.oid = t.typelem) 
+        WHEN t.typelem <> 0 AND t.typlen = -1 THEN (SELECT eltype.typname FROM pg_type eltype WHERE eltype.oid = t.typelem) 
         ELSE t.typname
     END 
     ||
@@ -43,7 +43,7 @@ SELECT
     ELSE ''
     END
     ||
-    CASE WHEN t.typelem <> 0 THEN '[]' ELSE '' END
+    CASE WHEN t.typelem <> 0 AND t.typlen = -1 THEN '[]' ELSE '' END
         AS "data_type"
 FROM pg_attribute a
     LEFT JOIN pg_attrdef ad ON a.attrelid = ad.adrelid AND a.attnum = ad.adnum
-- 
2.43.0


From 980618ee1bb413f5ff9089a7a6915371dbf9488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 41/45] fix: clone writes the precision of timestamptz and
 timetz as SQL knows it

---
 src/introspection/column.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 9e9c91f..b7abb63 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -17,7 +17,7 @@ SELECT
     END 
     ||
     CASE WHEN a.atttypmod != -1 THEN
-        CASE t.typname
+        replace(CASE t.typname
                 WHEN 'bpchar' THEN bpchartypmodout(a.atttypmod)
                 WHEN '_bpchar' THEN bpchartypmodout(a.atttypmod)
                 WHEN 'varchar' THEN varchartypmodout(a.atttypmod)
@@ -39,7 +39,7 @@ SELECT
                 WHEN 'numeric' THEN numerictypmodout(a.atttypmod)
                 WHEN '_numeric' THEN numerictypmodout(a.atttypmod)
                 ELSE null
-        END::TEXT
+        END::TEXT, ' with time zone', '')
     ELSE ''
     END
     ||
-- 
2.43.0


From 27d25107c3604ab6382f99f1d3ad784700a68e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 42/45] fix: clone keeps the arguments of functions

---
 src/introspection/function.sql | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/introspection/function.sql b/src/introspection/function.sql
index 2331ce4..da05796 100644
--- a/src/introspection/function.sql
+++ b/src/introspection/function.sql
@@ -1,6 +1,9 @@
 SELECT
     n.nspname AS schema,
-    p.proname AS name,
+    CASE
+        WHEN p.pronargs > 0 THEN p.proname || '(' || pg_get_function_arguments(p.oid) || ')'
+        ELSE p.proname
+    END AS name,
     p.prosrc AS body,
     l.lanname AS language,
     CASE
-- 
2.43.0


From e031f20ba40a63778c8557955e04f260e91216de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 43/45] fix: clone does not take procedures and aggregates for
 functions

---
 src/introspection/function.sql | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/introspection/function.sql b/src/introspection/function.sql
index da05796..931c9f0 100644
--- a/src/introspection/function.sql
+++ b/src/introspection/function.sql
@@ -20,3 +20,4 @@ FROM
     JOIN pg_namespace n ON p.pronamespace = n.oid
     JOIN pg_language l ON p.prolang = l.oid
 WHERE n.nspname = ANY($1)
+    AND p.prokind IN ('f', 'w')
-- 
2.43.0


From 5d40112a7c1f1d3fd89c04f07551e7f3cdf78bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 44/45] fix: clone keeps an index's quoting, key order, sort
 order and expressions

---
 src/introspection/index.sql | 11 ++++-------
 src/introspection/mod.rs    | 17 ++++++++++++-----
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index 6bb2b10..fc47388 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -12,15 +12,12 @@ SELECT
     pi.indnatts
         AS key_length,
     (
-        SELECT array_agg(pa.attname) 
-        FROM unnest(pi.indkey) AS key(i)
-            JOIN pg_catalog.pg_attribute pa
-                ON pa.attrelid = pi.indrelid
-                    AND pa.attnum = i 
+        SELECT array_agg(pg_get_indexdef(pi.indexrelid, i, false) ORDER BY i)
+        FROM generate_series(1, pi.indnkeyatts) AS key(i)
     ) AS key_columns,
     ( 
-        SELECT array_agg(o)
-        FROM unnest(pi.indoption) AS ko(o)
+        SELECT array_agg(o ORDER BY i)
+        FROM unnest(pi.indoption) WITH ORDINALITY AS ko(o, i)
     ) AS key_options,
     pg_catalog.pg_get_expr(pi.indexprs, pi.indrelid)
         AS expressions
diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index de9ee54..d64503c 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -228,11 +228,18 @@ fn load_indexes(
     schemas: &[&str],
 ) -> Result<(), AnyError> {
     for iindex in index::introspect_indexes(tx, schemas)? {
-        let key_expressions = if let Some(expressions) = iindex.expressions {
-            vec![expressions] //
-        } else {
-            iindex.key_columns.unwrap()
-        };
+        let key_expressions = iindex
+            .key_columns
+            .unwrap_or_default()
+            .into_iter()
+            .zip(iindex.key_options)
+            .map(|(key, option)| match option & 3 {
+                0 => key,
+                1 => format!("{} DESC NULLS LAST", key),
+                2 => format!("{} NULLS FIRST", key),
+                _ => format!("{} DESC", key),
+            })
+            .collect();
 
         let index = Index {
             name: iindex.index_name,
-- 
2.43.0


From e27cbcabda06403f64cf7831840bd10995c54964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 45/45] fix: clone keeps an index that a foreign key refers to

---
 src/introspection/index.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index fc47388..40800ab 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -26,6 +26,6 @@ FROM pg_catalog.pg_index pi
     JOIN pg_catalog.pg_namespace pn ON pc_index.relnamespace = pn.oid
     JOIN pg_catalog.pg_class pc_table ON pc_table.oid = pi.indrelid
     JOIN pg_am am ON am.oid=pc_index.relam
-    LEFT JOIN pg_catalog.pg_constraint pc ON pc.conindid = pc_index.oid
+    LEFT JOIN pg_catalog.pg_constraint pc ON pc.conindid = pc_index.oid AND pc.contype IN ('p', 'u', 'x')
 WHERE pc.oid IS NULL
     AND pn.nspname = ANY($1);
-- 
2.43.0

