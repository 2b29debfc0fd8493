From 6e7e462b42e06b0748bfba369ed1319d498d5fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 01/59] hook: controllable map order and in-process adapter for
 verification (cfg podo_verif)

---
 src/main.rs                    |  5 ++
 src/snapshot/types/database.rs |  3 ++
 src/snapshot/types/schema.rs   |  3 ++
 src/snapshot/types/table.rs    |  3 ++
 src/verif.rs                   | 88 ++++++++++++++++++++++++++++++++++
 5 files changed, 102 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/main.rs b/src/main.rs
index b97e8f7..32cb2d5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -6,12 +6,17 @@ mod introspection;
 mod project;
 mod snapshot;
 mod util;
+#[cfg(podo_verif)]
+mod verif;
 
 use clap::{ArgMatches, Command};
 
 const VERSION: &str = env!("CARGO_PKG_VERSION");
 
 fn main() {
+    #[cfg(podo_verif)]
+    verif::enter();
+
     let cli = Command::new("podo")
         .bin_name("podo")
         .version(VERSION)
diff --git a/src/snapshot/types/database.rs b/src/snapshot/types/database.rs
index 9ab1550..bb8da0a 100644
--- a/src/snapshot/types/database.rs
+++ b/src/snapshot/types/database.rs
@@ -1,4 +1,7 @@
+#[cfg(not(podo_verif_order))]
 use std::collections::HashMap;
+#[cfg(podo_verif_order)]
+use crate::verif::{HashMap, NewMap as _};
 
 use crate::snapshot::error::SnapshotError;
 
diff --git a/src/snapshot/types/schema.rs b/src/snapshot/types/schema.rs
index c4e8e07..6b53671 100644
--- a/src/snapshot/types/schema.rs
+++ b/src/snapshot/types/schema.rs
@@ -1,4 +1,7 @@
+#[cfg(not(podo_verif_order))]
 use std::collections::HashMap;
+#[cfg(podo_verif_order)]
+use crate::verif::{HashMap, NewMap as _};
 
 use crate::snapshot::error::SnapshotError;
 
diff --git a/src/snapshot/types/table.rs b/src/snapshot/types/table.rs
index 923d5ea..5a6809f 100644
--- a/src/snapshot/types/table.rs
+++ b/src/snapshot/types/table.rs
@@ -1,4 +1,7 @@
+#[cfg(not(podo_verif_order))]
 use std::collections::HashMap;
+#[cfg(podo_verif_order)]
+use crate::verif::{HashMap, NewMap as _};
 
 use crate::snapshot::error::SnapshotError;
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..097204e
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,88 @@
+//! Verification hook, compiled only with `--cfg podo_verif`.
+//!
+//! - with `--cfg podo_verif_order`, the snapshot maps get a hasher whose iteration
+//!   order the harness chooses,
+//! - includes the harness adapter, whose `enter` runs instead of the command line
+//!   when the environment asks for it.
+#![allow(dead_code)]
+
+use std::cell::RefCell;
+use std::collections::HashMap as StdHashMap;
+use std::hash::{BuildHasher, Hasher};
+use std::rc::Rc;
+
+/// The snapshot maps: std's `HashMap`, with ranks of the names as hash values.
+pub type HashMap<K, V> = StdHashMap<K, V, NameOrder>;
+
+/// `HashMap::new` and friends for maps with a `NameOrder`.
+pub trait NewMap {
+    fn new() -> Self;
+    fn with_capacity(n: usize) -> Self;
+}
+impl<K, V> NewMap for HashMap<K, V> {
+    fn new() -> Self {
+        // enough buckets for one name each, so that the ranks decide the order
+        Self::with_capacity(14)
+    }
+    fn with_capacity(n: usize) -> Self {
+        StdHashMap::with_capacity_and_hasher(n, NameOrder::default())
+    }
+}
+
+thread_local! {
+    static CURRENT: RefCell<Rc<Vec<String>>> = RefCell::new(Rc::new(
+        std::env::var("PODO_VERIF_ORDER")
+            .map(|s| s.split('\u{1f}').map(|x| x.to_owned()).collect())
+            .unwrap_or_default(),
+    ));
+}
+
+/// Sets the order of names for the maps that this thread creates from now on.
+pub fn set_name_order(names: Rc<Vec<String>>) {
+    CURRENT.with(|c| *c.borrow_mut() = names);
+}
+
+/// Hashes a name to its rank in the order that was set when the map was created.
+#[derive(Clone, Debug)]
+pub struct NameOrder(Rc<Vec<String>>);
+
+impl Default for NameOrder {
+    fn default() -> Self {
+        NameOrder(CURRENT.with(|c| c.borrow().clone()))
+    }
+}
+
+impl BuildHasher for NameOrder {
+    type Hasher = NameHasher;
+    fn build_hasher(&self) -> NameHasher {
+        NameHasher {
+            order: self.0.clone(),
+            bytes: Vec::new(),
+        }
+    }
+}
+
+pub struct NameHasher {
+    order: Rc<Vec<String>>,
+    bytes: Vec<u8>,
+}
+
+impl Hasher for NameHasher {
+    fn write(&mut self, bytes: &[u8]) {
+        self.bytes.extend_from_slice(bytes);
+    }
+    fn finish(&self) -> u64 {
+        // `str` hashes its bytes and then 0xff
+        let name = self.bytes.strip_suffix(&[0xff]).unwrap_or(&self.bytes);
+        if let Some(rank) = self.order.iter().position(|n| n.as_bytes() == name) {
+            return rank as u64;
+        }
+        let mut h: u64 = 0xcbf29ce484222325;
+        for b in name {
+            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
+        }
+        h
+    }
+}
+
+include!(concat!(env!("PODO_VERIF_HARNESS"), "/adapter.rs"));
-- 
2.43.0


From c9b5b52fcb28505b2eefe46131d2498d285b64b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 02/59] fix: recreate an index when its table, uniqueness or
 method changes

---
 src/snapshot/diff.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 56a32fe..029639c 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -448,7 +448,11 @@ fn diff_index_create(t: &Index) -> Changeset {
 fn diff_index_update(s: &Index, t: &Index) -> Changeset {
     let mut changes = Changeset::new();
 
-    if s.key_expressions != t.key_expressions {
+    if s.table_name != t.table_name
+        || s.unique != t.unique
+        || s.method != t.method
+        || s.key_expressions != t.key_expressions
+    {
         changes.push(DropIndexChange::new(s));
         changes.push(CreateIndexChange::new(t));
     }
-- 
2.43.0


From d7b2ca549f9cd30aa371b6771d297f10237b0abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 03/59] fix: render NOT NULL of created tables and added
 columns

---
 src/snapshot/changes/column/add_column_change.rs  | 2 +-
 src/snapshot/changes/table/create_table_change.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/snapshot/changes/column/add_column_change.rs b/src/snapshot/changes/column/add_column_change.rs
index bb62237..1fc3800 100644
--- a/src/snapshot/changes/column/add_column_change.rs
+++ b/src/snapshot/changes/column/add_column_change.rs
@@ -49,7 +49,7 @@ impl AddColumnChange {
             sql_qn(&self.column),
             self.data_type,
         )];
-        if !self.not_null {
+        if self.not_null {
             tokens.push("NOT NULL".to_string());
         }
         if let Some(default) = &self.default {
diff --git a/src/snapshot/changes/table/create_table_change.rs b/src/snapshot/changes/table/create_table_change.rs
index a16fcf7..d7fb00f 100644
--- a/src/snapshot/changes/table/create_table_change.rs
+++ b/src/snapshot/changes/table/create_table_change.rs
@@ -68,7 +68,9 @@ impl CreateTableChange {
             sql_qa(&self.schema, &self.table),
             sql_l(self.columns.iter().map(|c| {
                 let mut tokens = vec![sql_qn(&c.name), c.data_type.clone()];
-                if !c.not_null {
+                if c.not_null {
+                    tokens.push("NOT NULL".to_string());
+                } else {
                     tokens.push("NULL".to_string());
                 }
                 if let Some(default) = &c.default {
-- 
2.43.0


From 5b28f3e1a6daa26b0e7b4b09c9e91cf1b9cafb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 04/59] fix: render rules and deferrability of foreign keys as
 PostgreSQL expects them

---
 src/snapshot/changes/check/alter_check_change.rs    | 13 +++++++++----
 .../changes/foreignkey/add_foreign_key_change.rs    | 12 +++++++++++-
 .../changes/foreignkey/alter_foreign_key_change.rs  | 13 +++++++++----
 3 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/snapshot/changes/check/alter_check_change.rs b/src/snapshot/changes/check/alter_check_change.rs
index a9b15c9..11ab680 100644
--- a/src/snapshot/changes/check/alter_check_change.rs
+++ b/src/snapshot/changes/check/alter_check_change.rs
@@ -36,15 +36,20 @@ impl AlterCheckChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ALTER CONSTRAINT {} {}",
+            "ALTER TABLE {} ALTER CONSTRAINT {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             if self.deferrable {
-                "DEFERRABLE INITIALLY DEFERRED"
+                "DEFERRABLE"
             } else {
-                "NOT DEFERRABLE INITIALLY IMMEDIATE"
+                "NOT DEFERRABLE"
             },
-        )
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
+            },
+        ) + ";"
     }
 
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/snapshot/changes/foreignkey/add_foreign_key_change.rs b/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
index 940c8ac..db5f5ae 100644
--- a/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/add_foreign_key_change.rs
@@ -64,7 +64,7 @@ impl AddForeignKeyChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ADD CONSTRAINT {} FOREIGN KEY ({}) REFERENCES {} ({}) {} {} {}",
+            "ALTER TABLE {} ADD CONSTRAINT {} FOREIGN KEY ({}) REFERENCES {} ({}) MATCH {} ON UPDATE {} ON DELETE {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             sql_ql(&self.columns),
@@ -73,6 +73,16 @@ impl AddForeignKeyChange {
             self.match_option,
             self.update_rule,
             self.delete_rule,
+            if self.deferrable {
+                "DEFERRABLE"
+            } else {
+                "NOT DEFERRABLE"
+            },
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
+            },
         ) + ";"
     }
 
diff --git a/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs b/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
index 90f56e3..8f119e9 100644
--- a/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
+++ b/src/snapshot/changes/foreignkey/alter_foreign_key_change.rs
@@ -38,15 +38,20 @@ impl AlterForeignKeyChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ALTER CONSTRAINT {} {}",
+            "ALTER TABLE {} ALTER CONSTRAINT {} {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             if self.deferrable {
-                "DEFERRABLE INITIALLY DEFERRED"
+                "DEFERRABLE"
             } else {
-                "NOT DEFERRABLE INITIALLY IMMEDIATE"
+                "NOT DEFERRABLE"
             },
-        )
+            if self.initially_deferred {
+                "INITIALLY DEFERRED"
+            } else {
+                "INITIALLY IMMEDIATE"
+            },
+        ) + ";"
     }
 
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
-- 
2.43.0


From a0f31ca88fca2e4ebc44084fefad61501d2243e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 05/59] fix: quote schema names and quotes within names

---
 src/snapshot/changes/schema/create_schema_change.rs | 3 ++-
 src/snapshot/changes/schema/drop_schema_change.rs   | 3 ++-
 src/util/sqlfmt.rs                                  | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/snapshot/changes/schema/create_schema_change.rs b/src/snapshot/changes/schema/create_schema_change.rs
index 0d6a1dd..8d0b6ba 100644
--- a/src/snapshot/changes/schema/create_schema_change.rs
+++ b/src/snapshot/changes/schema/create_schema_change.rs
@@ -1,5 +1,6 @@
 use super::DropSchemaChange;
 use crate::snapshot::{changes::Change, Database, Schema, SnapshotError};
+use crate::util::sqlfmt::sql_qn;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -20,7 +21,7 @@ impl CreateSchemaChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("CREATE SCHEMA {};", self.schema_name)
+        format!("CREATE SCHEMA {};", sql_qn(&self.schema_name))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/snapshot/changes/schema/drop_schema_change.rs b/src/snapshot/changes/schema/drop_schema_change.rs
index 5bc92e8..8650e99 100644
--- a/src/snapshot/changes/schema/drop_schema_change.rs
+++ b/src/snapshot/changes/schema/drop_schema_change.rs
@@ -1,5 +1,6 @@
 use super::CreateSchemaChange;
 use crate::snapshot::{changes::Change, Database, Schema, SnapshotError};
+use crate::util::sqlfmt::sql_qn;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -20,7 +21,7 @@ impl DropSchemaChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP SCHEMA {};", self.schema_name)
+        format!("DROP SCHEMA {};", sql_qn(&self.schema_name))
     }
 
     pub fn revert(&self, source: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index eae728d..7173458 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -1,6 +1,6 @@
 // quoted name
 pub fn sql_qn(schema: &str) -> String {
-    format!("\"{}\"", schema)
+    format!("\"{}\"", schema.replace('"', "\"\""))
 }
 
 // quoted accessor
-- 
2.43.0


From 0af7c705498acca74134602a16e3c5abaf156c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 06/59] fix: put the expression of a check constraint in
 parentheses

---
 src/snapshot/changes/check/add_check_change.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/snapshot/changes/check/add_check_change.rs b/src/snapshot/changes/check/add_check_change.rs
index 2d7338f..19514bd 100644
--- a/src/snapshot/changes/check/add_check_change.rs
+++ b/src/snapshot/changes/check/add_check_change.rs
@@ -46,7 +46,7 @@ impl AddCheckChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "ALTER TABLE {} ADD CONSTRAINT {} CHECK {} {} {}",
+            "ALTER TABLE {} ADD CONSTRAINT {} CHECK ({}) {} {}",
             sql_qa(&self.schema, &self.table),
             sql_qn(&self.constraint),
             self.expression,
-- 
2.43.0


From 1538c84eb87ea1a847d168c1596f06942fd87a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 07/59] fix: render functions as valid SQL

---
 .../changes/function/create_functon_change.rs  |  8 ++++----
 .../changes/function/drop_function_change.rs   |  4 ++--
 src/util/sqlfmt.rs                             | 18 ++++++++++++++++++
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/snapshot/changes/function/create_functon_change.rs b/src/snapshot/changes/function/create_functon_change.rs
index d747d14..fda44ae 100644
--- a/src/snapshot/changes/function/create_functon_change.rs
+++ b/src/snapshot/changes/function/create_functon_change.rs
@@ -1,6 +1,6 @@
 use super::{super::Change, DropFunctionChange};
 use crate::snapshot::{Database, Function, SnapshotError};
-use crate::util::sqlfmt::sql_qa;
+use crate::util::sqlfmt::{sql_dq, sql_qf};
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -41,12 +41,12 @@ impl CreateFunctionChange {
 
     pub fn render_sql(&self) -> String {
         format!(
-            "CREATE FUNCTION {} {} RETURNS {} LANGUAGE {} {}",
-            sql_qa(&self.schema, &self.function),
-            self.body,
+            "CREATE FUNCTION {} RETURNS {} LANGUAGE {} {} AS {}",
+            sql_qf(&self.schema, &self.function),
             self.returns,
             self.language,
             self.volatility,
+            sql_dq(&self.body),
         ) + ";"
     }
 
diff --git a/src/snapshot/changes/function/drop_function_change.rs b/src/snapshot/changes/function/drop_function_change.rs
index a5e2dd9..fcf52bb 100644
--- a/src/snapshot/changes/function/drop_function_change.rs
+++ b/src/snapshot/changes/function/drop_function_change.rs
@@ -1,6 +1,6 @@
 use super::{super::Change, CreateFunctionChange};
 use crate::snapshot::{Database, Function, SnapshotError};
-use crate::util::sqlfmt::sql_qa;
+use crate::util::sqlfmt::sql_qf;
 use serde::{Deserialize, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, PartialEq)]
@@ -25,7 +25,7 @@ impl DropFunctionChange {
     }
 
     pub fn render_sql(&self) -> String {
-        format!("DROP FUNCTION {}", sql_qa(&self.schema, &self.function),) + ";"
+        format!("DROP FUNCTION {}", sql_qf(&self.schema, &self.function),) + ";"
     }
 
     pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
diff --git a/src/util/sqlfmt.rs b/src/util/sqlfmt.rs
index 7173458..7770a75 100644
--- a/src/util/sqlfmt.rs
+++ b/src/util/sqlfmt.rs
@@ -32,3 +32,21 @@ where
         .collect::<Vec<_>>()
         .join(", ")
 }
+
+// quoted accessor of a function whose name comes with its arguments
+pub fn sql_qf(schema: &str, function: &str) -> String {
+    match function.find('(') {
+        Some(i) => sql_qa(schema, function[..i].trim_end()) + &function[i..],
+        None => sql_qa(schema, function) + "()",
+    }
+}
+
+// dollar quoted string
+pub fn sql_dq(body: &str) -> String {
+    let mut tag = "$$".to_string();
+    // the text plus the start of the tag must not contain the tag
+    while format!("{}{}", body, &tag[..tag.len() - 1]).contains(&tag) {
+        tag.insert_str(tag.len() - 1, "podo");
+    }
+    format!("{}{}{}", tag, body, tag)
+}
-- 
2.43.0


From 6ee04e8188f649d2f3027ae4e7097590a9c87526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 08/59] fix: record a sequence's owner, and alter changed
 sequences instead of recreating them

---
 src/snapshot/changes/mod.rs                   |  2 +
 .../changes/sequence/alter_sequence_change.rs | 85 +++++++++++++++++++
 .../sequence/alter_sequence_owner_change.rs   | 62 ++++++++++++++
 src/snapshot/changes/sequence/mod.rs          |  4 +
 src/snapshot/diff.rs                          | 19 ++++-
 5 files changed, 168 insertions(+), 4 deletions(-)
 create mode 100644 src/snapshot/changes/sequence/alter_sequence_change.rs
 create mode 100644 src/snapshot/changes/sequence/alter_sequence_owner_change.rs

diff --git a/src/snapshot/changes/mod.rs b/src/snapshot/changes/mod.rs
index 473d932..e4c1e18 100644
--- a/src/snapshot/changes/mod.rs
+++ b/src/snapshot/changes/mod.rs
@@ -79,6 +79,8 @@ define_change_impl!(
     AlterColumnSetNotNullChange,
     AlterForeignKeyChange,
     AlterPrimaryKeyChange,
+    AlterSequenceChange,
+    AlterSequenceOwnerChange,
     AlterUniqueChange,
     CreateFunctionChange,
     CreateIndexChange,
diff --git a/src/snapshot/changes/sequence/alter_sequence_change.rs b/src/snapshot/changes/sequence/alter_sequence_change.rs
new file mode 100644
index 0000000..135a4e1
--- /dev/null
+++ b/src/snapshot/changes/sequence/alter_sequence_change.rs
@@ -0,0 +1,85 @@
+use crate::{
+    snapshot::{changes::Change, Database, Sequence, SnapshotError},
+    util::sqlfmt::sql_qa,
+};
+use serde::{Deserialize, Serialize};
+
+#[derive(Debug, Serialize, Deserialize, PartialEq)]
+pub struct AlterSequenceChange {
+    pub schema: String,
+    pub sequence: String,
+
+    pub data_type: String,
+    pub increment: i64,
+    pub min_value: i64,
+    pub max_value: i64,
+    pub start: i64,
+    pub cache: i64,
+    pub cycle: bool,
+
+    /// the value to go on from when the sequence cannot keep its own
+    pub restart: Option<i64>,
+}
+
+impl AlterSequenceChange {
+    /// `previous_start` is where the sequence started before the change
+    pub fn new(t: &Sequence, previous_start: i64) -> Self {
+        Self {
+            schema: t.schema_name.clone(),
+            sequence: t.name.clone(),
+
+            data_type: t.data_type.clone(),
+            increment: t.increment,
+            min_value: t.min_value,
+            max_value: t.max_value,
+            start: t.start,
+            cache: t.cache,
+            cycle: t.cycle,
+
+            restart: if previous_start < t.min_value || previous_start > t.max_value {
+                Some(t.start)
+            } else {
+                None
+            },
+        }
+    }
+
+    pub fn apply(&self, source: &mut Database) -> Result<(), SnapshotError> {
+        let schema = source.get_schema_mut(&self.schema)?;
+        let sequence = schema.get_relation_mut(&self.sequence)?.as_sequence_mut()?;
+
+        sequence.data_type = self.data_type.clone();
+        sequence.increment = self.increment;
+        sequence.min_value = self.min_value;
+        sequence.max_value = self.max_value;
+        sequence.start = self.start;
+        sequence.cache = self.cache;
+        sequence.cycle = self.cycle;
+        Ok(())
+    }
+
+    pub fn render_sql(&self) -> String {
+        format!(
+            "ALTER SEQUENCE {} AS {} INCREMENT BY {} MINVALUE {} MAXVALUE {} START WITH {} CACHE {} {}{}",
+            sql_qa(&self.schema, &self.sequence),
+            self.data_type,
+            self.increment,
+            self.min_value,
+            self.max_value,
+            self.start,
+            self.cache,
+            if self.cycle { "CYCLE" } else { "NO CYCLE" },
+            match self.restart {
+                Some(value) => format!(" RESTART WITH {}", value),
+                None => "".to_string(),
+            },
+        ) + ";"
+    }
+
+    pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
+        let schema = target.get_schema(&self.schema)?;
+        let sequence = schema.get_relation(&self.sequence)?.as_sequence()?;
+
+        Ok(AlterSequenceChange::new(sequence, self.restart.unwrap_or(sequence.start)).into())
+    }
+}
diff --git a/src/snapshot/changes/sequence/alter_sequence_owner_change.rs b/src/snapshot/changes/sequence/alter_sequence_owner_change.rs
new file mode 100644
index 0000000..f880b78
--- /dev/null
+++ b/src/snapshot/changes/sequence/alter_sequence_owner_change.rs
@@ -0,0 +1,62 @@
+use crate::{
+    snapshot::{changes::Change, Database, Sequence, SnapshotError},
+    util::sqlfmt::{sql_qa, sql_qn},
+};
+use serde::{Deserialize, Serialize};
+
+#[derive(Debug, Serialize, Deserialize, PartialEq)]
+pub struct AlterSequenceOwnerChange {
+    pub schema: String,
+    pub sequence: String,
+    pub owned_by_table: Option<String>,
+    pub owned_by_column: Option<String>,
+}
+
+impl AlterSequenceOwnerChange {
+    pub fn new(t: &Sequence) -> Self {
+        Self {
+            schema: t.schema_name.clone(),
+            sequence: t.name.clone(),
+            owned_by_table: t.owned_by_table.clone(),
+            owned_by_column: t.owned_by_column.clone(),
+        }
+    }
+
+    /// The change that leaves the sequence without an owner
+    pub fn none(t: &Sequence) -> Self {
+        Self {
+            schema: t.schema_name.clone(),
+            sequence: t.name.clone(),
+            owned_by_table: None,
+            owned_by_column: None,
+        }
+    }
+
+    pub fn apply(&self, source: &mut Database) -> Result<(), SnapshotError> {
+        let schema = source.get_schema_mut(&self.schema)?;
+        let sequence = schema.get_relation_mut(&self.sequence)?.as_sequence_mut()?;
+
+        sequence.owned_by_table = self.owned_by_table.clone();
+        sequence.owned_by_column = self.owned_by_column.clone();
+        Ok(())
+    }
+
+    pub fn render_sql(&self) -> String {
+        format!(
+            "ALTER SEQUENCE {} OWNED BY {}",
+            sql_qa(&self.schema, &self.sequence),
+            match (&self.owned_by_table, &self.owned_by_column) {
+                (Some(table), Some(column)) =>
+                    format!("{}.{}", sql_qa(&self.schema, table), sql_qn(column)),
+                _ => "NONE".to_string(),
+            },
+        ) + ";"
+    }
+
+    pub fn revert(&self, target: &Database) -> Result<Change, SnapshotError> {
+        let schema = target.get_schema(&self.schema)?;
+        let sequence = schema.get_relation(&self.sequence)?.as_sequence()?;
+
+        Ok(AlterSequenceOwnerChange::new(sequence).into())
+    }
+}
diff --git a/src/snapshot/changes/sequence/mod.rs b/src/snapshot/changes/sequence/mod.rs
index 8cf0ea2..cd828fa 100644
--- a/src/snapshot/changes/sequence/mod.rs
+++ b/src/snapshot/changes/sequence/mod.rs
@@ -1,5 +1,9 @@
+mod alter_sequence_change;
+mod alter_sequence_owner_change;
 mod create_sequence_change;
 mod drop_sequence_change;
 
+pub use alter_sequence_change::*;
+pub use alter_sequence_owner_change::*;
 pub use create_sequence_change::*;
 pub use drop_sequence_change::*;
diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 029639c..b611754 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -469,6 +469,9 @@ fn diff_index_drop(s: &Index) -> Changeset {
 fn diff_sequence_create(t: &Sequence) -> Changeset {
     let mut changes = Changeset::new();
     changes.push(CreateSequenceChange::new(t));
+    if t.owned_by_table.is_some() {
+        changes.push(AlterSequenceOwnerChange::new(t));
+    }
     return changes;
 }
 
@@ -482,11 +485,16 @@ fn diff_sequence_update(s: &Sequence, t: &Sequence) -> Changeset {
         || s.start != t.start
         || s.cache != t.cache
         || s.cycle != t.cycle
-        || s.owned_by_table != t.owned_by_table
-        || s.owned_by_column != t.owned_by_column
     {
-        changes.push(DropSequenceChange::new(s));
-        changes.push(CreateSequenceChange::new(t));
+        changes.push(AlterSequenceChange::new(t, s.start));
+    }
+    if s.owned_by_table != t.owned_by_table || s.owned_by_column != t.owned_by_column {
+        if s.owned_by_table.is_some() {
+            changes.push(AlterSequenceOwnerChange::none(s));
+        }
+        if t.owned_by_table.is_some() {
+            changes.push(AlterSequenceOwnerChange::new(t));
+        }
     }
 
     return changes;
@@ -494,6 +502,9 @@ fn diff_sequence_update(s: &Sequence, t: &Sequence) -> Changeset {
 
 fn diff_sequence_drop(s: &Sequence) -> Changeset {
     let mut changes = Changeset::new();
+    if s.owned_by_table.is_some() {
+        changes.push(AlterSequenceOwnerChange::none(s));
+    }
     changes.push(DropSequenceChange::new(s));
     return changes;
 }
-- 
2.43.0


From ce839822d06a3ee34dec169a86f5bd3598a5328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 09/59] fix: drop a table's constraints with the table so that
 reverting restores them

---
 src/snapshot/diff.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index b611754..94a49d9 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -200,6 +200,9 @@ fn diff_table_update(s: &Table, t: &Table) -> Changeset {
 fn diff_table_drop(s: &Table) -> Changeset {
     let mut changes = Changeset::new();
 
+    for si in s.iter_constraints() {
+        changes.append(&mut diff_constraint_drop(si));
+    }
     changes.push(DropTableChange::new(s));
 
     return changes;
-- 
2.43.0


From 407f50376f8a7b108ea2129e4aa97bd9acec62c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 10/59] fix: recreate a primary key whose deferrability changes

---
 src/snapshot/diff.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 94a49d9..2ec30f1 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -280,11 +280,13 @@ fn diff_primary_key_create(t: &PrimaryKey) -> Changeset {
 fn diff_primary_key_update(s: &PrimaryKey, t: &PrimaryKey) -> Changeset {
     let mut changes = Changeset::new();
 
-    if s.columns != t.columns {
+    // PostgreSQL cannot alter the deferrability of a primary key
+    if s.columns != t.columns
+        || s.deferrable != t.deferrable
+        || s.initially_deferred != t.initially_deferred
+    {
         changes.push(DropPrimaryKeyChange::new(s));
         changes.push(AddPrimaryKeyChange::new(t));
-    } else if s.deferrable != t.deferrable || s.initially_deferred != t.initially_deferred {
-        changes.push(AlterPrimaryKeyChange::new(t));
     }
 
     return changes;
-- 
2.43.0


From 25e1cf9d5d2466a18179e93a0aa1b1aa09835e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 11/59] fix: order changes so that each can be applied

---
 src/snapshot/diff.rs | 133 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 132 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 2ec30f1..9ead5ba 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -1,5 +1,6 @@
 use super::changes::*;
 use super::types::*;
+use std::collections::HashSet;
 
 struct Changeset {
     changes: Vec<Change>,
@@ -18,7 +19,137 @@ impl Changeset {
 }
 
 pub fn compare_diff(s: &Database, t: &Database) -> Vec<Change> {
-    return diff_database_update(s, t).changes;
+    let mut changes = diff_database_update(s, t).changes;
+    order_changes(s, &mut changes);
+    return changes;
+}
+
+/// Puts changes in an order in which everything exists as long as it is needed: what uses other
+/// objects goes first and comes last.
+fn order_changes(s: &Database, changes: &mut Vec<Change>) {
+    let created: HashSet<(String, String)> = changes
+        .iter()
+        .filter_map(|change| match change {
+            Change::CreateFunctionChange(c) => Some((c.schema.clone(), c.function.clone())),
+            _ => None,
+        })
+        .collect();
+
+    changes.sort_by_key(|change| match change {
+        Change::DropViewChange(_) => 0,
+        Change::DropForeignKeyChange(_) => 1,
+        Change::DropIndexChange(_) => 2,
+        Change::DropCheckChange(_)
+        | Change::DropUniqueChange(_)
+        | Change::DropPrimaryKeyChange(_) => 3,
+        Change::AlterSequenceOwnerChange(c) if c.owned_by_table.is_none() => 4,
+        Change::DropTableChange(_) => 5,
+        Change::CreateSchemaChange(_) => 6,
+        Change::CreateSequenceChange(_) | Change::AlterSequenceChange(_) => 7,
+        // a function that is replaced makes way for its successor
+        Change::DropFunctionChange(c)
+            if created.contains(&(c.schema.clone(), c.function.clone())) =>
+        {
+            8
+        }
+        Change::CreateFunctionChange(_) => 9,
+        Change::AlterColumnSetDataTypeChange(_)
+        | Change::AlterColumnSetDefaultChange(_)
+        | Change::AlterColumnSetNotNullChange(_)
+        | Change::DropColumnChange(_)
+        | Change::RenameColumnChange(_) => 10,
+        Change::DropSequenceChange(_) => 11,
+        Change::DropFunctionChange(_) => 12,
+        Change::CreateTableChange(_) | Change::AddColumnChange(_) => 13,
+        Change::AddPrimaryKeyChange(_)
+        | Change::AddUniqueChange(_)
+        | Change::AddCheckChange(_)
+        | Change::AlterPrimaryKeyChange(_)
+        | Change::AlterUniqueChange(_)
+        | Change::AlterCheckChange(_)
+        | Change::AlterForeignKeyChange(_) => 14,
+        Change::AlterSequenceOwnerChange(_) => 15,
+        Change::CreateIndexChange(_) => 16,
+        Change::AddForeignKeyChange(_) => 17,
+        Change::CreateViewChange(_) => 18,
+        Change::DropSchemaChange(_) => 19,
+    });
+
+    // views that read other views
+    let views: Vec<(String, String)> = changes
+        .iter()
+        .filter_map(|change| match change {
+            Change::DropViewChange(c) => match s.get_schema(&c.schema) {
+                Ok(schema) => match schema.get_relation(&c.view) {
+                    Ok(Relation::View(view)) => Some((c.view.clone(), view.query.clone())),
+                    _ => None,
+                },
+                _ => None,
+            },
+            _ => None,
+        })
+        .collect();
+    let len = views.len();
+    let mut order = order_views(&views);
+    order.reverse();
+    move_to(&mut changes[..len], &order);
+
+    let start = changes
+        .iter()
+        .position(|change| matches!(change, Change::CreateViewChange(_)))
+        .unwrap_or(changes.len());
+    let views: Vec<(String, String)> = changes[start..]
+        .iter()
+        .filter_map(|change| match change {
+            Change::CreateViewChange(c) => Some((c.view.clone(), c.query.clone())),
+            _ => None,
+        })
+        .collect();
+    move_to(&mut changes[start..start + views.len()], &order_views(&views));
+}
+
+/// The order of views (name, query) in which every view comes after those it mentions.
+fn order_views(views: &[(String, String)]) -> Vec<usize> {
+    let mut order: Vec<usize> = vec![];
+    while order.len() < views.len() {
+        let left: Vec<usize> = (0..views.len()).filter(|i| !order.contains(i)).collect();
+        let next = left.iter().find(|i| {
+            !left
+                .iter()
+                .any(|j| j != *i && mentions(&views[**i].1, &views[*j].0))
+        });
+        order.push(*next.unwrap_or(&left[0]));
+    }
+    order
+}
+
+fn mentions(query: &str, name: &str) -> bool {
+    let query = query.to_lowercase();
+    if name.is_empty() {
+        return false;
+    }
+    let in_word = |c: char| c.is_alphanumeric() || c == '_';
+    for name in [name.to_lowercase(), name.to_lowercase().replace('"', "\"\"")] {
+        let mut from = 0;
+        while let Some(i) = query[from..].find(&name) {
+            let end = from + i + name.len();
+            if !query[..from + i].ends_with(in_word) && !query[end..].starts_with(in_word) {
+                return true;
+            }
+            from = end;
+        }
+    }
+    false
+}
+
+/// Rearranges elements so that the one at `order[i]` comes to `i`.
+fn move_to<T>(els: &mut [T], order: &[usize]) {
+    let mut at: Vec<usize> = (0..els.len()).collect();
+    for i in 0..order.len() {
+        let j = at.iter().position(|k| *k == order[i]).unwrap();
+        els.swap(i, j);
+        at.swap(i, j);
+    }
 }
 
 fn diff_database_update(s: &Database, t: &Database) -> Changeset {
-- 
2.43.0


From 498a81eaa33103ac7cdca92987e4127da33bc588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 12/59] fix: recreate foreign keys whose key is recreated

---
 src/snapshot/diff.rs | 67 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 9ead5ba..75446c1 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -20,10 +20,77 @@ impl Changeset {
 
 pub fn compare_diff(s: &Database, t: &Database) -> Vec<Change> {
     let mut changes = diff_database_update(s, t).changes;
+    recreate_foreign_keys(s, t, &mut changes);
     order_changes(s, &mut changes);
     return changes;
 }
 
+/// A foreign key relies on a key of the table it refers to, so it cannot stay when that key goes.
+fn recreate_foreign_keys(s: &Database, t: &Database, changes: &mut Vec<Change>) {
+    let mut dropped: Vec<(String, String, HashSet<String>)> = vec![];
+    for change in changes.iter() {
+        let (schema, table, key) = match change {
+            Change::DropPrimaryKeyChange(c) => (&c.schema, &c.table, &c.constraint),
+            Change::DropUniqueChange(c) => (&c.schema, &c.table, &c.constraint),
+            _ => continue,
+        };
+        let columns = match s
+            .get_schema(schema)
+            .and_then(|s| s.get_relation(table))
+            .and_then(|r| r.as_table())
+            .and_then(|t| t.get_constraint(key))
+        {
+            Ok(Constraint::PrimaryKey(key)) => &key.columns,
+            Ok(Constraint::Unique(key)) => &key.columns,
+            _ => continue,
+        };
+        dropped.push((schema.clone(), table.clone(), columns.iter().cloned().collect()));
+    }
+    for schema in s.iter_schemas() {
+        for index in schema.iter_relations().filter_map(|r| r.as_index().ok()) {
+            let goes = changes.iter().any(|change| match change {
+                Change::DropIndexChange(c) => c.schema == index.schema_name && c.index == index.name,
+                _ => false,
+            });
+            if index.unique && goes {
+                let columns = index.key_expressions.iter().map(|k| k.trim_matches('"').to_string());
+                dropped.push((schema.name.clone(), index.table_name.clone(), columns.collect()));
+            }
+        }
+    }
+
+    for table in s
+        .iter_schemas()
+        .flat_map(|schema| schema.iter_relations())
+        .filter_map(|relation| relation.as_table().ok())
+    {
+        for old in table.iter_constraints().filter_map(|c| c.as_foreign_key().ok()) {
+            let columns: HashSet<String> = old.target_columns.iter().cloned().collect();
+            let relies = dropped.iter().any(|(schema, table, key)| {
+                *schema == old.target_schema && *table == old.target_table && *key == columns
+            });
+            let new = t
+                .get_schema(&old.schema_name)
+                .and_then(|s| s.get_relation(&old.table_name))
+                .and_then(|r| r.as_table())
+                .and_then(|t| t.get_constraint(&old.name))
+                .and_then(|c| c.as_foreign_key());
+            let goes = changes.iter().any(|change| match change {
+                Change::DropForeignKeyChange(c) => *c == DropForeignKeyChange::new(old),
+                _ => false,
+            });
+            if let (true, false, Ok(new)) = (relies, goes, new) {
+                changes.retain(|change| match change {
+                    Change::AlterForeignKeyChange(c) => *c != AlterForeignKeyChange::new(new),
+                    _ => true,
+                });
+                changes.push(DropForeignKeyChange::new(old).into());
+                changes.push(AddForeignKeyChange::new(new).into());
+            }
+        }
+    }
+}
+
 /// Puts changes in an order in which everything exists as long as it is needed: what uses other
 /// objects goes first and comes last.
 fn order_changes(s: &Database, changes: &mut Vec<Change>) {
-- 
2.43.0


From e9584829f785d5f33bbdbf330140a22e8b642096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 13/59] fix: recreate views that read what a migration
 recreates

---
 src/snapshot/diff.rs | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 75446c1..07d33cd 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -21,6 +21,7 @@ impl Changeset {
 pub fn compare_diff(s: &Database, t: &Database) -> Vec<Change> {
     let mut changes = diff_database_update(s, t).changes;
     recreate_foreign_keys(s, t, &mut changes);
+    recreate_views(s, t, &mut changes);
     order_changes(s, &mut changes);
     return changes;
 }
@@ -91,6 +92,48 @@ fn recreate_foreign_keys(s: &Database, t: &Database, changes: &mut Vec<Change>)
     }
 }
 
+/// A view cannot stay while a relation it reads is recreated or the type of a column changes.
+fn recreate_views(s: &Database, t: &Database, changes: &mut Vec<Change>) {
+    loop {
+        let unsettled: Vec<String> = changes
+            .iter()
+            .filter_map(|change| match change {
+                Change::DropViewChange(c) => Some(c.view.clone()),
+                Change::DropTableChange(c) => Some(c.table.clone()),
+                Change::AlterColumnSetDataTypeChange(c) => Some(c.table.clone()),
+                _ => None,
+            })
+            .collect();
+        let next = s
+            .iter_schemas()
+            .flat_map(|schema| schema.iter_relations())
+            .filter_map(|relation| relation.as_view().ok())
+            .find_map(|old| {
+                let new = t
+                    .get_schema(&old.schema_name)
+                    .and_then(|s| s.get_relation(&old.name))
+                    .and_then(|r| r.as_view())
+                    .ok()?;
+                let goes = changes.iter().any(|change| match change {
+                    Change::DropViewChange(c) => *c == DropViewChange::new(old),
+                    _ => false,
+                });
+                if !goes && unsettled.iter().any(|name| mentions(&old.query, name)) {
+                    Some((old, new))
+                } else {
+                    None
+                }
+            });
+        match next {
+            Some((old, new)) => {
+                changes.push(DropViewChange::new(old).into());
+                changes.push(CreateViewChange::new(new).into());
+            }
+            None => return,
+        }
+    }
+}
+
 /// Puts changes in an order in which everything exists as long as it is needed: what uses other
 /// objects goes first and comes last.
 fn order_changes(s: &Database, changes: &mut Vec<Change>) {
-- 
2.43.0


From 3e8662edd5a3d680e541bb36d0f74c68ceffb4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 14/59] fix: take back defaults that call a function while it
 is replaced

---
 src/snapshot/diff.rs | 50 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 07d33cd..44a7a1b 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -22,6 +22,7 @@ pub fn compare_diff(s: &Database, t: &Database) -> Vec<Change> {
     let mut changes = diff_database_update(s, t).changes;
     recreate_foreign_keys(s, t, &mut changes);
     recreate_views(s, t, &mut changes);
+    release_functions(s, t, &mut changes);
     order_changes(s, &mut changes);
     return changes;
 }
@@ -134,6 +135,54 @@ fn recreate_views(s: &Database, t: &Database, changes: &mut Vec<Change>) {
     }
 }
 
+/// A default cannot stay while a function it calls is dropped or replaced.
+fn release_functions(s: &Database, t: &Database, changes: &mut Vec<Change>) {
+    let dropped: Vec<String> = changes
+        .iter()
+        .filter_map(|change| match change {
+            Change::DropFunctionChange(c) => c.function.split('(').next().map(|n| n.to_string()),
+            _ => None,
+        })
+        .collect();
+
+    for table in s
+        .iter_schemas()
+        .flat_map(|schema| schema.iter_relations())
+        .filter_map(|relation| relation.as_table().ok())
+    {
+        let new_table = t
+            .get_schema(&table.schema_name)
+            .and_then(|s| s.get_relation(&table.name))
+            .and_then(|r| r.as_table());
+        let new_table = match new_table {
+            Ok(new_table) => new_table,
+            Err(_) => continue,
+        };
+        for old in table.iter_columns() {
+            let calls = match &old.default {
+                Some(default) => dropped.iter().any(|name| mentions(default, name.trim())),
+                None => false,
+            };
+            if !calls {
+                continue;
+            }
+            let mut release = AlterColumnSetDefaultChange::new(old);
+            release.default = None;
+            let release = Change::from(release);
+            if changes.contains(&release) {
+                continue;
+            }
+            changes.push(release);
+            if let Ok(new) = new_table.get_column(&old.name) {
+                let set = Change::from(AlterColumnSetDefaultChange::new(new));
+                if !changes.contains(&set) {
+                    changes.push(set);
+                }
+            }
+        }
+    }
+}
+
 /// Puts changes in an order in which everything exists as long as it is needed: what uses other
 /// objects goes first and comes last.
 fn order_changes(s: &Database, changes: &mut Vec<Change>) {
@@ -153,6 +202,7 @@ fn order_changes(s: &Database, changes: &mut Vec<Change>) {
         | Change::DropUniqueChange(_)
         | Change::DropPrimaryKeyChange(_) => 3,
         Change::AlterSequenceOwnerChange(c) if c.owned_by_table.is_none() => 4,
+        Change::AlterColumnSetDefaultChange(c) if c.default.is_none() => 4,
         Change::DropTableChange(_) => 5,
         Change::CreateSchemaChange(_) => 6,
         Change::CreateSequenceChange(_) | Change::AlterSequenceChange(_) => 7,
-- 
2.43.0


From 9c7cd573415cdb2e61c634657d68d8b49c0e0717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 15/59] fix: display snapshot errors instead of panicking

---
 src/snapshot/error.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/error.rs b/src/snapshot/error.rs
index 5f30cbd..a443f68 100644
--- a/src/snapshot/error.rs
+++ b/src/snapshot/error.rs
@@ -104,7 +104,21 @@ impl SnapshotError {
 
 impl std::fmt::Display for SnapshotError {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        panic!("unimplemented")
+        match self {
+            SnapshotError::ObjectNotFound { path, r#type } => {
+                write!(f, "{} not found: {}", r#type, path.join("."))
+            }
+            SnapshotError::ObjectAlreadyExists { path, r#type } => {
+                write!(f, "{} already exists: {}", r#type, path.join("."))
+            }
+            SnapshotError::ObjectHasUnexpectedType {
+                path,
+                expected,
+                actual,
+            } => {
+                write!(f, "{} is a {}, expected a {}", path.join("."), actual, expected)
+            }
+        }
     }
 }
 
-- 
2.43.0


From 2fa48d07168465a64b6db5e60164bf4f80776c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 16/59] fix: report malformed and duplicate definitions instead
 of panicking or ignoring them

---
 src/definition/base/yaml.rs      |  2 +-
 src/definition/ddl/constraint.rs |  8 ++++++--
 src/definition/ddl/error.rs      | 16 ++++++++++++++++
 src/definition/ddl/index.rs      |  4 ++++
 src/definition/ddl/schema.rs     | 20 +++++++++++++-------
 src/definition/ddl/table.rs      | 18 +++++++++++-------
 6 files changed, 51 insertions(+), 17 deletions(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index a2cd5e1..f3dbbac 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -114,7 +114,7 @@ fn parse_serde_value_to_ddl_value(val: &serde_yaml::Value) -> Result<Value, Erro
             return Ok(Value::Boolean(*val_bool));
         }
         serde_yaml::Value::Mapping(_) => {
-            unreachable!()
+            return Err(Error::new(format!("Invalid value: {:?}", val)));
         }
         serde_yaml::Value::Sequence(val_sequence) => {
             let parsed = parse_serde_sequence_to_ddl_list(val_sequence)?;
diff --git a/src/definition/ddl/constraint.rs b/src/definition/ddl/constraint.rs
index d1a4560..553086a 100644
--- a/src/definition/ddl/constraint.rs
+++ b/src/definition/ddl/constraint.rs
@@ -42,10 +42,14 @@ pub fn parse_constraint_definition(
                 let def = parse_check_constraint_definition(schema_name, table_name, n)?;
                 return Ok(Constraint::Check(def));
             }
-            _ => unreachable!(),
+            // the attributes may come before
+            _ => continue,
         }
     }
-    unreachable!()
+    Err(Error::new_attribute_required(
+        n,
+        "primary key, unique, foreign key or check",
+    ))
 }
 
 pub fn render_constraint_definition(ctx: &Context, c: &Constraint) -> Node {
diff --git a/src/definition/ddl/error.rs b/src/definition/ddl/error.rs
index 04c5782..65a97fd 100644
--- a/src/definition/ddl/error.rs
+++ b/src/definition/ddl/error.rs
@@ -28,6 +28,10 @@ pub enum Error {
     InvalidColumnReference {
         column_reference: String,
     },
+    InvalidObject {
+        node_display_string: String,
+        message: String,
+    },
     HasErrors {
         node_display_string: String,
         errors: Vec<Error>,
@@ -71,6 +75,12 @@ impl Error {
     pub fn new_invalid_column_reference(column_reference: String) -> Error {
         Error::InvalidColumnReference { column_reference }
     }
+    pub fn new_invalid_object(node: &Node, message: String) -> Error {
+        Error::InvalidObject {
+            node_display_string: node.display_string(),
+            message,
+        }
+    }
     pub fn new_has_errors(node: &Node, errors: Vec<Error>) -> Error {
         Error::HasErrors {
             node_display_string: node.display_string(),
@@ -126,6 +136,12 @@ impl std::fmt::Display for Error {
             Error::InvalidColumnReference { column_reference } => {
                 write!(f, "invalid column reference: {}", column_reference)
             }
+            Error::InvalidObject {
+                node_display_string,
+                message,
+            } => {
+                write!(f, "{}: {}", node_display_string, message)
+            }
             Error::HasErrors {
                 node_display_string,
                 errors,
diff --git a/src/definition/ddl/index.rs b/src/definition/ddl/index.rs
index 198cbc9..1e4f901 100644
--- a/src/definition/ddl/index.rs
+++ b/src/definition/ddl/index.rs
@@ -49,6 +49,10 @@ pub fn parse_index_definition(ctx: &Context, n: &Node) -> Result<Index, Error> {
         errors.push(Error::new_attribute_required(n, "on"));
     }
 
+    if !errors.is_empty() {
+        return Err(Error::new_has_errors(n, errors));
+    }
+
     Ok(Index {
         schema_name: ctx.schema_name.clone(),
         table_name: table_name.unwrap(),
diff --git a/src/definition/ddl/schema.rs b/src/definition/ddl/schema.rs
index 9419292..fb7284c 100644
--- a/src/definition/ddl/schema.rs
+++ b/src/definition/ddl/schema.rs
@@ -21,7 +21,9 @@ use super::{
 };
 
 pub fn parse_schema_definition(n: &Node) -> Result<Schema, Error> {
-    assert_eq!(n.r#type, "schema");
+    if n.r#type != "schema" {
+        return Err(Error::new_unexpected_node(n));
+    }
 
     let name = coerce_name(n)?;
     let child_nodes = coerce_nodes(n)?;
@@ -55,16 +57,20 @@ pub fn parse_schema_definition(n: &Node) -> Result<Schema, Error> {
         }
     }
 
-    if !errors.is_empty() {
-        return Err(Error::new_has_errors(n, errors));
-    }
-
     let mut schema = Schema::new(&name);
     for relation in relations {
-        schema.add_relation(relation).unwrap();
+        if let Err(e) = schema.add_relation(relation) {
+            errors.push(Error::new_invalid_object(n, e.to_string()));
+        }
     }
     for function in functions {
-        schema.add_function(function).unwrap();
+        if let Err(e) = schema.add_function(function) {
+            errors.push(Error::new_invalid_object(n, e.to_string()));
+        }
+    }
+
+    if !errors.is_empty() {
+        return Err(Error::new_has_errors(n, errors));
     }
 
     Ok(schema)
diff --git a/src/definition/ddl/table.rs b/src/definition/ddl/table.rs
index 3477ff7..1d6795e 100644
--- a/src/definition/ddl/table.rs
+++ b/src/definition/ddl/table.rs
@@ -37,16 +37,20 @@ pub fn parse_table_definition(schema_name: &str, n: &Node) -> Result<Table, Erro
         }
     }
 
-    if !errors.is_empty() {
-        return Err(Error::new_has_errors(n, errors));
-    }
-
     let mut table = Table::new(schema_name, &name);
     for column in columns {
-        table.add_column(column).unwrap();
+        if let Err(e) = table.add_column(column) {
+            errors.push(Error::new_invalid_object(n, e.to_string()));
+        }
     }
-    for pk in constraints {
-        table.add_constraint(pk).unwrap();
+    for constraint in constraints {
+        if let Err(e) = table.add_constraint(constraint) {
+            errors.push(Error::new_invalid_object(n, e.to_string()));
+        }
+    }
+
+    if !errors.is_empty() {
+        return Err(Error::new_has_errors(n, errors));
     }
 
     Ok(table)
-- 
2.43.0


From b19824b8cfd040e5b49feca37bdffca97df3a59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 17/59] fix: know the keys of increment and using, which
 definitions are written with

---
 src/definition/base/yaml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index f3dbbac..af885dd 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -5,7 +5,7 @@ use super::{
     error::Error,
 };
 
-static KEYWORDS: [&str; 33] = [
+static KEYWORDS: [&str; 35] = [
     "foreign key",
     "initially deferred",
     "not null",
@@ -23,6 +23,7 @@ static KEYWORDS: [&str; 33] = [
     "deferrable",
     "function",
     "volatility",
+    "increment",
     "index",
     "language",
     "match",
@@ -38,6 +39,7 @@ static KEYWORDS: [&str; 33] = [
     "table",
     "type",
     "unique",
+    "using",
     "view",
 ];
 
-- 
2.43.0


From 562cf0971a3e034390b397ca3ae12101959172ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 18/59] fix: read definition keys as whole words, once each and
 without ignoring any part

---
 src/definition/base/yaml.rs | 55 +++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/src/definition/base/yaml.rs b/src/definition/base/yaml.rs
index af885dd..36cf69f 100644
--- a/src/definition/base/yaml.rs
+++ b/src/definition/base/yaml.rs
@@ -43,19 +43,47 @@ static KEYWORDS: [&str; 35] = [
     "view",
 ];
 
+/// The objects, of which there can be many; everything else is an attribute.
+static OBJECTS: [&str; 8] = [
+    "column",
+    "constraint",
+    "function",
+    "index",
+    "schema",
+    "sequence",
+    "table",
+    "view",
+];
+
+/// The attributes with a name.
+static NAMED_ATTRIBUTES: [&str; 3] = ["on", "owned by", "references"];
+
 pub fn parse_mapping_to_nodes(val: &serde_yaml::Mapping) -> Result<Vec<Node>, Error> {
-    let mut nodes = Vec::with_capacity(val.len());
+    parse_mapping_in(val, "")
+}
+
+fn parse_mapping_in(val: &serde_yaml::Mapping, parent: &str) -> Result<Vec<Node>, Error> {
+    let mut nodes: Vec<Node> = Vec::with_capacity(val.len());
 
     for (k, v) in val {
         let key = k.as_str().ok_or_else(|| Error {
             message: format!("Invalid key: {:?}", k),
         })?;
 
-        let mut node = create_node_from_mapping_key(key)?;
+        let mut node = create_node_from_mapping_key(key, parent)?;
+
+        if !OBJECTS.contains(&node.r#type) {
+            if node.name.is_some() && !NAMED_ATTRIBUTES.contains(&node.r#type) {
+                return Err(Error::new(format!("Invalid key: {}", key)));
+            }
+            if nodes.iter().any(|n| n.r#type == node.r#type) {
+                return Err(Error::new(format!("Repeated key: {}", key)));
+            }
+        }
 
         match v {
             serde_yaml::Value::Mapping(child_mapping) => {
-                let nodes = parse_mapping_to_nodes(child_mapping)?;
+                let nodes = parse_mapping_in(child_mapping, node.r#type)?;
                 node.child = Some(NodeChild::Nodes(nodes));
             }
             serde_yaml::Value::Null => {
@@ -73,15 +101,26 @@ pub fn parse_mapping_to_nodes(val: &serde_yaml::Mapping) -> Result<Vec<Node>, Er
     Ok(nodes)
 }
 
-fn create_node_from_mapping_key(key: &str) -> Result<Node, Error> {
+fn create_node_from_mapping_key(key: &str, parent: &str) -> Result<Node, Error> {
     let mut node = Node::default();
 
     let mut found = false;
     for keyword in KEYWORDS.iter() {
-        if key.to_lowercase().starts_with(keyword) {
-            node.r#type = keyword;
-            found = true;
-            break;
+        // an index may be on a table named "update"
+        if parent == "index" && (*keyword == "on delete" || *keyword == "on update") {
+            continue;
+        }
+        let is_keyword = match key.get(..keyword.len()) {
+            Some(start) => start.eq_ignore_ascii_case(keyword),
+            None => false,
+        };
+        if is_keyword {
+            let rest = &key[keyword.len()..];
+            if rest.is_empty() || rest.starts_with(char::is_whitespace) {
+                node.r#type = keyword;
+                found = true;
+                break;
+            }
         }
     }
     if !found {
-- 
2.43.0


From 8e80e0a67ef5c97ed6fb2a209ce07fc31c2bf201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 19/59] fix: read column defaults of several lines, and reject
 empty types and defaults

---
 src/definition/ddl/column.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/definition/ddl/column.rs b/src/definition/ddl/column.rs
index 4253a37..80dda2d 100644
--- a/src/definition/ddl/column.rs
+++ b/src/definition/ddl/column.rs
@@ -33,12 +33,18 @@ pub fn render_column_definition(ctx: &Context, def: &Column) -> Node {
 }
 
 fn parse_column_expression(input: &str) -> Result<(String, bool, Option<String>), Error> {
-    let re = Regex::new(r"^(?P<type>[^=!]+)(?P<notnull>!)?(?:\s*=\s*(?P<default>.+))?$").unwrap();
+    let re = Regex::new(r"(?s)^(?P<type>[^=!]+)(?P<notnull>!)?(?:\s*=\s*(?P<default>.+))?$").unwrap();
     if let Some(caps) = re.captures(input) {
         let data_type = caps.name("type").unwrap().as_str().trim().to_string();
         let not_null = caps.name("notnull").is_some();
         let default_expr = caps.name("default").map(|s| s.as_str().trim().to_string());
 
+        if data_type.is_empty() || default_expr.as_deref() == Some("") {
+            return Err(Error::InvalidTypeExpression {
+                type_expression: input.to_string(),
+            });
+        }
+
         Ok((data_type, not_null, default_expr))
     } else {
         Err(Error::InvalidTypeExpression {
-- 
2.43.0


From 8a90b48f486718b2aab0f05180d263aeed90dce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 20/59] fix: reject keys and indexes without columns

---
 src/definition/ddl/foreignkey.rs | 2 +-
 src/definition/ddl/index.rs      | 2 +-
 src/definition/ddl/primarykey.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/definition/ddl/foreignkey.rs b/src/definition/ddl/foreignkey.rs
index 58e0526..9e0f882 100644
--- a/src/definition/ddl/foreignkey.rs
+++ b/src/definition/ddl/foreignkey.rs
@@ -56,7 +56,7 @@ pub fn parse_foreign_key_constraint_definition(
             errors.push(e);
         }
     }
-    if columns.is_none() {
+    if columns.as_ref().map_or(true, |c| c.is_empty()) {
         errors.push(Error::new_attribute_required(n, "columns"));
     }
     if target_schema.is_none() || target_table.is_none() || target_columns.is_empty() {
diff --git a/src/definition/ddl/index.rs b/src/definition/ddl/index.rs
index 1e4f901..7743ff8 100644
--- a/src/definition/ddl/index.rs
+++ b/src/definition/ddl/index.rs
@@ -45,7 +45,7 @@ pub fn parse_index_definition(ctx: &Context, n: &Node) -> Result<Index, Error> {
     if method.is_none() {
         method = Some(defaults::get_default_index_method());
     }
-    if table_name.is_none() || key_expressions.is_none() {
+    if table_name.is_none() || key_expressions.as_ref().map_or(true, |k| k.is_empty()) {
         errors.push(Error::new_attribute_required(n, "on"));
     }
 
diff --git a/src/definition/ddl/primarykey.rs b/src/definition/ddl/primarykey.rs
index 6922d28..3ca3396 100644
--- a/src/definition/ddl/primarykey.rs
+++ b/src/definition/ddl/primarykey.rs
@@ -39,7 +39,7 @@ pub fn parse_primary_key_definition(
         }
     }
 
-    if columns.is_none() {
+    if columns.as_ref().map_or(true, |c| c.is_empty()) {
         errors.push(Error::new_attribute_required(n, "primary key"));
     }
     if deferrable.is_none() {
-- 
2.43.0


From 54e3246857a8ff43fe1c3cbef686911c53c2e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 21/59] fix: accept all names of the integer types for
 sequences, and report others as errors

---
 src/definition/ddl/sequence.rs |  8 ++++++++
 src/definition/defaults.rs     | 27 +++++++++++++++------------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/definition/ddl/sequence.rs b/src/definition/ddl/sequence.rs
index 33ac05f..b1f0a5d 100644
--- a/src/definition/ddl/sequence.rs
+++ b/src/definition/ddl/sequence.rs
@@ -49,6 +49,14 @@ pub fn parse_sequence_definition(ctx: &Context, n: &Node) -> Result<Sequence, Er
         }
     }
 
+    if let Some(t) = &data_type {
+        if !defaults::is_sequence_data_type(t) {
+            errors.push(Error::new_invalid_object(
+                n,
+                format!("invalid sequence data type: {}", t),
+            ));
+        }
+    }
     if data_type.is_none() {
         data_type = Some(defaults::get_sequence_data_type());
     }
diff --git a/src/definition/defaults.rs b/src/definition/defaults.rs
index ca8a973..5690f41 100644
--- a/src/definition/defaults.rs
+++ b/src/definition/defaults.rs
@@ -74,28 +74,31 @@ pub fn get_sequence_cycle() -> bool {
     false
 }
 
+pub fn is_sequence_data_type(data_type: &str) -> bool {
+    get_integer_range(data_type).is_some()
+}
+
+fn get_integer_range(data_type: &str) -> Option<(i64, i64)> {
+    match data_type.to_ascii_lowercase().as_str() {
+        "int2" | "smallint" => Some((-32768, 32767)),
+        "int4" | "int" | "integer" => Some((-2147483648, 2147483647)),
+        "int8" | "bigint" => Some((-9223372036854775808, 9223372036854775807)),
+        _ => None,
+    }
+}
+
 pub fn get_sequence_min_value(increment: i64, data_type: &str) -> i64 {
     if increment >= 0 {
         return 1;
     }
-    return match data_type {
-        "int2" => -32768,
-        "int4" => -2147483648,
-        "int8" => -9223372036854775808,
-        _ => panic!(r#"invalid sequence datatype: "{}""#, data_type),
-    };
+    get_integer_range(data_type).map_or(i64::MIN, |range| range.0)
 }
 
 pub fn get_sequence_max_value(increment: i64, data_type: &str) -> i64 {
     if increment < 0 {
         return -1;
     }
-    return match data_type {
-        "int2" => 32767,
-        "int4" => 2147483647,
-        "int8" => 9223372036854775807,
-        _ => panic!(r#"invalid sequence datatype: "{}""#, data_type),
-    };
+    get_integer_range(data_type).map_or(i64::MAX, |range| range.1)
 }
 
 pub fn get_sequence_start(increment: i64, min_value: i64, max_value: i64) -> i64 {
-- 
2.43.0


From 48e279e53f284b56161433b6d1cb6d49fc2f3e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 22/59] fix: quote the names of referenced tables that contain
 dots

---
 src/definition/ddl/foreignkey.rs | 65 ++++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 7 deletions(-)

diff --git a/src/definition/ddl/foreignkey.rs b/src/definition/ddl/foreignkey.rs
index 9e0f882..9184ef6 100644
--- a/src/definition/ddl/foreignkey.rs
+++ b/src/definition/ddl/foreignkey.rs
@@ -99,19 +99,70 @@ pub fn parse_foreign_key_constraint_definition(
 }
 
 fn parse_table_reference(search_path: &str, input: &str) -> Result<(String, String), Error> {
-    let parts: Vec<&str> = input.split('.').collect();
-    match parts.len() {
-        1 => Ok((search_path.to_owned(), parts[0].to_owned())),
-        2 => Ok((parts[0].to_owned(), parts[1].to_owned())),
-        _ => Err(Error::new_invalid_table_reference(input.to_owned())),
+    let invalid = || Error::new_invalid_table_reference(input.to_owned());
+    let mut parts = split_table_reference(input).ok_or_else(invalid)?;
+    if parts.iter().any(|part| part.is_empty()) {
+        return Err(invalid());
+    }
+    match (parts.pop(), parts.pop(), parts.pop()) {
+        (Some(table), None, _) => Ok((search_path.to_owned(), table)),
+        (Some(table), Some(schema), None) => Ok((schema, table)),
+        _ => Err(invalid()),
+    }
+}
+
+/// Splits at the dots outside of quotes.
+fn split_table_reference(input: &str) -> Option<Vec<String>> {
+    let mut parts = vec![];
+    let mut rest = input;
+    loop {
+        let mut part = String::new();
+        if rest.starts_with('"') {
+            rest = &rest[1..];
+            loop {
+                let end = rest.find('"')?;
+                part.push_str(&rest[..end]);
+                rest = &rest[end + 1..];
+                if !rest.starts_with('"') {
+                    break;
+                }
+                part.push('"');
+                rest = &rest[1..];
+            }
+            if !rest.is_empty() && !rest.starts_with('.') {
+                return None;
+            }
+        } else {
+            let end = rest.find('.').unwrap_or(rest.len());
+            part.push_str(&rest[..end]);
+            rest = &rest[end..];
+        }
+        parts.push(part);
+        if rest.is_empty() {
+            return Some(parts);
+        }
+        rest = &rest[1..];
+    }
+}
+
+/// Names with dots or starting with a quote are written in quotes.
+fn quote_reference_part(name: &str) -> String {
+    if name.contains('.') || name.starts_with('"') {
+        format!("\"{}\"", name.replace('"', "\"\""))
+    } else {
+        name.to_owned()
     }
 }
 
 fn render_table_reference(ctx: &Context, schema_name: &str, table_name: &str) -> String {
     if schema_name == ctx.schema_name {
-        table_name.to_owned()
+        quote_reference_part(table_name)
     } else {
-        format!("{}.{}", schema_name, table_name)
+        format!(
+            "{}.{}",
+            quote_reference_part(schema_name),
+            quote_reference_part(table_name)
+        )
     }
 }
 
-- 
2.43.0


From f235fd56c1bf0368830f1434743ed7e5868fb553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 23/59] fix: do not write definitions that would be read back
 differently

---
 src/definition/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/definition/mod.rs b/src/definition/mod.rs
index 7f6c0ef..ed1f122 100644
--- a/src/definition/mod.rs
+++ b/src/definition/mod.rs
@@ -25,6 +25,11 @@ pub fn save_snapshot(file_path: &Path, snapshot: &Database) -> Result<(), AnyErr
     let mapping = render_nodes_to_mapping(&nodes);
     let got = serde_yaml::to_string(&mapping).unwrap();
 
+    // names that end in blanks, for example, have no notation
+    if load_yaml_string(&got)? != *snapshot {
+        return Err("the schema has no exact notation as definitions".into());
+    }
+
     std::fs::write(file_path, got)?;
 
     return Ok(());
-- 
2.43.0


From ef3743b1f69bd09f04edec57e74925eb8b62a8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 24/59] fix: read versions whose names end in .yaml

---
 src/history/fsh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 4463aa7..34103ad 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -38,7 +38,7 @@ impl FSHistory {
             if filetype.is_dir() || !filename.ends_with(".yaml") {
                 continue;
             }
-            let version_name = filename.trim_end_matches(".yaml").to_owned();
+            let version_name = filename[..filename.len() - ".yaml".len()].to_owned();
 
             let v = history.get_version(&version_name)?;
 
-- 
2.43.0


From 31844bbc9755ad9b431e15d96bbdb6a08a5b49eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 25/59] fix: report histories that are not one chain instead of
 looping or ignoring versions

---
 src/history/fsh.rs | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 34103ad..4527926 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -5,7 +5,10 @@ use std::{
     path::PathBuf,
 };
 
-use super::{version::INIT, Version};
+use super::{
+    version::{INIT, STAGE},
+    Version,
+};
 
 pub struct FSHistory {
     pub dir: PathBuf,
@@ -29,11 +32,12 @@ impl FSHistory {
             current_version: INIT.to_owned(),
         };
 
+        let mut version_names = vec![];
         let dir_entries = std::fs::read_dir(&dir)?;
         for entry in dir_entries {
             let entry = entry?;
             let filetype = entry.file_type()?;
-            let filename = entry.file_name().to_str().unwrap().to_owned();
+            let filename = entry.file_name().to_string_lossy().into_owned();
 
             if filetype.is_dir() || !filename.ends_with(".yaml") {
                 continue;
@@ -41,6 +45,12 @@ impl FSHistory {
             let version_name = filename[..filename.len() - ".yaml".len()].to_owned();
 
             let v = history.get_version(&version_name)?;
+            if v.name != version_name || (v.name == INIT) != v.previous.is_none() {
+                return Err(FSHistoryError::Inconsistent {
+                    version: version_name,
+                });
+            }
+            version_names.push(version_name);
 
             if let Some(previous) = v.previous {
                 if let Some(existing) = history.next_map.get(&previous) {
@@ -54,10 +64,24 @@ impl FSHistory {
             }
         }
 
-        let mut curr_version = "init".to_string();
+        // init has no previous version, so that this ends
+        let mut curr_version = INIT.to_string();
+        let mut chain = vec![INIT.to_string()];
         while let Some(next) = history.next_map.get(&curr_version) {
             history.current_version = curr_version.clone();
             curr_version = next.clone();
+            chain.push(next.clone());
+        }
+        if let Some(version) = version_names.iter().find(|v| !chain.contains(v)) {
+            return Err(FSHistoryError::Unreachable {
+                high: version.clone(),
+                low: INIT.to_owned(),
+            });
+        }
+        if !version_names.iter().any(|v| v == INIT) || curr_version != STAGE {
+            return Err(FSHistoryError::Inconsistent {
+                version: curr_version,
+            });
         }
 
         Ok(history)
@@ -79,6 +103,10 @@ impl FSHistory {
         let mut versions = vec![];
         let mut curr = to.to_owned();
 
+        if to != INIT && !self.next_map.values().any(|v| v == to) {
+            return Err(FSHistoryError::NoMatchingVersion(to.to_owned()));
+        }
+
         loop {
             let v = self.get_version(&curr)?;
 
@@ -123,6 +151,10 @@ pub enum FSHistoryError {
         high: String,
         low: String,
     },
+    Inconsistent {
+        version: String,
+    },
+    NoMatchingVersion(String),
     FileSystemError(std::io::Error),
     SerdeYAMLError(serde_yaml::Error),
 }
@@ -158,6 +190,14 @@ impl Display for FSHistoryError {
                 "version \"{}\" is not reachable from version \"{}\"",
                 high, low
             ),
+            FSHistoryError::Inconsistent { version } => write!(
+                f,
+                "version \"{}\" is not in one chain from init to stage",
+                version
+            ),
+            FSHistoryError::NoMatchingVersion(version) => {
+                write!(f, "no version matching \"{}\" found", version)
+            }
             FSHistoryError::FileSystemError(err) => write!(f, "{}", err),
             FSHistoryError::SerdeYAMLError(err) => write!(f, "{}", err),
         }
-- 
2.43.0


From c866a8b9d17166a6892d48f4b23690899cd119ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 26/59] fix: replace project files at once instead of
 truncating and rewriting them

---
 src/definition/mod.rs |  3 ++-
 src/history/fsh.rs    |  5 +++--
 src/project/mod.rs    |  6 +++---
 src/util/file.rs      | 22 ++++++++++++++++++++++
 src/util/mod.rs       |  1 +
 5 files changed, 31 insertions(+), 6 deletions(-)
 create mode 100644 src/util/file.rs

diff --git a/src/definition/mod.rs b/src/definition/mod.rs
index ed1f122..e2290c6 100644
--- a/src/definition/mod.rs
+++ b/src/definition/mod.rs
@@ -7,6 +7,7 @@ use crate::{
     },
     error::AnyError,
     snapshot::Database,
+    util::file::write_file,
 };
 
 use self::{base::yaml::parse_mapping_to_nodes, ddl::parse_schema_definition};
@@ -30,7 +31,7 @@ pub fn save_snapshot(file_path: &Path, snapshot: &Database) -> Result<(), AnyErr
         return Err("the schema has no exact notation as definitions".into());
     }
 
-    std::fs::write(file_path, got)?;
+    write_file(file_path, got.as_bytes())?;
 
     return Ok(());
 }
diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 4527926..95b6eba 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -9,6 +9,7 @@ use super::{
     version::{INIT, STAGE},
     Version,
 };
+use crate::util::file::write_file;
 
 pub struct FSHistory {
     pub dir: PathBuf,
@@ -129,8 +130,8 @@ impl FSHistory {
     pub fn save_version(&mut self, version: Version) -> Result<(), FSHistoryError> {
         // TODO: 인 메모리 변경 안해도 되나?...
         let version_file_path = self.get_version_file_path(&version.name);
-        let version_file = File::create(version_file_path)?;
-        serde_yaml::to_writer(version_file, &version)?;
+        let contents = serde_yaml::to_string(&version)?;
+        write_file(&version_file_path, contents.as_bytes())?;
 
         Ok(())
     }
diff --git a/src/project/mod.rs b/src/project/mod.rs
index d49bb3e..110e877 100644
--- a/src/project/mod.rs
+++ b/src/project/mod.rs
@@ -1,4 +1,4 @@
-use crate::util::expand::expand_envvar;
+use crate::util::{expand::expand_envvar, file::write_file};
 use serde::{Deserialize, Serialize};
 use std::{collections::HashMap, fmt::Display, fs, path::PathBuf};
 
@@ -122,9 +122,9 @@ pub fn discover_project(current_dir: PathBuf) -> Result<Project, ProjectError> {
 
 pub fn initialize_project(base_dir: PathBuf) -> Result<Project, ProjectError> {
     let yaml_project = create_base_yaml_project();
-    let s = serde_yaml::to_string(&yaml_project).unwrap();
+    let s = serde_yaml::to_string(&yaml_project)?;
     let config_file = base_dir.join(CONFIG_FILE);
-    fs::write(config_file, &s).unwrap();
+    write_file(&config_file, s.as_bytes())?;
     load_project_from_str(base_dir, &s)
 }
 
diff --git a/src/util/file.rs b/src/util/file.rs
new file mode 100644
index 0000000..60dc369
--- /dev/null
+++ b/src/util/file.rs
@@ -0,0 +1,22 @@
+use std::{fs, io, io::Write, path::Path};
+
+/// Writes a file so that it has either its old or its new contents at all times.
+pub fn write_file(path: &Path, contents: &[u8]) -> io::Result<()> {
+    let name = path
+        .file_name()
+        .ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "not a file name"))?
+        .to_string_lossy();
+    let temp_path = path.with_file_name(format!(".{}.{}.tmp", name, std::process::id()));
+
+    let written = write_synced(&temp_path, contents).and_then(|_| fs::rename(&temp_path, path));
+    if written.is_err() {
+        let _ = fs::remove_file(&temp_path);
+    }
+    written
+}
+
+fn write_synced(path: &Path, contents: &[u8]) -> io::Result<()> {
+    let mut file = fs::File::create(path)?;
+    file.write_all(contents)?;
+    file.sync_all()
+}
diff --git a/src/util/mod.rs b/src/util/mod.rs
index c1fb72c..341abae 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -1,3 +1,4 @@
+pub mod file;
 pub mod sqlfmt;
 pub mod test;
 pub mod expand;
-- 
2.43.0


From 801e4704723b47d17378d246e8667b72191fd315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 27/59] fix: make never overwrites an existing version, and
 reports what it has made only then

---
 src/cmd/make.rs    |  9 +++++----
 src/history/fsh.rs | 11 +++++++++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/cmd/make.rs b/src/cmd/make.rs
index e6f9502..3d567bc 100644
--- a/src/cmd/make.rs
+++ b/src/cmd/make.rs
@@ -23,12 +23,13 @@ pub fn make(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
         chrono::Local::now().format("%Y%m%d_%H%M%S"),
         version.unwrap_or("auto"),
     );
-    let new_stage = Version::new_stage(&to_make.name);
+    let made_name = to_make.name.clone();
+    let new_stage = Version::new_stage(&made_name);
 
-    println!("Made version: {}", &to_make.name.green());
-
-    fsh.save_version(to_make)?;
+    fsh.save_new_version(to_make)?;
     fsh.save_version(new_stage)?;
 
+    println!("Made version: {}", made_name.green());
+
     Ok(())
 }
diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 95b6eba..ff0af8a 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -127,6 +127,13 @@ impl FSHistory {
         return Ok(versions);
     }
 
+    pub fn save_new_version(&mut self, version: Version) -> Result<(), FSHistoryError> {
+        if self.get_version_file_path(&version.name).exists() {
+            return Err(FSHistoryError::AlreadyExists(version.name));
+        }
+        self.save_version(version)
+    }
+
     pub fn save_version(&mut self, version: Version) -> Result<(), FSHistoryError> {
         // TODO: 인 메모리 변경 안해도 되나?...
         let version_file_path = self.get_version_file_path(&version.name);
@@ -156,6 +163,7 @@ pub enum FSHistoryError {
         version: String,
     },
     NoMatchingVersion(String),
+    AlreadyExists(String),
     FileSystemError(std::io::Error),
     SerdeYAMLError(serde_yaml::Error),
 }
@@ -199,6 +207,9 @@ impl Display for FSHistoryError {
             FSHistoryError::NoMatchingVersion(version) => {
                 write!(f, "no version matching \"{}\" found", version)
             }
+            FSHistoryError::AlreadyExists(version) => {
+                write!(f, "version \"{}\" already exists", version)
+            }
             FSHistoryError::FileSystemError(err) => write!(f, "{}", err),
             FSHistoryError::SerdeYAMLError(err) => write!(f, "{}", err),
         }
-- 
2.43.0


From 46d2dd5cc66c5f2d63663eba68423e744de8c7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 28/59] fix: read a history whose making was interrupted before
 the new stage was saved

---
 src/history/fsh.rs | 47 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index ff0af8a..871c744 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -15,6 +15,7 @@ pub struct FSHistory {
     pub dir: PathBuf,
     pub next_map: HashMap<String, String>,
     pub current_version: String,
+    made_from_stage: Option<String>,
 }
 
 impl FSHistory {
@@ -23,6 +24,7 @@ impl FSHistory {
             dir,
             next_map: HashMap::new(),
             current_version: INIT.to_owned(),
+            made_from_stage: None,
         }
     }
 
@@ -31,9 +33,10 @@ impl FSHistory {
             dir: dir.clone(),
             next_map: HashMap::new(),
             current_version: INIT.to_owned(),
+            made_from_stage: None,
         };
 
-        let mut version_names = vec![];
+        let mut versions = vec![];
         let dir_entries = std::fs::read_dir(&dir)?;
         for entry in dir_entries {
             let entry = entry?;
@@ -51,17 +54,24 @@ impl FSHistory {
                     version: version_name,
                 });
             }
-            version_names.push(version_name);
-
-            if let Some(previous) = v.previous {
-                if let Some(existing) = history.next_map.get(&previous) {
+            versions.push(v);
+        }
+        history.made_from_stage = find_made_from_stage(&versions);
+
+        for v in &versions {
+            let previous = match &history.made_from_stage {
+                Some(made) if v.name == STAGE => Some(made),
+                _ => v.previous.as_ref(),
+            };
+            if let Some(previous) = previous {
+                if let Some(existing) = history.next_map.get(previous) {
                     return Err(FSHistoryError::Branched {
                         parent: previous.clone(),
                         child_a: existing.clone(),
                         child_b: v.name.clone(),
                     });
                 }
-                history.next_map.insert(previous, v.name.clone());
+                history.next_map.insert(previous.clone(), v.name.clone());
             }
         }
 
@@ -73,13 +83,13 @@ impl FSHistory {
             curr_version = next.clone();
             chain.push(next.clone());
         }
-        if let Some(version) = version_names.iter().find(|v| !chain.contains(v)) {
+        if let Some(version) = versions.iter().find(|v| !chain.contains(&v.name)) {
             return Err(FSHistoryError::Unreachable {
-                high: version.clone(),
+                high: version.name.clone(),
                 low: INIT.to_owned(),
             });
         }
-        if !version_names.iter().any(|v| v == INIT) || curr_version != STAGE {
+        if !versions.iter().any(|v| v.name == INIT) || curr_version != STAGE {
             return Err(FSHistoryError::Inconsistent {
                 version: curr_version,
             });
@@ -93,6 +103,9 @@ impl FSHistory {
     }
 
     pub fn get_version(&self, version_name: &str) -> Result<Version, FSHistoryError> {
+        if let (STAGE, Some(made)) = (version_name, &self.made_from_stage) {
+            return Ok(Version::new_stage(made));
+        }
         let version_file_path = self.get_version_file_path(version_name);
         let version_file = File::open(version_file_path)?;
         let version: Version = serde_yaml::from_reader(version_file)?;
@@ -148,6 +161,22 @@ impl FSHistory {
     }
 }
 
+// Making is interrupted when the version is saved and the stage it is made from still there.
+fn find_made_from_stage(versions: &[Version]) -> Option<String> {
+    let stage = versions.iter().find(|v| v.name == STAGE)?;
+    if stage.is_empty() {
+        return None;
+    }
+    let made = versions.iter().find(|v| {
+        v.name != STAGE
+            && v.previous == stage.previous
+            && v.changes == stage.changes
+            && v.up == stage.up
+            && v.down == stage.down
+    });
+    made.map(|v| v.name.clone())
+}
+
 #[derive(Debug)]
 pub enum FSHistoryError {
     Branched {
-- 
2.43.0


From 470cd87c60e17f020eb65fa57fad4272a4ed7142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 29/59] fix: init keeps what exists and writes the
 configuration last

---
 src/cmd/init.rs    | 30 ++++++++++++++++++++++--------
 src/history/fsh.rs |  6 +++++-
 src/project/mod.rs | 17 +++++++++++------
 3 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/cmd/init.rs b/src/cmd/init.rs
index 640bb2f..4df51ba 100644
--- a/src/cmd/init.rs
+++ b/src/cmd/init.rs
@@ -1,18 +1,22 @@
 use crate::definition;
 use crate::error::AnyError;
 use crate::history::{FSHistory, Version};
-use crate::project::{discover_project, initialize_project};
+use crate::project::{discover_project, base_project, save_base_project, ProjectError};
 use crate::snapshot::Database;
 
 pub fn init() -> Result<(), AnyError> {
     let cwd = std::env::current_dir()?;
 
-    if let Ok(proj) = discover_project(cwd.clone()) {
-        println!("Project already exists at: {}", proj.base_dir.display());
-        return Ok(());
+    match discover_project(cwd.clone()) {
+        Ok(proj) => {
+            println!("Project already exists at: {}", proj.base_dir.display());
+            return Ok(());
+        }
+        Err(ProjectError::ProjectNotFound { .. }) => {}
+        Err(e) => return Err(e.into()),
     }
 
-    let project = initialize_project(cwd)?;
+    let project = base_project(cwd.clone())?;
     let history_dir = project.resolve_default_history_dir()?;
     let definition_dir = project.resolve_default_definitions_dir()?;
 
@@ -32,10 +36,20 @@ pub fn init() -> Result<(), AnyError> {
     }
 
     let mut fsh = FSHistory::new(history_dir.clone());
-    fsh.save_version(init)?;
-    fsh.save_version(stage)?;
+    if !fsh.has_version(&init.name) {
+        fsh.save_version(init)?;
+    }
+    if !fsh.has_version(&stage.name) {
+        fsh.save_version(stage)?;
+    }
+
+    let definition_file = definition_dir.join("public.yaml");
+    if !definition_file.exists() {
+        definition::save_snapshot(&definition_file, &snapshot)?;
+    }
 
-    definition::save_snapshot(&definition_dir.join("public.yaml"), &snapshot)?;
+    // the project exists once all of it does
+    save_base_project(cwd)?;
 
     Ok(())
 }
diff --git a/src/history/fsh.rs b/src/history/fsh.rs
index 871c744..eacb649 100644
--- a/src/history/fsh.rs
+++ b/src/history/fsh.rs
@@ -140,8 +140,12 @@ impl FSHistory {
         return Ok(versions);
     }
 
+    pub fn has_version(&self, version_name: &str) -> bool {
+        self.get_version_file_path(version_name).exists()
+    }
+
     pub fn save_new_version(&mut self, version: Version) -> Result<(), FSHistoryError> {
-        if self.get_version_file_path(&version.name).exists() {
+        if self.has_version(&version.name) {
             return Err(FSHistoryError::AlreadyExists(version.name));
         }
         self.save_version(version)
diff --git a/src/project/mod.rs b/src/project/mod.rs
index 110e877..dd8b2c6 100644
--- a/src/project/mod.rs
+++ b/src/project/mod.rs
@@ -120,12 +120,17 @@ pub fn discover_project(current_dir: PathBuf) -> Result<Project, ProjectError> {
     }
 }
 
-pub fn initialize_project(base_dir: PathBuf) -> Result<Project, ProjectError> {
-    let yaml_project = create_base_yaml_project();
-    let s = serde_yaml::to_string(&yaml_project)?;
-    let config_file = base_dir.join(CONFIG_FILE);
-    write_file(&config_file, s.as_bytes())?;
-    load_project_from_str(base_dir, &s)
+pub fn base_project(base_dir: PathBuf) -> Result<Project, ProjectError> {
+    load_project_from_str(base_dir, &base_config()?)
+}
+
+pub fn save_base_project(base_dir: PathBuf) -> Result<(), ProjectError> {
+    write_file(&base_dir.join(CONFIG_FILE), base_config()?.as_bytes())?;
+    Ok(())
+}
+
+fn base_config() -> Result<String, ProjectError> {
+    Ok(serde_yaml::to_string(&create_base_yaml_project())?)
 }
 
 fn load_project_from_file(
-- 
2.43.0


From 3760a61ae9f9b4b13d8acfba7e45ff2ff5c1bf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 30/59] fix: use the directories of the selected profile, and
 let clone select one

---
 src/cmd/clone.rs  | 2 +-
 src/cmd/status.rs | 4 ++--
 src/cmd/up.rs     | 2 +-
 src/main.rs       | 1 +
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cmd/clone.rs b/src/cmd/clone.rs
index 143d505..3c780cb 100644
--- a/src/cmd/clone.rs
+++ b/src/cmd/clone.rs
@@ -8,7 +8,7 @@ pub fn clone(profile_name: &str) -> Result<(), AnyError> {
     let cwd: std::path::PathBuf = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
     let database_url = project.resolve_database_url(profile_name)?;
-    let definition_dir = project.resolve_default_definitions_dir()?;
+    let definition_dir = project.resolve_definitions_dir(profile_name)?;
 
     let mut pg_client = Client::connect(&database_url, NoTls)?;
     let mut tx = pg_client.transaction()?;
diff --git a/src/cmd/status.rs b/src/cmd/status.rs
index 46b53b0..ec1197a 100644
--- a/src/cmd/status.rs
+++ b/src/cmd/status.rs
@@ -15,8 +15,8 @@ use postgres::{Client, NoTls};
 pub fn status(profile_name: &str) -> Result<(), AnyError> {
     let cwd = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
-    let history_dir = project.resolve_default_history_dir()?;
-    let definition_dir = project.resolve_default_definitions_dir()?;
+    let history_dir = project.resolve_history_dir(profile_name)?;
+    let definition_dir = project.resolve_definitions_dir(profile_name)?;
     let database_url = project.resolve_database_url(profile_name)?;
 
     let fsh = FSHistory::from_dir(&history_dir)?;
diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index 4bc8edf..d187d41 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -9,7 +9,7 @@ use postgres::{Client, NoTls};
 pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     let cwd: std::path::PathBuf = std::env::current_dir()?;
     let project = discover_project(cwd.clone())?;
-    let history_dir = project.resolve_default_history_dir()?;
+    let history_dir = project.resolve_history_dir(profile_name)?;
     let database_url = project.resolve_database_url(profile_name)?;
     let metadata_schema = project.resolve_metadata_schema(&profile_name)?;
 
diff --git a/src/main.rs b/src/main.rs
index 32cb2d5..5279e78 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -63,6 +63,7 @@ fn main() {
         .subcommand(
           Command::new("clone")
           .about("inspects the database and creates snapshot and the initial migration")
+          .arg(clap::arg!(--"profile" <String>).default_value("database"))
         )
         .subcommand(
           Command::new("print")
-- 
2.43.0


From b128b02e96e6bd589df84a8e10da2bcd579cab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:20 +0000
Subject: [PATCH 31/59] fix: exit with a failure status when a command failed

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 5279e78..8eedea6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -93,6 +93,7 @@ fn main() {
     };
     if let Err(e) = res {
         eprintln!("{}", e);
+        std::process::exit(1);
     }
 }
 
-- 
2.43.0


From 9afe6bc56f1b92500f595276169c94047bdbaba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 32/59] fix: report errors of commands instead of panicking

---
 src/cmd/down.rs  | 6 +++---
 src/cmd/stage.rs | 2 +-
 src/cmd/sync.rs  | 2 +-
 src/cmd/up.rs    | 4 ++--
 src/main.rs      | 3 ++-
 5 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/cmd/down.rs b/src/cmd/down.rs
index 58b3f3d..5b73fc5 100644
--- a/src/cmd/down.rs
+++ b/src/cmd/down.rs
@@ -37,13 +37,13 @@ pub fn down(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     }
 
     for name in versions {
-        let v = dbh.get_version(&mut tx, &name).unwrap();
+        let v = dbh.get_version(&mut tx, &name)?;
         println!("  Reverting version {}", v.name.green());
         for stmt in &v.down {
-            tx.execute(stmt, &[]).unwrap();
+            tx.execute(stmt, &[])?;
             println!("    {}", stmt.dimmed());
         }
-        dbh.delete_version(&mut tx, &v).unwrap();
+        dbh.delete_version(&mut tx, &v)?;
     }
 
     tx.commit()?;
diff --git a/src/cmd/stage.rs b/src/cmd/stage.rs
index a1164b6..f9675eb 100644
--- a/src/cmd/stage.rs
+++ b/src/cmd/stage.rs
@@ -30,7 +30,7 @@ pub fn stage(profile_name: &str) -> Result<(), AnyError> {
         );
 
         let up = change.render_sql();
-        let down = change.revert(&source_snapshot).unwrap().render_sql();
+        let down = change.revert(&source_snapshot)?.render_sql();
         change.apply(&mut source_snapshot)?;
 
         stage.add_change(change);
diff --git a/src/cmd/sync.rs b/src/cmd/sync.rs
index d3d2f73..5f54521 100644
--- a/src/cmd/sync.rs
+++ b/src/cmd/sync.rs
@@ -3,5 +3,5 @@ use crate::error::AnyError;
 /// sync calculates the changes between the definition snapshot and the database snapshot.
 /// and sets the database version it to the given version
 pub fn sync(profile_name: &str) -> Result<(), AnyError> {
-    todo!()
+    Err("sync is not implemented yet".into())
 }
diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index d187d41..482cb2c 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -42,10 +42,10 @@ pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
         let v = fsh.get_version(&version_name)?;
         println!("  Applying version {}", v.name.green());
         for stmt in &v.up {
-            tx.execute(stmt, &[]).unwrap();
+            tx.execute(stmt, &[])?;
             println!("    {}", stmt.dimmed(),);
         }
-        dbh.save_version(&mut tx, &v).unwrap();
+        dbh.save_version(&mut tx, &v)?;
     }
 
     tx.commit()?;
diff --git a/src/main.rs b/src/main.rs
index 8eedea6..b9af757 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -89,7 +89,8 @@ fn main() {
         Some(("sync", args)) => cmd::sync(get_profile(args)),
         // Some(("print", _)) => cmd::print(),
         // Some(("compare", _)) => cmd::compare(),
-        _ => unreachable!(),
+        Some((name, _)) => Err(format!("{} is not implemented yet", name).into()),
+        None => unreachable!(),
     };
     if let Err(e) = res {
         eprintln!("{}", e);
-- 
2.43.0


From 98453185c6280192ccf9606e9df1d4757c668d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 33/59] fix: quote the metadata schema's name

---
 src/history/dbh.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index 10efbd8..f750978 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -1,9 +1,12 @@
 use postgres::Transaction;
 
 use crate::snapshot::changes::Change;
+use crate::util::sqlfmt::{sql_qa, sql_qn};
 
 use super::Version;
 
+const VERSION_TABLE: &str = "version";
+
 pub struct DBHistory {
     metadata_schema: String,
 }
@@ -158,58 +161,59 @@ impl DBHistory {
 }
 
 fn format_create_schema_sql(schema: &str) -> String {
-    format!("CREATE SCHEMA {}", schema)
+    format!("CREATE SCHEMA {}", sql_qn(schema))
 }
 fn format_create_table_sql(schema: &str) -> String {
+    let table = sql_qa(schema, VERSION_TABLE);
     format!(
-        "CREATE TABLE {}.version (
+        "CREATE TABLE {} (
     name VARCHAR(128) NOT NULL PRIMARY KEY,
-    previous VARCHAR(128) REFERENCES {}.version(name),
+    previous VARCHAR(128) REFERENCES {}(name),
     changes JSON NOT NULL,
     up TEXT[] NOT NULL,
     down TEXT[] NOT NULL,
     applied_at TIMESTAMP NOT NULL DEFAULT now(),
     applied_order SERIAL NOT NULL UNIQUE
 )",
-        schema, schema,
+        table, table,
     )
 }
 fn format_insert_version_sql(schema: &str) -> String {
     format!(
-        "INSERT INTO {}.version (name, previous, changes, up, down) VALUES ($1, $2, $3::TEXT::JSON, $4, $5)",
-        schema
+        "INSERT INTO {} (name, previous, changes, up, down) VALUES ($1, $2, $3::TEXT::JSON, $4, $5)",
+        sql_qa(schema, VERSION_TABLE)
     )
 }
 
 fn format_current_version_sql(schema: &str) -> String {
     format!(
-        "SELECT name, previous, changes::TEXT, up, down, applied_at FROM {}.version ORDER BY applied_order DESC LIMIT 1",
-        schema
+        "SELECT name, previous, changes::TEXT, up, down, applied_at FROM {} ORDER BY applied_order DESC LIMIT 1",
+        sql_qa(schema, VERSION_TABLE)
     )
 }
 
 fn format_delete_version_sql(schema: &str) -> String {
-    format!("DELETE FROM {}.version WHERE name = $1", schema)
+    format!("DELETE FROM {} WHERE name = $1", sql_qa(schema, VERSION_TABLE))
 }
 
 fn format_get_downward_range_sql(schema: &str) -> String {
     format!(
-        "SELECT name FROM {}.version WHERE $1 >= applied_order AND applied_order > $2 ORDER BY applied_order DESC",
-        schema
+        "SELECT name FROM {} WHERE $1 >= applied_order AND applied_order > $2 ORDER BY applied_order DESC",
+        sql_qa(schema, VERSION_TABLE)
     )
 }
 
 fn format_get_applied_order_sql(schema: &str) -> String {
     format!(
-        "SELECT applied_order FROM {}.version WHERE name = $1",
-        schema
+        "SELECT applied_order FROM {} WHERE name = $1",
+        sql_qa(schema, VERSION_TABLE)
     )
 }
 
 fn format_get_version_sql(schema: &str) -> String {
     format!(
-        "SELECT name, previous, changes::TEXT, up, down FROM {}.version WHERE name = $1",
-        schema
+        "SELECT name, previous, changes::TEXT, up, down FROM {} WHERE name = $1",
+        sql_qa(schema, VERSION_TABLE)
     )
 }
 
-- 
2.43.0


From 5235763cb5f98180152b5976688204fa5d01af17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 34/59] fix: migrate one at a time, so that concurrent
 migrations start from what the others did

---
 src/cmd/down.rs    |  1 +
 src/cmd/up.rs      |  1 +
 src/history/dbh.rs | 12 ++++++++++++
 3 files changed, 14 insertions(+)

diff --git a/src/cmd/down.rs b/src/cmd/down.rs
index 5b73fc5..8d70878 100644
--- a/src/cmd/down.rs
+++ b/src/cmd/down.rs
@@ -15,6 +15,7 @@ pub fn down(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     let mut dbh = DBHistory::new(&metadata_schema);
 
     dbh.ensure_initialized(&mut tx)?;
+    dbh.lock(&mut tx)?;
 
     let current_version = dbh.get_current_version(&mut tx)?;
 
diff --git a/src/cmd/up.rs b/src/cmd/up.rs
index 482cb2c..3b941c2 100644
--- a/src/cmd/up.rs
+++ b/src/cmd/up.rs
@@ -20,6 +20,7 @@ pub fn up(profile_name: &str, version: Option<&str>) -> Result<(), AnyError> {
     let mut dbh = DBHistory::new(&metadata_schema);
 
     dbh.ensure_initialized(&mut tx)?;
+    dbh.lock(&mut tx)?;
 
     let current_version = dbh.get_current_version(&mut tx)?;
 
diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index f750978..01f6090 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -111,6 +111,12 @@ impl DBHistory {
         Ok(())
     }
 
+    /// Keeps other migrations waiting until the transaction ends.
+    pub fn lock(&mut self, tx: &mut Transaction) -> Result<(), DBHistoryError> {
+        tx.execute(&format_lock_sql(&self.metadata_schema), &[])?;
+        Ok(())
+    }
+
     fn create_meta_schema(&mut self, tx: &mut Transaction) -> Result<(), DBHistoryError> {
         tx.execute(&format_create_schema_sql(&self.metadata_schema), &[])?;
         tx.execute(&format_create_table_sql(&self.metadata_schema), &[])?;
@@ -178,6 +184,12 @@ fn format_create_table_sql(schema: &str) -> String {
         table, table,
     )
 }
+fn format_lock_sql(schema: &str) -> String {
+    format!(
+        "LOCK TABLE {} IN EXCLUSIVE MODE",
+        sql_qa(schema, VERSION_TABLE)
+    )
+}
 fn format_insert_version_sql(schema: &str) -> String {
     format!(
         "INSERT INTO {} (name, previous, changes, up, down) VALUES ($1, $2, $3::TEXT::JSON, $4, $5)",
-- 
2.43.0


From aa4094c643b92cad66d73b7e67f8c7d771e525a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 35/59] fix: report unexpected contents of the version table as
 errors instead of panicking

---
 src/history/dbh.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/history/dbh.rs b/src/history/dbh.rs
index 01f6090..d5a9dba 100644
--- a/src/history/dbh.rs
+++ b/src/history/dbh.rs
@@ -97,7 +97,7 @@ impl DBHistory {
 
         let mut versions = vec![];
         for row in rows {
-            let name: String = row.get(0);
+            let name: String = row.try_get(0)?;
             versions.push(name);
         }
 
@@ -129,7 +129,7 @@ impl DBHistory {
             "SELECT EXISTS(SELECT * FROM pg_catalog.pg_namespace WHERE nspname = $1)",
             &[&self.metadata_schema],
         )?;
-        Ok(row.get(0))
+        Ok(row.try_get(0)?)
     }
 
     fn get_applied_order(
@@ -142,17 +142,17 @@ impl DBHistory {
             &[&version],
         )?;
         match row {
-            Some(row) => Ok(Some(row.get(0))),
+            Some(row) => Ok(Some(row.try_get(0)?)),
             None => Ok(None),
         }
     }
 
     fn populate_row(row: postgres::Row) -> Result<Version, DBHistoryError> {
-        let name: String = row.get(0);
-        let previous: Option<String> = row.get(1);
-        let changes_json: String = row.get(2);
-        let up: Vec<String> = row.get(3);
-        let down: Vec<String> = row.get(4);
+        let name: String = row.try_get(0)?;
+        let previous: Option<String> = row.try_get(1)?;
+        let changes_json: String = row.try_get(2)?;
+        let up: Vec<String> = row.try_get(3)?;
+        let down: Vec<String> = row.try_get(4)?;
 
         let changes: Vec<Change> = serde_json::from_str(&changes_json)?;
 
-- 
2.43.0


From 0921bd667e3ca9fb742cb330453a24161d1dc9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 36/59] fix: clone views

---
 src/introspection/mod.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index ad34283..53c44d1 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -4,7 +4,7 @@ use crate::{
     error::AnyError,
     snapshot::{
         Check, Column, Constraint, Database, ForeignKey, Function, Index, PrimaryKey, Relation,
-        Schema, Sequence, Table, Unique,
+        Schema, Sequence, Table, Unique, View,
     },
 };
 
@@ -33,6 +33,7 @@ pub fn introspect(tx: &mut Transaction, schemas: &[&str]) -> Result<Database, An
     load_unique(tx, &mut database, schemas)?;
     load_checks(tx, &mut database, schemas)?;
     load_indexes(tx, &mut database, schemas)?;
+    load_views(tx, &mut database, schemas)?;
 
     Ok(database)
 }
@@ -89,6 +90,24 @@ fn load_tables(
     Ok(())
 }
 
+fn load_views(
+    tx: &mut Transaction,
+    database: &mut Database,
+    schemas: &[&str],
+) -> Result<(), AnyError> {
+    for iview in view::introspect_views(tx, schemas)? {
+        let view = View {
+            name: iview.name,
+            schema_name: iview.schema,
+            query: iview.view_definition,
+        };
+        database
+            .get_schema_mut(&view.schema_name)?
+            .add_relation(Relation::View(view))?;
+    }
+    Ok(())
+}
+
 fn load_columns(
     tx: &mut Transaction,
     database: &mut Database,
-- 
2.43.0


From d598d2bad2cf0bbcddc50ae89cc3c10416e6285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 37/59] fix: clone functions with their arguments

---
 src/introspection/function.sql | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/introspection/function.sql b/src/introspection/function.sql
index 2331ce4..fdb720c 100644
--- a/src/introspection/function.sql
+++ b/src/introspection/function.sql
@@ -1,6 +1,10 @@
 SELECT
     n.nspname AS schema,
-    p.proname AS name,
+    p.proname ||
+    CASE
+        WHEN pg_get_function_arguments(p.oid) = '' THEN ''
+        ELSE '(' || pg_get_function_arguments(p.oid) || ')'
+    END AS name,
     p.prosrc AS body,
     l.lanname AS language,
     CASE
-- 
2.43.0


From 6275c6097bbab4828d72798b400f1f6673ee3d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 38/59] fix: clone the columns of keys in their order

---
 src/introspection/foreignkey.sql | 4 ++--
 src/introspection/primarykey.sql | 4 ++--
 src/introspection/unique.sql     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/introspection/foreignkey.sql b/src/introspection/foreignkey.sql
index a304ac2..aefe7bc 100644
--- a/src/introspection/foreignkey.sql
+++ b/src/introspection/foreignkey.sql
@@ -3,8 +3,8 @@ SELECT
     con.conname AS constraint_name,
     c.relname AS constraint_table_name,
     (
-			SELECT array_agg(pa.attname)
-			FROM UNNEST(con.conkey) ck(attnum)
+			SELECT array_agg(pa.attname ORDER BY ck.ord)
+			FROM UNNEST(con.conkey) WITH ORDINALITY ck(attnum, ord)
 			JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.conrelid AND pa.attnum = ck.attnum
 		) AS table_columns,
 
diff --git a/src/introspection/primarykey.sql b/src/introspection/primarykey.sql
index fe4e228..f370f0b 100644
--- a/src/introspection/primarykey.sql
+++ b/src/introspection/primarykey.sql
@@ -4,8 +4,8 @@ SELECT
     nr.nspname AS table_schema,
     r.relname AS table_name,
     (
-        SELECT array_agg(pa.attname)
-        FROM UNNEST(c.conkey) ck(attnum)
+        SELECT array_agg(pa.attname ORDER BY ck.ord)
+        FROM UNNEST(c.conkey) WITH ORDINALITY ck(attnum, ord)
         JOIN pg_catalog.pg_attribute pa ON pa.attrelid = c.conrelid AND pa.attnum = ck.attnum
     ) AS table_columns,
     c.condeferrable
diff --git a/src/introspection/unique.sql b/src/introspection/unique.sql
index afa267a..7b12ffa 100644
--- a/src/introspection/unique.sql
+++ b/src/introspection/unique.sql
@@ -4,8 +4,8 @@ SELECT
     nr.nspname AS table_schema,
     r.relname AS table_name,
     (
-        SELECT array_agg(pa.attname)
-        FROM UNNEST(c.conkey) ck(attnum)
+        SELECT array_agg(pa.attname ORDER BY ck.ord)
+        FROM UNNEST(c.conkey) WITH ORDINALITY ck(attnum, ord)
         JOIN pg_catalog.pg_attribute pa ON pa.attrelid = c.conrelid AND pa.attnum = ck.attnum
     ) AS table_columns,
     c.condeferrable
-- 
2.43.0


From 6fc4fd78e7df1712896293bdd3a528768bd33c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 39/59] fix: clone the target of a foreign key from the foreign
 key itself

---
 src/introspection/foreignkey.sql | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/introspection/foreignkey.sql b/src/introspection/foreignkey.sql
index aefe7bc..ec667ce 100644
--- a/src/introspection/foreignkey.sql
+++ b/src/introspection/foreignkey.sql
@@ -8,21 +8,12 @@ SELECT
 			JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.conrelid AND pa.attnum = ck.attnum
 		) AS table_columns,
 
-    npkc.nspname AS target_schema,
+    nfc.nspname AS target_schema,
     fc.relname AS target_table_name,
 	(
-		SELECT array_agg(pa.attname)
-		FROM pg_catalog.pg_attribute pa
-		WHERE fc.oid = pa.attrelid
-		AND fc.oid =
-			CASE pkc.contype
-				WHEN 'f' THEN pkc.confrelid
-				ELSE pkc.conrelid
-			END AND (pa.attnum = ANY (
-			CASE pkc.contype
-				WHEN 'f' THEN pkc.confkey
-			ELSE pkc.conkey
-		END)) AND NOT pa.attisdropped 
+		SELECT array_agg(pa.attname ORDER BY ck.ord)
+		FROM UNNEST(con.confkey) WITH ORDINALITY ck(attnum, ord)
+		JOIN pg_catalog.pg_attribute pa ON pa.attrelid = con.confrelid AND pa.attnum = ck.attnum
 	) AS target_columns,
 	con.condeferrable AS constraint_deferrable,
 	con.condeferred AS constraint_deferred,
@@ -51,10 +42,7 @@ SELECT
 FROM pg_namespace ncon
     JOIN pg_constraint con ON ncon.oid = con.connamespace
     JOIN pg_class c ON con.conrelid = c.oid AND con.contype = 'f'::"char"
-    LEFT JOIN pg_depend d1 ON d1.objid = con.oid AND d1.classid = 'pg_constraint'::regclass::oid AND d1.refclassid = 'pg_class'::regclass::oid AND d1.refobjsubid = 0
-    LEFT JOIN pg_depend d2 ON d2.refclassid = 'pg_constraint'::regclass::oid AND d2.classid = 'pg_class'::regclass::oid AND d2.objid = d1.refobjid AND d2.objsubid = 0 AND d2.deptype = 'i'::"char"
-    LEFT JOIN pg_class fc ON con.confrelid = fc.oid
-    LEFT JOIN pg_constraint pkc ON pkc.oid = d2.refobjid AND (pkc.contype = ANY (ARRAY['p'::"char", 'u'::"char"])) AND pkc.conrelid = con.confrelid
-    LEFT JOIN pg_namespace npkc ON pkc.connamespace = npkc.oid
+    JOIN pg_class fc ON con.confrelid = fc.oid
+    JOIN pg_namespace nfc ON fc.relnamespace = nfc.oid
 WHERE (pg_has_role(c.relowner, 'USAGE') OR has_table_privilege(c.oid, 'INSERT, UPDATE, DELETE, TRUNCATE, REFERENCES, TRIGGER') OR has_any_column_privilege(c.oid, 'INSERT, UPDATE, REFERENCES'))
   AND ncon.nspname = ANY($1);
-- 
2.43.0


From d2664aca57edf08434de0e598993e0a69a332692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 40/59] fix: clone MATCH SIMPLE as such

---
 src/introspection/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index 53c44d1..e0d1123 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -199,7 +199,11 @@ fn load_foreign_keys(
             target_columns: ifk.target_table_columns,
             deferrable: ifk.deferrable,
             initially_deferred: ifk.initially_deferred,
-            match_option: ifk.match_option,
+            // as information_schema calls what SQL calls SIMPLE
+            match_option: match ifk.match_option.as_str() {
+                "NONE" => "SIMPLE".to_owned(),
+                _ => ifk.match_option,
+            },
             update_rule: ifk.update_rule,
             delete_rule: ifk.delete_rule,
         };
-- 
2.43.0


From 187f7cab5069e54ff0b6dce7c777113c4c03b3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 41/59] fix: clone unique indexes that foreign keys refer to

---
 src/introspection/index.sql | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index 6bb2b10..a6660dc 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -29,6 +29,8 @@ FROM pg_catalog.pg_index pi
     JOIN pg_catalog.pg_namespace pn ON pc_index.relnamespace = pn.oid
     JOIN pg_catalog.pg_class pc_table ON pc_table.oid = pi.indrelid
     JOIN pg_am am ON am.oid=pc_index.relam
-    LEFT JOIN pg_catalog.pg_constraint pc ON pc.conindid = pc_index.oid
+    LEFT JOIN pg_catalog.pg_constraint pc
+        ON pc.conindid = pc_index.oid
+            AND pc.contype <> 'f'
 WHERE pc.oid IS NULL
     AND pn.nspname = ANY($1);
-- 
2.43.0


From 518ee308a0bd9b33b844de69bd825ea4607e363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 42/59] fix: clone all keys of an index, in their order and
 with their options

---
 src/introspection/index.sql | 11 ++++-------
 src/introspection/mod.rs    | 22 +++++++++++++++++-----
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index a6660dc..d2321e5 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -12,15 +12,12 @@ SELECT
     pi.indnatts
         AS key_length,
     (
-        SELECT array_agg(pa.attname) 
-        FROM unnest(pi.indkey) AS key(i)
-            JOIN pg_catalog.pg_attribute pa
-                ON pa.attrelid = pi.indrelid
-                    AND pa.attnum = i 
+        SELECT array_agg(pg_catalog.pg_get_indexdef(pi.indexrelid, k.i, true) ORDER BY k.i)
+        FROM generate_series(1, pi.indnkeyatts) AS k(i)
     ) AS key_columns,
     ( 
-        SELECT array_agg(o)
-        FROM unnest(pi.indoption) AS ko(o)
+        SELECT array_agg(ko.o ORDER BY ko.ord)
+        FROM unnest(pi.indoption) WITH ORDINALITY AS ko(o, ord)
     ) AS key_options,
     pg_catalog.pg_get_expr(pi.indexprs, pi.indrelid)
         AS expressions
diff --git a/src/introspection/mod.rs b/src/introspection/mod.rs
index e0d1123..cd4b39b 100644
--- a/src/introspection/mod.rs
+++ b/src/introspection/mod.rs
@@ -246,11 +246,13 @@ fn load_indexes(
     schemas: &[&str],
 ) -> Result<(), AnyError> {
     for iindex in index::introspect_indexes(tx, schemas)? {
-        let key_expressions = if let Some(expressions) = iindex.expressions {
-            vec![expressions] //
-        } else {
-            iindex.key_columns.unwrap()
-        };
+        let key_expressions = iindex
+            .key_columns
+            .unwrap_or_default()
+            .into_iter()
+            .zip(iindex.key_options)
+            .map(|(key, option)| key + index_key_order(&iindex.method, option))
+            .collect();
 
         let index = Index {
             name: iindex.index_name,
@@ -267,6 +269,16 @@ fn load_indexes(
     Ok(())
 }
 
+/// What the flags in pg_index.indoption mean; only B-tree indexes are ordered.
+fn index_key_order(method: &str, option: i16) -> &'static str {
+    match (method, option & 3) {
+        ("btree", 1) => " DESC NULLS LAST",
+        ("btree", 2) => " NULLS FIRST",
+        ("btree", 3) => " DESC",
+        _ => "",
+    }
+}
+
 fn load_functions(
     tx: &mut Transaction,
     database: &mut Database,
-- 
2.43.0


From 55517ccecf3e0677c486d07fe706c3d4d97c1a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 43/59] fix: clone the columns of a table in their order

---
 src/introspection/column.sql | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 8dc09bd..999b489 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -53,4 +53,5 @@ WHERE NOT pg_is_other_temp_schema(nc.oid)
     AND a.attnum > 0
     AND NOT a.attisdropped
     AND c.relkind = 'r'
-    AND nc.nspname = ANY($1);
+    AND nc.nspname = ANY($1)
+ORDER BY nc.nspname, c.relname, a.attnum;
-- 
2.43.0


From b5c17f41da3e6a6cc9452d655b53b359bb72f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 44/59] fix: clone the precision of types with time zone in a
 form that PostgreSQL accepts

---
 src/introspection/column.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 999b489..f757bd0 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -17,7 +17,7 @@ SELECT
     END 
     ||
     CASE WHEN a.atttypmod != -1 THEN
-        CASE t.typname
+        replace(CASE t.typname
                 WHEN 'bpchar' THEN bpchartypmodout(a.atttypmod)
                 WHEN '_bpchar' THEN bpchartypmodout(a.atttypmod)
                 WHEN 'varchar' THEN varchartypmodout(a.atttypmod)
@@ -39,7 +39,7 @@ SELECT
                 WHEN 'numeric' THEN numerictypmodout(a.atttypmod)
                 WHEN '_numeric' THEN numerictypmodout(a.atttypmod)
                 ELSE null
-        END::TEXT
+        END::TEXT, ' with time zone', '')
     ELSE ''
     END
     ||
-- 
2.43.0


From f54c14240410f73a530be31b286c92e83021a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 45/59] fix: clone point, box, name and other types with
 elements that are no arrays as what they are

---
 src/introspection/column.sql | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index f757bd0..18214ad 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -12,7 +12,7 @@ SELECT
     a.attnotnull OR t.typtype = 'd' AND t.typnotnull
         AS "not_null",
     CASE
-        WHEN t.typelem <> 0 THEN (SELECT eltype.typname FROM pg_type eltype WHERE eltype.oid = t.typelem) 
+        WHEN t.typcategory = 'A' THEN (SELECT eltype.typname FROM pg_type eltype WHERE eltype.oid = t.typelem) 
         ELSE t.typname
     END 
     ||
@@ -43,7 +43,7 @@ SELECT
     ELSE ''
     END
     ||
-    CASE WHEN t.typelem <> 0 THEN '[]' ELSE '' END
+    CASE WHEN t.typcategory = 'A' THEN '[]' ELSE '' END
         AS "data_type"
 FROM pg_attribute a
     LEFT JOIN pg_attrdef ad ON a.attrelid = ad.adrelid AND a.attnum = ad.adnum
-- 
2.43.0


From c5c693482b3edc685ec0341f5ad13311e0f99b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:01 +0000
Subject: [PATCH 46/59] fix: clone columns of type "char" as such

---
 src/introspection/column.sql | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 18214ad..ef235aa 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -12,6 +12,7 @@ SELECT
     a.attnotnull OR t.typtype = 'd' AND t.typnotnull
         AS "not_null",
     CASE
+        WHEN t.typname IN ('char', '_char') THEN '"char"'
         WHEN t.typcategory = 'A' THEN (SELECT eltype.typname FROM pg_type eltype WHERE eltype.oid = t.typelem) 
         ELSE t.typname
     END 
-- 
2.43.0


From 3d3604157bd4d9b4dfd67f2edabf398bd4d3103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 47/59] fix: recreate foreign keys that rely on a unique index
 with options

---
 src/snapshot/diff.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 44a7a1b..58196ec 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -55,7 +55,7 @@ fn recreate_foreign_keys(s: &Database, t: &Database, changes: &mut Vec<Change>)
                 _ => false,
             });
             if index.unique && goes {
-                let columns = index.key_expressions.iter().map(|k| k.trim_matches('"').to_string());
+                let columns = index.key_expressions.iter().map(|k| indexed_column(k));
                 dropped.push((schema.name.clone(), index.table_name.clone(), columns.collect()));
             }
         }
@@ -93,6 +93,15 @@ fn recreate_foreign_keys(s: &Database, t: &Database, changes: &mut Vec<Change>)
     }
 }
 
+/// The column that a key of an index names, without its options.
+fn indexed_column(key: &str) -> String {
+    let end = match key.strip_prefix('"') {
+        Some(rest) => rest.rfind('"').map_or(key.len(), |i| i + 2),
+        None => key.find(char::is_whitespace).unwrap_or(key.len()),
+    };
+    key[..end].trim_matches('"').replace("\"\"", "\"")
+}
+
 /// A view cannot stay while a relation it reads is recreated or the type of a column changes.
 fn recreate_views(s: &Database, t: &Database, changes: &mut Vec<Change>) {
     loop {
-- 
2.43.0


From 342c7925c5f1f3e68e8be88820973e3a932895e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:11 +0000
Subject: [PATCH 48/59] fix: recreate views of all columns when columns come or
 go

---
 src/snapshot/diff.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 58196ec..68a3361 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -102,8 +102,17 @@ fn indexed_column(key: &str) -> String {
     key[..end].trim_matches('"').replace("\"\"", "\"")
 }
 
-/// A view cannot stay while a relation it reads is recreated or the type of a column changes.
+/// A view cannot stay while a relation it reads is recreated or the type of a column changes, nor
+/// a view of all columns while there are others.
 fn recreate_views(s: &Database, t: &Database, changes: &mut Vec<Change>) {
+    let extended: Vec<String> = changes
+        .iter()
+        .filter_map(|change| match change {
+            Change::AddColumnChange(c) => Some(c.table.clone()),
+            Change::DropColumnChange(c) => Some(c.table.clone()),
+            _ => None,
+        })
+        .collect();
     loop {
         let unsettled: Vec<String> = changes
             .iter()
@@ -128,7 +137,10 @@ fn recreate_views(s: &Database, t: &Database, changes: &mut Vec<Change>) {
                     Change::DropViewChange(c) => *c == DropViewChange::new(old),
                     _ => false,
                 });
-                if !goes && unsettled.iter().any(|name| mentions(&old.query, name)) {
+                let stays = !unsettled.iter().any(|name| mentions(&old.query, name))
+                    && !(old.query.contains('*')
+                        && extended.iter().any(|name| mentions(&old.query, name)));
+                if !goes && !stays {
                     Some((old, new))
                 } else {
                     None
-- 
2.43.0


From d98bb1c42e704e326c644ec304abb55066efb8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 49/59] fix: recreate checks, indexes and views that call a
 function which is replaced

---
 src/snapshot/diff.rs | 51 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 68a3361..6ed5843 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -20,9 +20,9 @@ impl Changeset {
 
 pub fn compare_diff(s: &Database, t: &Database) -> Vec<Change> {
     let mut changes = diff_database_update(s, t).changes;
+    release_functions(s, t, &mut changes);
     recreate_foreign_keys(s, t, &mut changes);
     recreate_views(s, t, &mut changes);
-    release_functions(s, t, &mut changes);
     order_changes(s, &mut changes);
     return changes;
 }
@@ -120,6 +120,7 @@ fn recreate_views(s: &Database, t: &Database, changes: &mut Vec<Change>) {
                 Change::DropViewChange(c) => Some(c.view.clone()),
                 Change::DropTableChange(c) => Some(c.table.clone()),
                 Change::AlterColumnSetDataTypeChange(c) => Some(c.table.clone()),
+                Change::DropFunctionChange(c) => Some(function_name(&c.function)),
                 _ => None,
             })
             .collect();
@@ -156,15 +157,39 @@ fn recreate_views(s: &Database, t: &Database, changes: &mut Vec<Change>) {
     }
 }
 
-/// A default cannot stay while a function it calls is dropped or replaced.
+/// The name of a function without its arguments.
+fn function_name(function: &str) -> String {
+    function.split('(').next().unwrap_or_default().trim().to_string()
+}
+
+/// A default, a check or an index cannot stay while a function it calls is dropped or replaced.
 fn release_functions(s: &Database, t: &Database, changes: &mut Vec<Change>) {
     let dropped: Vec<String> = changes
         .iter()
         .filter_map(|change| match change {
-            Change::DropFunctionChange(c) => c.function.split('(').next().map(|n| n.to_string()),
+            Change::DropFunctionChange(c) => Some(function_name(&c.function)),
             _ => None,
         })
         .collect();
+    let calls = |text: &str| dropped.iter().any(|name| mentions(text, name));
+
+    for old in s
+        .iter_schemas()
+        .flat_map(|schema| schema.iter_relations())
+        .filter_map(|relation| relation.as_index().ok())
+    {
+        let new = t
+            .get_schema(&old.schema_name)
+            .and_then(|s| s.get_relation(&old.name))
+            .and_then(|r| r.as_index());
+        let drop = Change::from(DropIndexChange::new(old));
+        if old.key_expressions.iter().any(|key| calls(key)) && !changes.contains(&drop) {
+            if let Ok(new) = new {
+                changes.push(drop);
+                changes.push(CreateIndexChange::new(new).into());
+            }
+        }
+    }
 
     for table in s
         .iter_schemas()
@@ -179,12 +204,22 @@ fn release_functions(s: &Database, t: &Database, changes: &mut Vec<Change>) {
             Ok(new_table) => new_table,
             Err(_) => continue,
         };
+        for old in table.iter_constraints().filter_map(|c| c.as_check().ok()) {
+            let new = new_table.get_constraint(&old.name).and_then(|c| c.as_check());
+            let drop = Change::from(DropCheckChange::new(old));
+            if calls(&old.expression) && !changes.contains(&drop) {
+                if let Ok(new) = new {
+                    changes.retain(|change| match change {
+                        Change::AlterCheckChange(c) => *c != AlterCheckChange::new(new),
+                        _ => true,
+                    });
+                    changes.push(drop);
+                    changes.push(AddCheckChange::new(new).into());
+                }
+            }
+        }
         for old in table.iter_columns() {
-            let calls = match &old.default {
-                Some(default) => dropped.iter().any(|name| mentions(default, name.trim())),
-                None => false,
-            };
-            if !calls {
+            if !old.default.as_ref().map_or(false, |default| calls(default)) {
                 continue;
             }
             let mut release = AlterColumnSetDefaultChange::new(old);
-- 
2.43.0


From dad312f61113f9c6ac04185d6e65a1065b27d038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 50/59] fix: create functions after what their bodies read

---
 src/snapshot/diff.rs | 236 +++++++++++++++++++++++++++++++++----------
 1 file changed, 184 insertions(+), 52 deletions(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 6ed5843..82cee6a 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -291,59 +291,201 @@ fn order_changes(s: &Database, changes: &mut Vec<Change>) {
         Change::DropSchemaChange(_) => 19,
     });
 
-    // views that read other views
-    let views: Vec<(String, String)> = changes
-        .iter()
-        .filter_map(|change| match change {
-            Change::DropViewChange(c) => match s.get_schema(&c.schema) {
-                Ok(schema) => match schema.get_relation(&c.view) {
-                    Ok(Relation::View(view)) => Some((c.view.clone(), view.query.clone())),
-                    _ => None,
-                },
-                _ => None,
-            },
-            _ => None,
-        })
-        .collect();
-    let len = views.len();
-    let mut order = order_views(&views);
-    order.reverse();
-    move_to(&mut changes[..len], &order);
+    let before = uses(&changes.iter().map(|c| goes(s, c)).collect::<Vec<_>>(), true);
+    let mut order: Vec<usize> = vec![];
+    for i in 0..changes.len() {
+        place(i, &before, &mut vec![], &mut order);
+    }
+    arrange(changes, &order);
 
-    let start = changes
-        .iter()
-        .position(|change| matches!(change, Change::CreateViewChange(_)))
-        .unwrap_or(changes.len());
-    let views: Vec<(String, String)> = changes[start..]
-        .iter()
-        .filter_map(|change| match change {
-            Change::CreateViewChange(c) => Some((c.view.clone(), c.query.clone())),
-            _ => None,
-        })
-        .collect();
-    move_to(&mut changes[start..start + views.len()], &order_views(&views));
+    let before = uses(&changes.iter().map(comes).collect::<Vec<_>>(), false);
+    let mut order: Vec<usize> = vec![];
+    let mut placed = vec![false; changes.len()];
+    let mut left: Vec<usize> = (0..changes.len()).collect();
+    while !left.is_empty() {
+        let next = left
+            .iter()
+            .position(|i| before[*i].iter().all(|j| placed[*j]))
+            .unwrap_or(0);
+        let next = left.remove(next);
+        placed[next] = true;
+        order.push(next);
+    }
+    arrange(changes, &order);
 }
 
-/// The order of views (name, query) in which every view comes after those it mentions.
-fn order_views(views: &[(String, String)]) -> Vec<usize> {
-    let mut order: Vec<usize> = vec![];
-    while order.len() < views.len() {
-        let left: Vec<usize> = (0..views.len()).filter(|i| !order.contains(i)).collect();
-        let next = left.iter().find(|i| {
-            !left
+/// What a change takes away, and what uses other objects until then.
+fn goes(s: &Database, change: &Change) -> (String, Vec<String>) {
+    let table = |schema: &str, table: &str| {
+        s.get_schema(schema)
+            .and_then(|s| s.get_relation(table))
+            .and_then(|r| r.as_table())
+    };
+    match change {
+        Change::DropViewChange(c) => {
+            let view = s
+                .get_schema(&c.schema)
+                .and_then(|s| s.get_relation(&c.view))
+                .and_then(|r| r.as_view());
+            (c.view.clone(), view.iter().map(|v| v.query.clone()).collect())
+        }
+        Change::DropFunctionChange(c) => {
+            let function = s
+                .get_schema(&c.schema)
+                .and_then(|s| s.get_function(&c.function));
+            let texts = function
+                .iter()
+                .flat_map(|f| [f.body.clone(), f.returns.clone()])
+                .chain(c.function.split_once('(').map(|(_, args)| args.to_string()))
+                .collect();
+            (function_name(&c.function), texts)
+        }
+        Change::DropTableChange(c) => {
+            let defaults = table(&c.schema, &c.table)
+                .iter()
+                .flat_map(|t| t.iter_columns())
+                .filter_map(|c| c.default.clone())
+                .collect();
+            (c.table.clone(), defaults)
+        }
+        Change::DropSequenceChange(c) => (c.sequence.clone(), vec![]),
+        Change::DropColumnChange(c) => (c.table.clone(), vec![]),
+        Change::AlterColumnSetDataTypeChange(c) => (c.table.clone(), vec![]),
+        Change::AlterColumnSetDefaultChange(c) if c.default.is_none() => {
+            let column = table(&c.schema, &c.table).and_then(|t| t.get_column(&c.column));
+            let default = column.iter().filter_map(|c| c.default.clone()).collect();
+            (String::new(), default)
+        }
+        Change::DropForeignKeyChange(c) => {
+            let key = table(&c.schema, &c.table)
+                .and_then(|t| t.get_constraint(&c.constraint))
+                .and_then(|c| c.as_foreign_key());
+            let texts = key
+                .iter()
+                .flat_map(|k| [k.table_name.clone(), k.target_table.clone()])
+                .collect();
+            (String::new(), texts)
+        }
+        Change::DropPrimaryKeyChange(c) => (String::new(), vec![c.table.clone()]),
+        Change::DropUniqueChange(c) => (String::new(), vec![c.table.clone()]),
+        Change::DropCheckChange(c) => {
+            let check = table(&c.schema, &c.table)
+                .and_then(|t| t.get_constraint(&c.constraint))
+                .and_then(|c| c.as_check());
+            let texts = check
+                .iter()
+                .flat_map(|k| [k.table_name.clone(), k.expression.clone()])
+                .collect();
+            (String::new(), texts)
+        }
+        Change::DropIndexChange(c) => {
+            let index = s
+                .get_schema(&c.schema)
+                .and_then(|s| s.get_relation(&c.index))
+                .and_then(|r| r.as_index());
+            let texts = index
                 .iter()
-                .any(|j| j != *i && mentions(&views[**i].1, &views[*j].0))
-        });
-        order.push(*next.unwrap_or(&left[0]));
+                .flat_map(|i| [vec![i.table_name.clone()], i.key_expressions.clone()].concat())
+                .collect();
+            (String::new(), texts)
+        }
+        Change::AlterSequenceOwnerChange(c) if c.owned_by_table.is_none() => {
+            let sequence = s
+                .get_schema(&c.schema)
+                .and_then(|s| s.get_relation(&c.sequence))
+                .and_then(|r| r.as_sequence());
+            let owner = sequence
+                .iter()
+                .filter_map(|s| s.owned_by_table.clone())
+                .collect();
+            (String::new(), owner)
+        }
+        _ => (String::new(), vec![]),
+    }
+}
+
+/// What a change brings, and what uses other objects from then on.
+fn comes(change: &Change) -> (String, Vec<String>) {
+    match change {
+        Change::CreateViewChange(c) => (c.view.clone(), vec![c.query.clone()]),
+        Change::CreateFunctionChange(c) => {
+            let texts = [c.body.clone(), c.returns.clone()]
+                .into_iter()
+                .chain(c.function.split_once('(').map(|(_, args)| args.to_string()))
+                .collect();
+            (function_name(&c.function), texts)
+        }
+        Change::CreateTableChange(c) => {
+            let defaults = c.columns.iter().filter_map(|c| c.default.clone()).collect();
+            (c.table.clone(), defaults)
+        }
+        Change::CreateSequenceChange(c) => (c.sequence.clone(), vec![]),
+        Change::AddColumnChange(c) => (c.table.clone(), c.default.iter().cloned().collect()),
+        Change::AlterColumnSetDataTypeChange(c) => (c.table.clone(), vec![]),
+        Change::AlterColumnSetDefaultChange(c) => {
+            (String::new(), c.default.iter().cloned().collect())
+        }
+        Change::AddPrimaryKeyChange(c) => (String::new(), vec![c.table.clone()]),
+        Change::AddUniqueChange(c) => (String::new(), vec![c.table.clone()]),
+        Change::AddCheckChange(c) => (String::new(), vec![c.table.clone(), c.expression.clone()]),
+        Change::AddForeignKeyChange(c) => {
+            (String::new(), vec![c.table.clone(), c.target_table.clone()])
+        }
+        Change::CreateIndexChange(c) => (
+            String::new(),
+            [vec![c.table.clone()], c.key_expressions.clone()].concat(),
+        ),
+        Change::AlterSequenceOwnerChange(c) => {
+            (String::new(), c.owned_by_table.iter().cloned().collect())
+        }
+        _ => (String::new(), vec![]),
+    }
+}
+
+/// For each of some named objects the others that use it, or those that it uses.
+fn uses(objects: &[(String, Vec<String>)], by: bool) -> Vec<Vec<usize>> {
+    let mut found: Vec<Vec<usize>> = vec![vec![]; objects.len()];
+    for (user, (_, texts)) in objects.iter().enumerate() {
+        if texts.is_empty() {
+            continue;
+        }
+        for (used, (name, _)) in objects.iter().enumerate() {
+            if user != used && texts.iter().any(|text| mentions(text, name)) {
+                if by {
+                    found[used].push(user);
+                } else {
+                    found[user].push(used);
+                }
+            }
+        }
+    }
+    found
+}
+
+/// Appends what comes before an element, then the element.
+fn place(i: usize, before: &[Vec<usize>], pending: &mut Vec<usize>, order: &mut Vec<usize>) {
+    if order.contains(&i) || pending.contains(&i) {
+        return;
     }
-    order
+    pending.push(i);
+    for j in &before[i] {
+        place(*j, before, pending, order);
+    }
+    pending.pop();
+    order.push(i);
+}
+
+/// Rearranges elements so that the one at `order[i]` comes to `i`.
+fn arrange<T>(els: &mut Vec<T>, order: &[usize]) {
+    let mut old: Vec<Option<T>> = els.drain(..).map(Some).collect();
+    els.extend(order.iter().filter_map(|i| old[*i].take()));
 }
 
 fn mentions(query: &str, name: &str) -> bool {
-    let query = query.to_lowercase();
     if name.is_empty() {
         return false;
     }
+    let query = query.to_lowercase();
     let in_word = |c: char| c.is_alphanumeric() || c == '_';
     for name in [name.to_lowercase(), name.to_lowercase().replace('"', "\"\"")] {
         let mut from = 0;
@@ -358,16 +500,6 @@ fn mentions(query: &str, name: &str) -> bool {
     false
 }
 
-/// Rearranges elements so that the one at `order[i]` comes to `i`.
-fn move_to<T>(els: &mut [T], order: &[usize]) {
-    let mut at: Vec<usize> = (0..els.len()).collect();
-    for i in 0..order.len() {
-        let j = at.iter().position(|k| *k == order[i]).unwrap();
-        els.swap(i, j);
-        at.swap(i, j);
-    }
-}
-
 fn diff_database_update(s: &Database, t: &Database) -> Changeset {
     let mut changes = Changeset::new();
 
-- 
2.43.0


From 741dc1d2dd73e38190789930b042c8477fb3e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 51/59] fix: clone the columns of partitioned tables

---
 src/introspection/column.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index ef235aa..43329c7 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -53,6 +53,6 @@ FROM pg_attribute a
 WHERE NOT pg_is_other_temp_schema(nc.oid)
     AND a.attnum > 0
     AND NOT a.attisdropped
-    AND c.relkind = 'r'
+    AND c.relkind IN ('r', 'p')
     AND nc.nspname = ANY($1)
 ORDER BY nc.nspname, c.relname, a.attnum;
-- 
2.43.0


From 8922ac98642189fb0d4a7244be535053128efc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 52/59] fix: clone no checks of foreign tables and no indexes
 of materialized views

---
 src/introspection/check.sql | 1 +
 src/introspection/index.sql | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/introspection/check.sql b/src/introspection/check.sql
index 282aab9..0c03620 100644
--- a/src/introspection/check.sql
+++ b/src/introspection/check.sql
@@ -17,4 +17,5 @@ FROM pg_constraint con
     LEFT JOIN pg_type t ON t.oid = con.contypid
 WHERE pg_has_role(COALESCE(c.relowner, t.typowner), 'USAGE') AND con.contype = 'c'
     AND con.conrelid != 0
+    AND c.relkind IN ('r', 'p')
     AND rs.nspname = ANY($1);
diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index d2321e5..fde925c 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -30,4 +30,5 @@ FROM pg_catalog.pg_index pi
         ON pc.conindid = pc_index.oid
             AND pc.contype <> 'f'
 WHERE pc.oid IS NULL
+    AND pc_table.relkind IN ('r', 'p')
     AND pn.nspname = ANY($1);
-- 
2.43.0


From 2b82e06f421acf42d513489da2d747bdb731f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 53/59] fix: clone no aggregates and procedures as functions

---
 src/introspection/function.sql | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/introspection/function.sql b/src/introspection/function.sql
index fdb720c..d70b09d 100644
--- a/src/introspection/function.sql
+++ b/src/introspection/function.sql
@@ -20,4 +20,5 @@ FROM
     pg_proc p
     JOIN pg_namespace n ON p.pronamespace = n.oid
     JOIN pg_language l ON p.prolang = l.oid
-WHERE n.nspname = ANY($1)
+WHERE p.prokind = 'f'
+    AND n.nspname = ANY($1)
-- 
2.43.0


From aa6b57a03b54947d0bb49097196fa50a8af90cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 54/59] fix: clone the operator classes of index keys

---
 src/introspection/index.sql | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index fde925c..31d4d04 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -12,8 +12,13 @@ SELECT
     pi.indnatts
         AS key_length,
     (
-        SELECT array_agg(pg_catalog.pg_get_indexdef(pi.indexrelid, k.i, true) ORDER BY k.i)
-        FROM generate_series(1, pi.indnkeyatts) AS k(i)
+        SELECT array_agg(
+            pg_catalog.pg_get_indexdef(pi.indexrelid, kc.ord::int4, true)
+            || CASE WHEN oc.opcdefault THEN '' ELSE ' ' || quote_ident(oc.opcname) END
+            ORDER BY kc.ord
+        )
+        FROM unnest(pi.indclass) WITH ORDINALITY AS kc(o, ord)
+        JOIN pg_catalog.pg_opclass oc ON oc.oid = kc.o
     ) AS key_columns,
     ( 
         SELECT array_agg(ko.o ORDER BY ko.ord)
-- 
2.43.0


From 795aa83e4d9b1109919cd3f9c20abb0f85087f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:37 +0000
Subject: [PATCH 55/59] fix: name the types of users by their schemas when
 cloning

---
 src/introspection/column.sql | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/introspection/column.sql b/src/introspection/column.sql
index 43329c7..5f092ac 100644
--- a/src/introspection/column.sql
+++ b/src/introspection/column.sql
@@ -11,6 +11,9 @@ SELECT
         AS "column_default",
     a.attnotnull OR t.typtype = 'd' AND t.typnotnull
         AS "not_null",
+    CASE
+        WHEN nt.nspname <> 'pg_catalog' THEN format_type(a.atttypid, a.atttypmod)
+        ELSE
     CASE
         WHEN t.typname IN ('char', '_char') THEN '"char"'
         WHEN t.typcategory = 'A' THEN (SELECT eltype.typname FROM pg_type eltype WHERE eltype.oid = t.typelem) 
@@ -45,6 +48,7 @@ SELECT
     END
     ||
     CASE WHEN t.typcategory = 'A' THEN '[]' ELSE '' END
+    END
         AS "data_type"
 FROM pg_attribute a
     LEFT JOIN pg_attrdef ad ON a.attrelid = ad.adrelid AND a.attnum = ad.adnum
-- 
2.43.0


From 0082fa8c5e4a6b31cd1de6832e21f574a87e0193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:37 +0000
Subject: [PATCH 56/59] fix: clone the expression of a check without NO INHERIT
 or NOT VALID

---
 src/introspection/check.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/introspection/check.sql b/src/introspection/check.sql
index 0c03620..2ff452a 100644
--- a/src/introspection/check.sql
+++ b/src/introspection/check.sql
@@ -5,7 +5,7 @@ SELECT
         table_name,
     con.conname
         constraint_name,
-    SUBSTRING(pg_get_constraintdef(con.oid), 7)
+    '(' || pg_get_expr(con.conbin, con.conrelid) || ')'
         check_clause,
     con.condeferrable
         is_deferrable,
-- 
2.43.0


From e57c67e5ff1ea8a4fe7cc1f946a77dca55e6a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:37 +0000
Subject: [PATCH 57/59] fix: clone no partial index as one of all rows

---
 src/introspection/index.sql | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/introspection/index.sql b/src/introspection/index.sql
index 31d4d04..a89e6c2 100644
--- a/src/introspection/index.sql
+++ b/src/introspection/index.sql
@@ -35,5 +35,6 @@ FROM pg_catalog.pg_index pi
         ON pc.conindid = pc_index.oid
             AND pc.contype <> 'f'
 WHERE pc.oid IS NULL
+    AND pi.indpred IS NULL
     AND pc_table.relkind IN ('r', 'p')
     AND pn.nspname = ANY($1);
-- 
2.43.0


From e6c8249c6631c25a202be0a1c771e9b81332130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:37 +0000
Subject: [PATCH 58/59] fix: clone no functions of language C

---
 src/introspection/function.sql | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/introspection/function.sql b/src/introspection/function.sql
index d70b09d..7f5b15e 100644
--- a/src/introspection/function.sql
+++ b/src/introspection/function.sql
@@ -21,4 +21,5 @@ FROM
     JOIN pg_namespace n ON p.pronamespace = n.oid
     JOIN pg_language l ON p.prolang = l.oid
 WHERE p.prokind = 'f'
+    AND l.lanname <> 'c'
     AND n.nspname = ANY($1)
-- 
2.43.0


From f3d96b3cfa9425316f7d852787b25184bc430b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:10 +0000
Subject: [PATCH 59/59] fix: order changes by what reads and calls, not by
 names of columns

---
 src/snapshot/diff.rs | 139 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 119 insertions(+), 20 deletions(-)

diff --git a/src/snapshot/diff.rs b/src/snapshot/diff.rs
index 82cee6a..6cb2605 100644
--- a/src/snapshot/diff.rs
+++ b/src/snapshot/diff.rs
@@ -291,14 +291,14 @@ fn order_changes(s: &Database, changes: &mut Vec<Change>) {
         Change::DropSchemaChange(_) => 19,
     });
 
-    let before = uses(&changes.iter().map(|c| goes(s, c)).collect::<Vec<_>>(), true);
+    let before = uses(changes, &changes.iter().map(|c| goes(s, c)).collect::<Vec<_>>(), true);
     let mut order: Vec<usize> = vec![];
     for i in 0..changes.len() {
         place(i, &before, &mut vec![], &mut order);
     }
     arrange(changes, &order);
 
-    let before = uses(&changes.iter().map(comes).collect::<Vec<_>>(), false);
+    let before = uses(changes, &changes.iter().map(comes).collect::<Vec<_>>(), false);
     let mut order: Vec<usize> = vec![];
     let mut placed = vec![false; changes.len()];
     let mut left: Vec<usize> = (0..changes.len()).collect();
@@ -335,7 +335,12 @@ fn goes(s: &Database, change: &Change) -> (String, Vec<String>) {
                 .and_then(|s| s.get_function(&c.function));
             let texts = function
                 .iter()
-                .flat_map(|f| [f.body.clone(), f.returns.clone()])
+                .flat_map(|f| {
+                    // only bodies of this language keep what they use from being dropped
+                    let sql = f.language.eq_ignore_ascii_case("sql");
+                    [sql.then(|| f.body.clone()), Some(f.returns.clone())]
+                })
+                .flatten()
                 .chain(c.function.split_once('(').map(|(_, args)| args.to_string()))
                 .collect();
             (function_name(&c.function), texts)
@@ -442,24 +447,113 @@ fn comes(change: &Change) -> (String, Vec<String>) {
     }
 }
 
-/// For each of some named objects the others that use it, or those that it uses.
-fn uses(objects: &[(String, Vec<String>)], by: bool) -> Vec<Vec<usize>> {
-    let mut found: Vec<Vec<usize>> = vec![vec![]; objects.len()];
+/// For each change with a named object the others that use it, or those that it uses.
+fn uses(changes: &[Change], objects: &[(String, Vec<String>)], by: bool) -> Vec<Vec<usize>> {
+    let mut uses: Vec<Vec<usize>> = vec![vec![]; objects.len()];
+    let mut words: Vec<(usize, usize)> = vec![];
     for (user, (_, texts)) in objects.iter().enumerate() {
         if texts.is_empty() {
             continue;
         }
         for (used, (name, _)) in objects.iter().enumerate() {
-            if user != used && texts.iter().any(|text| mentions(text, name)) {
-                if by {
-                    found[used].push(user);
-                } else {
-                    found[user].push(used);
-                }
+            if user == used {
+                continue;
+            }
+            match texts.iter().filter_map(|text| mention(text, name, &changes[used])).max() {
+                Some(Mention::Use) => uses[user].push(used),
+                Some(Mention::Word) => words.push((user, used)),
+                None => {}
             }
         }
     }
-    found
+    // where uses would go round in a circle, a word is the name of something else
+    let mut all = uses.clone();
+    for (user, used) in &words {
+        all[*user].push(*used);
+    }
+    for (user, used) in words {
+        if !leads_to(&all, used, user, &mut vec![]) {
+            uses[user].push(used);
+        }
+    }
+    if !by {
+        return uses;
+    }
+    let mut users: Vec<Vec<usize>> = vec![vec![]; objects.len()];
+    for (user, all) in uses.iter().enumerate() {
+        for used in all {
+            users[*used].push(user);
+        }
+    }
+    users
+}
+
+fn leads_to(uses: &[Vec<usize>], from: usize, to: usize, seen: &mut Vec<usize>) -> bool {
+    if from == to {
+        return true;
+    }
+    if seen.contains(&from) {
+        return false;
+    }
+    seen.push(from);
+    uses[from].iter().any(|next| leads_to(uses, *next, to, seen))
+}
+
+#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+enum Mention {
+    /// The name is there, but a column may have it.
+    Word,
+    /// The object is read, called or named alone.
+    Use,
+}
+
+/// How a text mentions what a change makes, alters or drops.
+fn mention(text: &str, name: &str, change: &Change) -> Option<Mention> {
+    let (schema, function) = match change {
+        Change::CreateFunctionChange(c) => (&c.schema, true),
+        Change::DropFunctionChange(c) => (&c.schema, true),
+        Change::CreateViewChange(c) => (&c.schema, false),
+        Change::DropViewChange(c) => (&c.schema, false),
+        Change::CreateTableChange(c) => (&c.schema, false),
+        Change::DropTableChange(c) => (&c.schema, false),
+        _ => return mentions(text, name).then_some(Mention::Use),
+    };
+    if text == name {
+        return Some(Mention::Use);
+    }
+    let lower = text.to_lowercase();
+    let found = occurrences(&lower, name).into_iter().map(|(start, end)| {
+        let (before, after) = (unquoted(&lower[..start]), lower[end..].trim_start_matches('"'));
+        let (before, qualifier) = match before.trim_end().strip_suffix('.') {
+            Some(before) => split_last_name(before),
+            None => (before, ""),
+        };
+        let read = matches!(before.split_whitespace().last(), Some("from" | "join"));
+        let called = after.trim_start().starts_with('(');
+        match (read || called, function == called) {
+            (true, true) if qualifier == schema.to_lowercase() => Some(Mention::Use),
+            (true, true) if qualifier.is_empty() && schema == "public" => Some(Mention::Use),
+            (true, true) if qualifier.is_empty() => Some(Mention::Word),
+            (true, _) => None,
+            (false, _) => Some(Mention::Word),
+        }
+    });
+    found.max().flatten()
+}
+
+fn unquoted(text: &str) -> &str {
+    text.strip_suffix('"').unwrap_or(text)
+}
+
+/// Splits a name, quoted or not, from the end of a text.
+fn split_last_name(text: &str) -> (&str, &str) {
+    match text.strip_suffix('"') {
+        Some(text) => text.rsplit_once('"').unwrap_or(("", text)),
+        None => {
+            let start = text.trim_end_matches(|c: char| c.is_alphanumeric() || c == '_').len();
+            text.split_at(start)
+        }
+    }
 }
 
 /// Appends what comes before an element, then the element.
@@ -482,22 +576,27 @@ fn arrange<T>(els: &mut Vec<T>, order: &[usize]) {
 }
 
 fn mentions(query: &str, name: &str) -> bool {
+    !occurrences(&query.to_lowercase(), name).is_empty()
+}
+
+/// Where a name stands in a text of lower case.
+fn occurrences(text: &str, name: &str) -> Vec<(usize, usize)> {
+    let mut found = vec![];
     if name.is_empty() {
-        return false;
+        return found;
     }
-    let query = query.to_lowercase();
     let in_word = |c: char| c.is_alphanumeric() || c == '_';
     for name in [name.to_lowercase(), name.to_lowercase().replace('"', "\"\"")] {
         let mut from = 0;
-        while let Some(i) = query[from..].find(&name) {
-            let end = from + i + name.len();
-            if !query[..from + i].ends_with(in_word) && !query[end..].starts_with(in_word) {
-                return true;
+        while let Some(i) = text[from..].find(&name) {
+            let (start, end) = (from + i, from + i + name.len());
+            if !text[..start].ends_with(in_word) && !text[end..].starts_with(in_word) {
+                found.push((start, end));
             }
             from = end;
         }
     }
-    false
+    found
 }
 
 fn diff_database_update(s: &Database, t: &Database) -> Changeset {
-- 
2.43.0

