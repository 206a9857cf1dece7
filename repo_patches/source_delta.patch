From 114e42c8b2d12a8383fb120943e32b365f32e119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:55 +0000
Subject: [PATCH 01/22] fix: collapse unions nested in the variants of a union

A union with a single variant kept the unions inside of it and lost their
nullability, and a union of an object (or map, array) with null kept the unions
of the fields. Avro collapses once from the root, so those fields were cast to
string (or dropped) even though their type is known, and disagreed with the
BigQuery schema. A nullable tuple was likewise cast to string.
---
 src/ast.rs | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index f350af5..8a890a9 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -97,42 +97,31 @@ impl Union {
     /// be consumed by the JSON type. In a similar fashion, a table schema is determined
     /// to be nullable or required via occurrences of null types in unions.
     pub fn collapse(&self) -> Tag {
-        let is_null = self.items.iter().any(Tag::is_null);
-
         if self.items.is_empty() {
             panic!("empty union is not allowed")
-        } else if self.items.len() == 1 {
-            return Tag {
-                name: None,
-                namespace: None,
-                nullable: is_null,
-                is_root: false,
-                data_type: self.items[0].data_type.clone(),
-                description: None,
-                title: None,
-            };
         }
 
-        let items: Vec<Tag> = self
+        // collapse the unions nested anywhere inside of the variants, which may
+        // themselves turn out to be null
+        let (nulls, items): (Vec<Tag>, Vec<Tag>) = self
             .items
             .iter()
-            .filter(|x| !x.is_null())
             .map(|x| {
-                if let Type::Union(union) = &x.data_type {
-                    let mut tag = union.collapse();
-                    tag.name = x.name.clone();
-                    tag
-                } else {
-                    x.clone()
-                }
+                let mut tag = x.clone();
+                tag.collapse();
+                tag
             })
-            .collect();
+            .partition(Tag::is_null);
+        let is_null = !nulls.is_empty();
 
         // after collapsing nulls in the base case and collapsing nested unions in
         // the pre-processing step, check for nullability based on the immediate level of tags
         let nullable = is_null || items.iter().any(|tag| tag.nullable);
 
-        let data_type: Type = if items.iter().all(Tag::is_atom) {
+        let data_type: Type = if items.len() == 1 {
+            // nothing to reconcile with, the type is kept as it is
+            items[0].data_type.clone()
+        } else if items.iter().all(Tag::is_atom) {
             items
                 .into_iter()
                 .fold(Type::Null, |acc, x| match (acc, &x.data_type) {
-- 
2.43.0


From 03b5f8de0b5f2e43c327b151ed893b296da0a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:55 +0000
Subject: [PATCH 02/22] fix: keep an optional tuple item of union type nullable

Collapsing the union overwrote the nullability that minItems had given to the
item, so the column became REQUIRED.
---
 src/ast.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 8a890a9..84140da 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -553,7 +553,9 @@ impl Tag {
             Type::Union(union) => {
                 let tag = union.collapse();
                 self.data_type = tag.data_type;
-                self.nullable = tag.nullable;
+                // a union may already be nullable for reasons other than its
+                // variants e.g. the optional items of a tuple
+                self.nullable |= tag.nullable;
             }
             _ => (),
         }
-- 
2.43.0


From ff2811254d6bd2de025f48608764581c659d2690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 03/22] fix: a field is required only if every variant of a
 union requires it

Merging an object that lists required fields with one that lists none kept the
list of the former, so documents of the latter broke the REQUIRED columns.
---
 src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 84140da..c259f07 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -179,7 +179,7 @@ impl Union {
                                     (Some(x), Some(y)) => {
                                         Some(x.intersection(y).map(ToString::to_string).collect())
                                     }
-                                    (Some(x), None) | (None, Some(x)) => Some(x.clone()),
+                                    // nothing is required by a variant without a list
                                     _ => None,
                                 };
                             Type::Object(Object::new(result, required))
-- 
2.43.0


From 0a0bea08b841399a390195cb497fd0f037da23a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 04/22] fix: a union of datetimes is a datetime and a union of
 bytes is bytes

Variants of the same type were reported as incompatible.
---
 src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index c259f07..2bdb8dc 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -134,6 +134,8 @@ impl Union {
                             | (Atom::Integer, Atom::Number)
                             | (Atom::Number, Atom::Integer) => Atom::Number,
                             (Atom::String, Atom::String) => Atom::String,
+                            (Atom::Datetime, Atom::Datetime) => Atom::Datetime,
+                            (Atom::Bytes, Atom::Bytes) => Atom::Bytes,
                             (lhs, rhs) => {
                                 trace!("Invalid union collapse of atoms {:?} and {:?}", lhs, rhs);
                                 Atom::Json
-- 
2.43.0


From 60f83cae8c48612a5744b21342f311bccc7b8a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 05/22] fix: omit property names that are empty instead of
 panicking

An empty property name, or one made of underscores when the case is normalized,
aborted the translation under every resolution strategy.
---
 src/ast.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 2bdb8dc..1f49ba5 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -346,7 +346,7 @@ impl Tag {
 
     /// If a name starts with a number, prefix it with an underscore.
     fn normalize_numeric_prefix(name: String) -> String {
-        if name.chars().next().unwrap().is_numeric() {
+        if name.starts_with(char::is_numeric) {
             format!("_{}", name)
         } else {
             name
@@ -391,7 +391,11 @@ impl Tag {
                     } else {
                         renamed
                     };
-                    if renamed.as_str() != key.as_str() {
+                    if renamed.is_empty() {
+                        // there are no words in e.g. `_`
+                        warn!("Omitting {} - not a valid property name", key);
+                        fields.remove(&key);
+                    } else if renamed.as_str() != key.as_str() {
                         warn!("{} replaced with {}", key, renamed);
                         fields.insert(renamed, fields[&key].clone());
                         fields.remove(&key);
-- 
2.43.0


From 56fc3d0b7d12fb47356343545413cfb07856d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 06/22] fix: make the outcome of colliding property names
 deterministic

Of two properties with the same column name e.g. a-b and a.b, the one that was
kept depended on the iteration order of the map.
---
 src/ast.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 1f49ba5..b03a0a4 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -379,7 +379,10 @@ impl Tag {
     pub fn normalize_properties(&mut self, normalize_case: bool) {
         if let Type::Object(ref mut object) = self.data_type {
             let fields = &mut object.fields;
-            let keys: Vec<String> = fields.keys().cloned().collect();
+            let mut keys: Vec<String> = fields.keys().cloned().collect();
+            // the field that is kept when names collide should not depend on the
+            // iteration order of the map
+            keys.sort();
 
             for key in keys {
                 // Replace property names with the normalized property name
-- 
2.43.0


From 86b4a5db8be083fbd6b1040fc073cca4d79f6e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 07/22] fix: anchor every alternative of the json object path

The anchor only applied to the first alternative of e.g. foo|bar.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 591a434..2b35eae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -71,7 +71,7 @@ impl Context {
             .as_ref()
             .map(|object_regex| {
                 // Ensure we match from the beginning of the string
-                let re = format!(r"\A{}", object_regex);
+                let re = format!(r"\A(?:{})", object_regex);
                 let json_object_path_re = Regex::new(&re).unwrap();
                 json_object_path_re.is_match(fqn)
             })
-- 
2.43.0


From 16d206d1d5cef7a746038849f8fb743e0c806324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 08/22] fix: treat empty patternProperties as under-specified

An empty set of patterns aborted the translation with an empty union.
---
 src/jsonschema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 5977f46..47e7051 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -260,7 +260,7 @@ impl Tag {
                             description,
                             title,
                         ),
-                        (_, Some(tag)) => {
+                        (_, Some(tag)) if !tag.is_empty() => {
                             let items: Result<Vec<_>, _> =
                                 tag.values().map(|v| v.type_into_ast(context)).collect();
                             let union = ast::Tag::new(
-- 
2.43.0


From a75bc19fd261253768480a4e54df7d5623ca6ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 09/22] fix: resolve an array without items as under-specified

It aborted the translation even if the resolution strategy is cast or drop.
---
 src/jsonschema.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 47e7051..4587fa0 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -371,7 +371,13 @@ impl Tag {
                     };
                     ast::Tag::new(data_type, None, false, description, title)
                 } else {
-                    return Err("array missing item");
+                    ast::Tag::new(
+                        ast::Type::Atom(ast::Atom::Json),
+                        None,
+                        false,
+                        description,
+                        title,
+                    )
                 }
             }
         };
-- 
2.43.0


From 80b69bd3203f1f60da53eed01c6b496dd167bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:08 +0000
Subject: [PATCH 10/22] fix: keep a repeated record at the root of a BigQuery
 schema

The root was only recognized as an array or a map before its union with null (or
with other arrays) was collapsed, otherwise the fields of the element were
extracted as if the document was a single record.
---
 src/bigquery.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigquery.rs b/src/bigquery.rs
index d844498..f94a573 100644
--- a/src/bigquery.rs
+++ b/src/bigquery.rs
@@ -227,11 +227,11 @@ impl TranslateFrom<ast::Tag> for Schema {
     type Error = &'static str;
 
     fn translate_from(tag: ast::Tag, context: &Context) -> Result<Self, Self::Error> {
-        let mut bq_tag = Tag::translate_from(tag.clone(), context).unwrap();
+        let mut bq_tag = Tag::translate_from(tag, context).unwrap();
         match *bq_tag.data_type {
             // Maps and arrays are both treated as a Record type with different
             // modes. These should not be extracted if they are the root-type.
-            Type::Record(_) if tag.is_array() || tag.is_map() => {
+            Type::Record(_) if matches!(bq_tag.mode, Mode::Repeated) => {
                 assert!(bq_tag.name.is_none());
                 bq_tag.name = Some(DEFAULT_COLUMN.into());
                 Ok(Schema::Root(vec![bq_tag]))
-- 
2.43.0


From 276cef1153b04c9ef25eda28b2198cd584a609dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:39 +0000
Subject: [PATCH 11/22] fix: drop an avro tuple if one of its items is dropped

The BigQuery schema drops the whole tuple, while avro kept a record of the
remaining items, possibly without any field.
---
 src/avro.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/avro.rs b/src/avro.rs
index 388bfa9..171a41e 100644
--- a/src/avro.rs
+++ b/src/avro.rs
@@ -199,20 +199,16 @@ impl TranslateFrom<ast::Tag> for Type {
                     .enumerate()
                     .map(|(i, v)| {
                         let default = if v.nullable { Some(json!(null)) } else { None };
-                        (
-                            format!("f{}_", i),
-                            Type::translate_from(v.clone(), context),
+                        // the positions are significant, so an item that is
+                        // dropped invalidates the tuple
+                        Ok(Field {
+                            name: format!("f{}_", i),
+                            data_type: Type::translate_from(v.clone(), context)?,
                             default,
-                        )
-                    })
-                    .filter(|(_, v, _)| v.is_ok())
-                    .map(|(name, data_type, default)| Field {
-                        name,
-                        data_type: data_type.unwrap(),
-                        default,
-                        ..Default::default()
+                            ..Default::default()
+                        })
                     })
-                    .collect();
+                    .collect::<Result<Vec<Field>, Self::Error>>()?;
                 let record = Record {
                     common: CommonAttributes {
                         name: tag.name.clone().unwrap_or_else(|| "__UNNAMED__".into()),
-- 
2.43.0


From 8bb85de5ecb7d07bb6d8f0746e691aca8bd85ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 12/22] fix: match the json object path below a union at the
 root

The fields of a union at the root kept the namespace they had inside of the
union, so the path never matched a column of a nullable root object.
---
 src/ast.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index b03a0a4..0a684ce 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -436,9 +436,13 @@ impl Tag {
     /// Sets a tag with references to the name and the namespace.
     fn set_name(&mut self, name: &str, namespace: &str) {
         self.name = Some(name.to_string());
-        if !namespace.is_empty() {
-            self.namespace = Some(namespace.to_string());
-        }
+        // the namespace may have been set before, e.g. inside of a union at the
+        // root that has been collapsed since
+        self.namespace = if namespace.is_empty() {
+            None
+        } else {
+            Some(namespace.to_string())
+        };
     }
 
     /// A helper function for calculating the names and namespaces within the
-- 
2.43.0


From 8cbde6367342f859ea34cdf1caefc9e819146f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:43 +0000
Subject: [PATCH 13/22] hook: let a model checker choose the order of hash maps
 (cfg jst_mc)

---
 src/ast.rs        |   3 ++
 src/bigquery.rs   |   6 +++
 src/jsonschema.rs |   3 ++
 src/lib.rs        |   5 ++
 src/order.rs      | 129 ++++++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 146 insertions(+)
 create mode 100644 src/order.rs

diff --git a/src/ast.rs b/src/ast.rs
index 0a684ce..3c1bfc8 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -2,7 +2,10 @@ use super::casing::to_snake_case;
 use super::jsonschema;
 use super::Context;
 use super::TranslateFrom;
+#[cfg(jst_mc)]
+use crate::order::{HashMap, HashSet, New as _};
 use regex::Regex;
+#[cfg(not(jst_mc))]
 use std::collections::{HashMap, HashSet};
 
 #[derive(Serialize, Deserialize, Debug, Copy, Clone)]
diff --git a/src/bigquery.rs b/src/bigquery.rs
index f94a573..d9fa305 100644
--- a/src/bigquery.rs
+++ b/src/bigquery.rs
@@ -1,6 +1,9 @@
 use super::ast;
 use super::TranslateFrom;
 use super::{Context, ResolveMethod};
+#[cfg(jst_mc)]
+use crate::order::{HashMap, New as _};
+#[cfg(not(jst_mc))]
 use std::collections::HashMap;
 
 const DEFAULT_COLUMN: &str = "root";
@@ -257,8 +260,11 @@ impl TranslateFrom<ast::Tag> for Schema {
 /// See: https://serde.rs/custom-date-format.html#date-in-a-custom-format
 mod fields_as_vec {
     use super::Tag;
+    #[cfg(jst_mc)]
+    use crate::order::HashMap;
     use serde::ser::{SerializeSeq, Serializer};
     use serde::{Deserialize, Deserializer};
+    #[cfg(not(jst_mc))]
     use std::collections::HashMap;
     use std::iter::FromIterator;
 
diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 4587fa0..26572f7 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -1,6 +1,9 @@
+#[cfg(jst_mc)]
+use crate::order::{HashMap, HashSet, New as _};
 /// A JSON Schema serde module derived from the v4 spec.
 /// Refer to http://json-schema.org/draft-04/schema for spec details.
 use serde_json::{json, Value};
+#[cfg(not(jst_mc))]
 use std::collections::{HashMap, HashSet};
 
 use super::ast;
diff --git a/src/lib.rs b/src/lib.rs
index 2b35eae..dbc2541 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![recursion_limit = "128"]
+#![allow(unexpected_cfgs)]
 #[macro_use]
 extern crate log;
 #[macro_use]
@@ -6,6 +7,10 @@ extern crate serde;
 #[macro_use]
 extern crate maplit;
 
+#[cfg(jst_mc)]
+#[macro_use]
+pub mod order;
+
 mod ast;
 mod avro;
 mod bigquery;
diff --git a/src/order.rs b/src/order.rs
new file mode 100644
index 0000000..c976ed9
--- /dev/null
+++ b/src/order.rs
@@ -0,0 +1,129 @@
+//! Hash maps and sets whose iteration order is chosen by a model checker.
+//!
+//! This module only exists with `--cfg jst_mc`. The maps and sets are those of the standard library
+//! with another hasher: every map is given the number of a permutation of the registered keys, and
+//! a key hashes to its position in that permutation.
+use std::cell::RefCell;
+use std::collections::BTreeSet;
+use std::hash::{BuildHasher, Hasher};
+
+pub type HashMap<K, V> = std::collections::HashMap<K, V, State>;
+pub type HashSet<K> = std::collections::HashSet<K, State>;
+
+/// The constructor that the standard library has for its own hasher only.
+pub trait New {
+    fn new() -> Self;
+}
+impl<K, V> New for HashMap<K, V> {
+    fn new() -> Self {
+        Self::default()
+    }
+}
+impl<K> New for HashSet<K> {
+    fn new() -> Self {
+        Self::default()
+    }
+}
+
+#[allow(unused_macros)]
+macro_rules! hashmap {
+    ($($key:expr => $value:expr),* $(,)?) => {{
+        let mut map: $crate::order::HashMap<_, _> = Default::default();
+        $(map.insert($key, $value);)*
+        map
+    }};
+}
+
+#[derive(Default)]
+struct Control {
+    keys: Vec<String>,
+    /// the positions of the keys in the n-th map; `base` if empty, and for later ones
+    choices: Vec<Vec<usize>>,
+    base: Vec<usize>,
+    /// the keys hashed by the n-th map
+    seen: Vec<BTreeSet<usize>>,
+}
+
+thread_local! {
+    static CONTROL: RefCell<Control> = RefCell::new(Control::default());
+}
+
+/// Run `f` with these choices; the result comes with the keys hashed by every map made.
+pub fn run<T>(
+    keys: &[String],
+    choices: &[Vec<usize>],
+    base: &[usize],
+    f: impl FnOnce() -> T,
+) -> (T, Vec<BTreeSet<usize>>) {
+    CONTROL.with(|c| {
+        *c.borrow_mut() = Control {
+            keys: keys.to_vec(),
+            choices: choices.to_vec(),
+            base: base.to_vec(),
+            seen: Vec::new(),
+        }
+    });
+    let result = f();
+    let control = CONTROL.with(|c| c.replace(Control::default()));
+    (result, control.seen)
+}
+
+#[derive(Clone, Debug)]
+pub struct State {
+    id: usize,
+}
+
+impl Default for State {
+    fn default() -> Self {
+        CONTROL.with(|c| {
+            let c = &mut *c.borrow_mut();
+            let id = c.seen.len();
+            c.seen.push(BTreeSet::new());
+            State { id }
+        })
+    }
+}
+
+impl BuildHasher for State {
+    type Hasher = Position;
+    fn build_hasher(&self) -> Position {
+        Position {
+            id: self.id,
+            bytes: Vec::new(),
+        }
+    }
+}
+
+pub struct Position {
+    id: usize,
+    bytes: Vec<u8>,
+}
+
+impl Hasher for Position {
+    fn write(&mut self, bytes: &[u8]) {
+        self.bytes.extend_from_slice(bytes);
+    }
+
+    fn finish(&self) -> u64 {
+        let key = self.bytes.strip_suffix(&[0xff]).unwrap_or(&self.bytes);
+        let content = key.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, b| {
+            (h ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3)
+        });
+        CONTROL.with(|c| {
+            let c = &mut *c.borrow_mut();
+            let rank = c.keys.iter().position(|k| k.as_bytes() == key);
+            if let (Some(rank), Some(seen)) = (rank, c.seen.get_mut(self.id)) {
+                seen.insert(rank);
+            }
+            let positions = match c.choices.get(self.id) {
+                Some(p) if !p.is_empty() => p,
+                _ => &c.base,
+            };
+            let position = match rank {
+                Some(rank) => positions.get(rank).copied().unwrap_or(rank),
+                None => c.keys.len() + (content % 61) as usize,
+            };
+            (content & (0x7f << 57)) | position as u64
+        })
+    }
+}
-- 
2.43.0


From 2e48ccf80121678200be9da0301bbe32f5d05946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 14/22] fix: compile the json object path as it is written

Wrapping it in a group rejected an expression that ends in a comment of
the verbose mode.
---
 src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index dbc2541..d136a74 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -75,10 +75,13 @@ impl Context {
         self.json_object_path_regex
             .as_ref()
             .map(|object_regex| {
-                // Ensure we match from the beginning of the string
-                let re = format!(r"\A(?:{})", object_regex);
-                let json_object_path_re = Regex::new(&re).unwrap();
-                json_object_path_re.is_match(fqn)
+                // Ensure we match from the beginning of the string. The leftmost match
+                // is found, and the expression is compiled as it is written: a
+                // prefix would only anchor the first alternative
+                let json_object_path_re = Regex::new(object_regex).unwrap();
+                json_object_path_re
+                    .find(fqn)
+                    .map_or(false, |found| found.start() == 0)
             })
             .unwrap_or(false)
     }
-- 
2.43.0


From ec48ac881f0e83c153f17c4adaf6e32b6da5567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 15/22] fix: write null values of nullable columns as null

A null in a nullable string column was written as the string "null", and in a nullable array or
map as an empty list or an error.
---
 scripts/mps-generate-avro-data-helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/mps-generate-avro-data-helper.py b/scripts/mps-generate-avro-data-helper.py
index cc29d1e..ff94b68 100755
--- a/scripts/mps-generate-avro-data-helper.py
+++ b/scripts/mps-generate-avro-data-helper.py
@@ -60,6 +60,8 @@ def convert(data, schema):
         return out
 
     if schema.type == "union":
+        if data is None and any(sub.type == "null" for sub in schema.schemas):
+            return None
         for sub in schema.schemas:
             if sub.type == "null":
                 continue
-- 
2.43.0


From ebc5106a98a1c1c7c6190d0cc0e6b206b808b57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 16/22] fix: write empty lists inside of lists

The record around an empty inner list was written without its required field.
---
 scripts/mps-generate-avro-data-helper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/mps-generate-avro-data-helper.py b/scripts/mps-generate-avro-data-helper.py
index ff94b68..9cdc641 100755
--- a/scripts/mps-generate-avro-data-helper.py
+++ b/scripts/mps-generate-avro-data-helper.py
@@ -41,12 +41,12 @@ def convert(data, schema):
     if schema.type == "record":
         # iterate over all keys
         out = {}
-        if not data:
-            return out
-
         # convert a nested
         if isinstance(data, list) and set(schema.field_map.keys()) == {"list"}:
             data = {"list": data}
+        if not data:
+            return out
+
         # cast tuple into an object before continuing
         if isinstance(data, list):
             data = {f"f{i}_": v for i, v in enumerate(data)}
-- 
2.43.0


From 608d269a536c7ac85d2406e430d21120badd690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 17/22] fix: skip properties with an empty name when writing
 documents

The transpiler omits them from the schema, but such a document aborted the script.
---
 scripts/mps-generate-avro-data-helper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/mps-generate-avro-data-helper.py b/scripts/mps-generate-avro-data-helper.py
index 9cdc641..4241814 100755
--- a/scripts/mps-generate-avro-data-helper.py
+++ b/scripts/mps-generate-avro-data-helper.py
@@ -51,6 +51,9 @@ def convert(data, schema):
         if isinstance(data, list):
             data = {f"f{i}_": v for i, v in enumerate(data)}
         for key, value in data.items():
+            # there is no field for an empty key
+            if not key:
+                continue
             # apply the appropriate transformations on the key
             key = format_key(key)
             field = schema.field_map.get(key)
-- 
2.43.0


From 11959cd6189537c48c6c6e142a119581eaaf6b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 18/22] fix: strip only the extension of the name of a document

sed 's/.ndjson//' removed the first occurrence with any preceding character, so that a document like
xndjson.main.1 was looked up under another name.
---
 scripts/mps-generate-avro-data.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mps-generate-avro-data.sh b/scripts/mps-generate-avro-data.sh
index cce741a..4a0c8fa 100755
--- a/scripts/mps-generate-avro-data.sh
+++ b/scripts/mps-generate-avro-data.sh
@@ -2,7 +2,7 @@
 
 cd "$(dirname "$0")/.." || exit
 
-documents=$(ls data | sed 's/.ndjson//')
+documents=$(ls data | sed 's/\.ndjson$//')
 
 total=0
 failed=0
-- 
2.43.0


From 8e7c0e309f06ab208faeb3e757c2fdfe158198b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 19/22] fix: strip only the extension of the name of a file to
 load

---
 scripts/mps-load-avro-bq.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mps-load-avro-bq.sh b/scripts/mps-load-avro-bq.sh
index a172c61..0627fa9 100755
--- a/scripts/mps-load-avro-bq.sh
+++ b/scripts/mps-load-avro-bq.sh
@@ -14,7 +14,7 @@ error=0
 skip=0
 
 trap "exit" INT
-for document in $(ls avro-data | sed 's/.avro//'); do
+for document in $(ls avro-data | sed 's/\.avro$//'); do
     # downcase hyphens to underscores before generating names
     bq_document=$(echo $document | sed 's/-/_/g')
     namespace=$(echo $bq_document | cut -d. -f1)
-- 
2.43.0


From ec87b47b9b8dafd17daa2baa9408b4a34623a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 20/22] fix: skip a table only if its whole name exists

With SKIP_EXISTING a document was skipped if a table existed whose name contains the name of its own.
---
 scripts/mps-load-avro-bq.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mps-load-avro-bq.sh b/scripts/mps-load-avro-bq.sh
index 0627fa9..c374bc5 100755
--- a/scripts/mps-load-avro-bq.sh
+++ b/scripts/mps-load-avro-bq.sh
@@ -21,7 +21,7 @@ for document in $(ls avro-data | sed 's/\.avro$//'); do
     doctype=$(echo $bq_document | cut -d. -f2)
     docver=$(echo $bq_document | cut -d. -f3)
 
-    table_exists=$(bq ls ${dataset_id} | grep ${namespace}__${doctype}_v${docver})
+    table_exists=$(bq ls ${dataset_id} | grep -w ${namespace}__${doctype}_v${docver})
 
     if [[ ! -z ${SKIP_EXISTING+x} ]] && [[ ! -z ${table_exists} ]]; then
         echo "skipping bq load for ${document}"
-- 
2.43.0


From c059f4fd093bbb79494f30fb3520ba6f3efb2590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 21/22] fix: call the transpiler by its present name and
 options

The binary is called jsonschema-transpiler and has no option --from-file, so no schema was validated.
---
 scripts/mps-validate-avro-schemas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/mps-validate-avro-schemas.py b/scripts/mps-validate-avro-schemas.py
index 5620984..582ec5c 100755
--- a/scripts/mps-validate-avro-schemas.py
+++ b/scripts/mps-validate-avro-schemas.py
@@ -12,7 +12,7 @@ import avro.schema
 
 
 ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
-BIN = "target/debug/jsonschema_transpiler"
+BIN = "target/debug/jsonschema-transpiler"
 
 
 def build():
@@ -25,7 +25,7 @@ def avro_schema(path):
     schema = None
     try:
         data = subprocess.check_output(
-            [BIN, "--from-file", path, "--type", "avro"], stderr=subprocess.DEVNULL
+            [BIN, path, "--type", "avro"], stderr=subprocess.DEVNULL
         )
         schema = json.loads(data)
     except subprocess.CalledProcessError:
-- 
2.43.0


From f2a99b92e55659f7400fe0bbe61dd719ff787e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 22/22] fix: find the root of the repository from other
 directories

---
 scripts/mps-verify-nested-list.sh  | 2 +-
 scripts/mps-verify-tuple-struct.sh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/mps-verify-nested-list.sh b/scripts/mps-verify-nested-list.sh
index 7d8e2c0..16cb99c 100755
--- a/scripts/mps-verify-nested-list.sh
+++ b/scripts/mps-verify-nested-list.sh
@@ -1,6 +1,6 @@
 #!/bin/bash
 
-cd "$(dirname "$0").."
+cd "$(dirname "$0")/.."
 
 datadir=$(mktemp -d -t tmp.XXXXXXXXXX)
 function cleanup {
diff --git a/scripts/mps-verify-tuple-struct.sh b/scripts/mps-verify-tuple-struct.sh
index b1692c4..698db7d 100755
--- a/scripts/mps-verify-tuple-struct.sh
+++ b/scripts/mps-verify-tuple-struct.sh
@@ -1,6 +1,6 @@
 #!/bin/bash
 
-cd "$(dirname "$0").."
+cd "$(dirname "$0")/.."
 
 datadir=$(mktemp -d -t tmp.XXXXXXXXXX)
 function cleanup {
-- 
2.43.0

