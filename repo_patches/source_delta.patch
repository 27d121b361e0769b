From d361eb4bc46f6211ca81e4c9e0c004924124922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 01/50] fix: write_model_to_file creates the file it writes
 instead of opening it read-only

---
 atelier-core/src/io/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-core/src/io/mod.rs b/atelier-core/src/io/mod.rs
index b071ccf..a5d9825 100644
--- a/atelier-core/src/io/mod.rs
+++ b/atelier-core/src/io/mod.rs
@@ -111,7 +111,7 @@ pub fn write_model_to_file(
     model: &Model,
     path: PathBuf,
 ) -> ModelResult<()> {
-    let mut file = File::open(path)?;
+    let mut file = File::create(path)?;
     w.write(&mut file, model)?;
     Ok(())
 }
-- 
2.43.0


From 2a2bff83653dd1c924d4b2426a0c1994cc3e715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 02/50] fix: JSON reader names the members of a map key and
 value, as every other reader does

---
 atelier-json/src/reader.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 1e4ed30..fedfa8e 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -141,16 +141,16 @@ impl JsonReader {
                 Ok(ShapeKind::Unresolved)
             } else if s == SHAPE_LIST {
                 Ok(ShapeKind::List(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(MEMBER_MEMBER, outer.get(MEMBER_MEMBER))?,
                 )))
             } else if s == SHAPE_SET {
                 Ok(ShapeKind::Set(ListOrSet::from(
-                    self.member(outer.get(MEMBER_MEMBER))?,
+                    self.member(MEMBER_MEMBER, outer.get(MEMBER_MEMBER))?,
                 )))
             } else if s == SHAPE_MAP {
                 Ok(ShapeKind::Map(MapShape::from(
-                    self.member(outer.get(MEMBER_KEY))?,
-                    self.member(outer.get(MEMBER_VALUE))?,
+                    self.member(MEMBER_KEY, outer.get(MEMBER_KEY))?,
+                    self.member(MEMBER_VALUE, outer.get(MEMBER_VALUE))?,
                 )))
             } else if s == SHAPE_STRUCTURE {
                 let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
@@ -369,11 +369,11 @@ impl JsonReader {
         .into())
     }
 
-    fn member(&self, member: Option<&Value>) -> ModelResult<MemberShape> {
+    fn member(&self, name: &str, member: Option<&Value>) -> ModelResult<MemberShape> {
         if let Some(Value::Object(ms)) = member {
             if let Some(Value::String(target_id)) = ms.get(ADD_SHAPE_KEY_TARGET) {
                 let mut member_shape = MemberShape::new(
-                    Identifier::new_unchecked(MEMBER_MEMBER),
+                    Identifier::new_unchecked(name),
                     ShapeID::from_str(target_id)?,
                 );
                 if let Some(Value::Object(vs)) = ms.get(ADD_SHAPE_KEY_TRAITS) {
-- 
2.43.0


From a2f1dc2162021ea7a3d93e2b23820d51738f3249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 03/50] fix: JSON reader does not print resource identifiers to
 standard output

---
 atelier-json/src/reader.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index fedfa8e..0b54ece 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -307,7 +307,6 @@ impl JsonReader {
             let mut hash: HashMap<Identifier, ShapeID> = Default::default();
             if let Value::Object(ms) = member {
                 for (obj_key, obj) in ms {
-                    println!("{:?}: {:?}", obj_key, obj);
                     let key = Identifier::from_str(obj_key)?;
                     let value = self.target(Some(obj))?;
                     let _ = hash.insert(key, value);
-- 
2.43.0


From ee5ed5a325fe56e18ee3837e95b91b482992f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 04/50] fix: JSON reader keeps the value of integers above
 i64::MAX instead of wrapping them negative

---
 atelier-json/src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 0b54ece..04bf3b8 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -412,7 +412,8 @@ impl JsonReader {
                 } else if v.is_i64() {
                     Ok(NodeValue::from(v.as_i64().unwrap()))
                 } else if v.is_u64() {
-                    Ok(NodeValue::from(v.as_u64().unwrap() as i64))
+                    // larger than any `i64`; as with any other out-of-range number, keep its value.
+                    Ok(NodeValue::from(v.as_u64().unwrap() as f64))
                 } else {
                     Err(ErrorKind::Deserialization(
                         REPRESENTATION_NAME.to_string(),
-- 
2.43.0


From 627ee47d603a224ad6873b39aebfef0fbb865559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 05/50] fix: hash and order identifiers and namespaces without
 case, as their equality does

---
 atelier-core/src/model/identity.rs | 49 +++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/atelier-core/src/model/identity.rs b/atelier-core/src/model/identity.rs
index ccd0764..1ebcd7a 100644
--- a/atelier-core/src/model/identity.rs
+++ b/atelier-core/src/model/identity.rs
@@ -3,8 +3,9 @@ use crate::syntax::{
     SHAPE_ID_ABSOLUTE_SEPARATOR, SHAPE_ID_MEMBER_SEPARATOR, SHAPE_ID_NAMESPACE_SEPARATOR,
 };
 use regex::Regex;
+use std::cmp::Ordering;
 use std::fmt::{Debug, Display, Formatter};
-use std::hash::Hash;
+use std::hash::{Hash, Hasher};
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -18,8 +19,7 @@ use std::str::FromStr;
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq)]
 pub struct Identifier(String);
 
 ///
@@ -30,9 +30,8 @@ pub struct Identifier(String);
 ///   [Shape ID ABNF](https://awslabs.github.io/smithy/1.0/spec/core/model.html#shape-id),
 ///   of the Smithy 1.0 Specification.
 ///
-#[allow(clippy::derive_hash_xor_eq)]
 #[allow(clippy::upper_case_acronyms)]
-#[derive(Clone, Debug, Eq, PartialOrd, Ord, Hash)]
+#[derive(Clone, Debug, Eq)]
 pub struct NamespaceID(String);
 
 ///
@@ -132,6 +131,26 @@ impl PartialEq for Identifier {
     }
 }
 
+// Hashing and ordering have to agree with the case-insensitive equality above.
+
+impl Hash for Identifier {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
+impl Ord for Identifier {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
+impl PartialOrd for Identifier {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl Identifier {
     /// Create a new instance **without** checking that the provided string is a legal identifier.
     pub fn new_unchecked(s: &str) -> Self {
@@ -178,6 +197,26 @@ impl PartialEq for NamespaceID {
     }
 }
 
+// Hashing and ordering have to agree with the case-insensitive equality above.
+
+impl Hash for NamespaceID {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.0.to_lowercase().hash(state)
+    }
+}
+
+impl Ord for NamespaceID {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.0.to_lowercase().cmp(&other.0.to_lowercase())
+    }
+}
+
+impl PartialOrd for NamespaceID {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl NamespaceID {
     /// Create a new instance **without** checking that the provided string is a legal namespace.
     pub fn new_unchecked(s: &str) -> Self {
-- 
2.43.0


From 82c0f486a1f3434457352d1a8ed08532781c1a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 06/50] fix: has_shape, has_metadata_value, has_member and
 has_identifier answer what their names say

---
 atelier-core/src/model/mod.rs              | 4 ++--
 atelier-core/src/model/shapes/aggregate.rs | 2 +-
 atelier-core/src/model/shapes/service.rs   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index de723e8..3fa2bfa 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -125,7 +125,7 @@ impl Model {
 
     /// Returns `true` if this model's **metadata** collection has a shape with the provided key`, else `false`.
     pub fn has_metadata_value(&self, key: &str) -> bool {
-        !self.metadata.contains_key(key)
+        self.metadata.contains_key(key)
     }
 
     /// Returns the value in this model's **metadata** collection with the provide key.
@@ -189,7 +189,7 @@ impl Model {
 
     /// Returns `true` if this model's **shapes** collection has a shape with the provided `ShapeID`, else `false`.
     pub fn has_shape(&self, shape_id: &ShapeID) -> bool {
-        !self.shapes.contains_key(shape_id)
+        self.shapes.contains_key(shape_id)
     }
 
     /// Returns the shape in this model's **shapes** collection with the provided `ShapeID`.
diff --git a/atelier-core/src/model/shapes/aggregate.rs b/atelier-core/src/model/shapes/aggregate.rs
index e13a341..512a3ef 100644
--- a/atelier-core/src/model/shapes/aggregate.rs
+++ b/atelier-core/src/model/shapes/aggregate.rs
@@ -200,7 +200,7 @@ impl StructureOrUnion {
 
     /// Returns `true` if this structure or union has a member with the given name, else `false`.
     pub fn has_member(&self, member_name: &Identifier) -> bool {
-        !self.members.contains_key(member_name)
+        self.members.contains_key(member_name)
     }
 
     /// Returns the member in the structure or union with the given name, else `None`.
diff --git a/atelier-core/src/model/shapes/service.rs b/atelier-core/src/model/shapes/service.rs
index 9c5827e..1f789e9 100644
--- a/atelier-core/src/model/shapes/service.rs
+++ b/atelier-core/src/model/shapes/service.rs
@@ -171,7 +171,7 @@ impl Resource {
 
     /// Returns `true` if this resource has an identifier with the provided name, else `false`.
     pub fn has_identifier(&self, name: &Identifier) -> bool {
-        !self.identifiers.contains_key(name)
+        self.identifiers.contains_key(name)
     }
 
     /// Returns the identifier's value, which should always be `Value::String`, representing the
-- 
2.43.0


From d9c57d16b835c64b74797d96dadedb7c6ed71882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 07/50] fix: merging two definitions of a shape compares
 members without panicking and keeps the member traits of both

---
 atelier-core/src/model/mod.rs        | 11 ++++++
 atelier-core/src/model/shapes/mod.rs | 52 ++++++++++++++++++++++------
 2 files changed, 53 insertions(+), 10 deletions(-)

diff --git a/atelier-core/src/model/mod.rs b/atelier-core/src/model/mod.rs
index 3fa2bfa..6dc1042 100644
--- a/atelier-core/src/model/mod.rs
+++ b/atelier-core/src/model/mod.rs
@@ -233,6 +233,7 @@ impl Model {
                 (false, false) => {
                     if existing.equal_without_traits(&shape) {
                         copy_traits(existing, &shape)?;
+                        copy_member_traits(existing, &shape)?;
                     } else {
                         error!("Model::add_shape {:?} != {:?}", existing, shape);
                         return Err(ErrorKind::MergeShapeConflict(existing.id().clone()).into());
@@ -309,6 +310,16 @@ fn copy_traits(to_shape: &mut TopLevelShape, from_shape: &TopLevelShape) -> Mode
     Ok(())
 }
 
+#[inline]
+fn copy_member_traits(to_shape: &mut TopLevelShape, from_shape: &TopLevelShape) -> ModelResult<()> {
+    for from_member in from_shape.all_members() {
+        if let Some(to_member) = to_shape.member_mut(from_member.id()) {
+            to_member.append_traits(from_member.traits())?;
+        }
+    }
+    Ok(())
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
diff --git a/atelier-core/src/model/shapes/mod.rs b/atelier-core/src/model/shapes/mod.rs
index 714bea5..031d8ae 100644
--- a/atelier-core/src/model/shapes/mod.rs
+++ b/atelier-core/src/model/shapes/mod.rs
@@ -359,19 +359,19 @@ impl NonTraitEq for TopLevelShape {
                     l.key.equal_without_traits(&r.key) && l.value.equal_without_traits(&r.value)
                 }
                 (ShapeKind::Structure(l), ShapeKind::Structure(r)) => {
-                    l.members.keys().count() == r.members.keys().count()
-                        && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
+                    l.members.len() == r.members.len()
+                        && l.members().all(|member| {
+                            r.member(member.id())
+                                .map(|other| member.equal_without_traits(other))
+                                .unwrap_or(false)
                         })
                 }
                 (ShapeKind::Union(l), ShapeKind::Union(r)) => {
-                    l.members.keys().count() == r.members.keys().count()
-                        && l.members.keys().all(|k| {
-                            l.member(k)
-                                .unwrap()
-                                .equal_without_traits(r.member(k).unwrap())
+                    l.members.len() == r.members.len()
+                        && l.members().all(|member| {
+                            r.member(member.id())
+                                .map(|other| member.equal_without_traits(other))
+                                .unwrap_or(false)
                         })
                 }
                 (ShapeKind::Service(l), ShapeKind::Service(r)) => l == r,
@@ -519,6 +519,38 @@ impl TopLevelShape {
             ShapeKind::Unresolved => None,
         }
     }
+
+    ///
+    /// Return the members of this shape, in no particular order.
+    ///
+    pub(crate) fn all_members(&self) -> Vec<&MemberShape> {
+        match self.body() {
+            ShapeKind::List(v) | ShapeKind::Set(v) => vec![v.member()],
+            ShapeKind::Map(v) => vec![v.key(), v.value()],
+            ShapeKind::Structure(v) | ShapeKind::Union(v) => v.members().collect(),
+            _ => Default::default(),
+        }
+    }
+
+    ///
+    /// Return the member named `member`, if one exists, to be changed.
+    ///
+    pub(crate) fn member_mut(&mut self, member: &Identifier) -> Option<&mut MemberShape> {
+        match self.body_mut() {
+            ShapeKind::List(v) | ShapeKind::Set(v) => {
+                Some(&mut v.member).filter(|m| m.id() == member)
+            }
+            ShapeKind::Map(v) => {
+                if v.key.id() == member {
+                    Some(&mut v.key)
+                } else {
+                    Some(&mut v.value).filter(|m| m.id() == member)
+                }
+            }
+            ShapeKind::Structure(v) | ShapeKind::Union(v) => v.members.get_mut(member),
+            _ => None,
+        }
+    }
 }
 
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 855561ccb82379e46f3196f664e8b3f60a53d38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 08/50] fix: model builder keeps every shape it is given,
 builds sets as sets, resolves names by case, and applies traits to members
 wherever they are defined

---
 atelier-core/src/builder/mod.rs | 216 +++++++++-----------------------
 1 file changed, 61 insertions(+), 155 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 58f9ee1..a3b4c32 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -19,15 +19,15 @@ For more information, see [the Rust Atelier book](https://rust-atelier.dev/using
 use crate::builder::id::ShapeName;
 use crate::error::{Error, ErrorKind};
 use crate::model::shapes::{
-    ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind, StructureOrUnion,
-    TopLevelShape,
+    HasTraits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind,
+    StructureOrUnion, TopLevelShape,
 };
 use crate::model::values::{Value, ValueMap};
 use crate::model::{Identifier, Model, NamespaceID, ShapeID};
 use crate::prelude::{
     defined_prelude_shapes, defined_prelude_traits, prelude_namespace_id, PRELUDE_NAMESPACE,
 };
-use crate::syntax::{MEMBER_KEY, MEMBER_MEMBER, MEMBER_VALUE};
+use crate::syntax::SHAPE_ID_MEMBER_SEPARATOR;
 use crate::Version;
 use std::collections::{HashMap, HashSet};
 use std::convert::TryFrom;
@@ -49,7 +49,8 @@ pub struct ModelBuilder {
     prelude_namespace: NamespaceID,
     smithy_version: Version,
     metadata: ValueMap,
-    shapes: HashMap<ShapeName, TopLevelShapeBuilder>,
+    shapes: Vec<(ShapeName, TopLevelShapeBuilder)>,
+    applied_traits: Vec<(ShapeName, Option<Identifier>, TraitBuilder)>,
 }
 
 #[allow(clippy::large_enum_variant)]
@@ -86,14 +87,36 @@ impl TryFrom<&mut ModelBuilder> for Model {
     fn try_from(builder: &mut ModelBuilder) -> Result<Self, Self::Error> {
         let mut model = Model::new(builder.smithy_version);
         for (k, v) in builder.metadata.iter() {
-            let _ = model.add_metadata(k.clone(), v.clone());
+            let _ = model.add_metadata(k.clone(), v.clone())?;
         }
         let mut unresolved: HashSet<ShapeID> = Default::default();
-        for shape in builder.shapes.values() {
-            let _ = model.add_shape(builder.make_shape(&shape, &mut unresolved)?);
+        for (_, shape) in &builder.shapes {
+            model.add_shape(builder.make_shape(&shape, &mut unresolved)?)?;
+        }
+        for (shape_name, member_name, a_trait) in &builder.applied_traits {
+            let (shape_id, _) = builder.resolve_shape_name(shape_name, false)?;
+            let traits = builder.make_traits(&[a_trait.clone()], &mut unresolved)?;
+            let member = member_name.as_ref().and_then(|member_name| {
+                model
+                    .shape_mut(&shape_id)
+                    .and_then(|shape| shape.member_mut(member_name))
+            });
+            if let Some(member) = member {
+                member.append_traits(&traits)?;
+            } else {
+                let applied_to = match member_name {
+                    Some(member_name) => shape_id.make_member(member_name.clone()),
+                    None => shape_id,
+                };
+                model.add_shape(TopLevelShape::with_traits(
+                    applied_to,
+                    ShapeKind::Unresolved,
+                    traits,
+                ))?;
+            }
         }
         for shape_id in unresolved {
-            let _ = model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved));
+            model.add_shape(TopLevelShape::new(shape_id, ShapeKind::Unresolved))?;
         }
         Ok(model)
     }
@@ -109,6 +132,7 @@ impl ModelBuilder {
             smithy_version,
             metadata: Default::default(),
             shapes: Default::default(),
+            applied_traits: Default::default(),
         }
     }
 
@@ -182,12 +206,17 @@ impl ModelBuilder {
         self.reference(ReferenceBuilder::new(shape))
     }
 
-    /// Applies a trait to the shape named `shape`. IF the shape is not present in the model
-    /// a new reference builder is created and the trait applied to it. This is similar to the
-    /// way the `apply` statement works in the Smithy IDL.
+    /// Applies a trait to the shape, or member, named `shape`. If the shape is not present in the
+    /// model an unresolved shape is created and the trait applied to it. This is similar to the
+    /// way the `apply` statement works in the Smithy IDL; the shape may be defined before or after.
     pub fn apply(&mut self, shape: &str, a_trait: TraitBuilder) -> &mut Self {
+        let (shape, member) = match shape.split_once(SHAPE_ID_MEMBER_SEPARATOR) {
+            Some((shape, member)) => (shape, Some(Identifier::from_str(member).unwrap())),
+            None => (shape, None),
+        };
         let shape_name = ShapeName::from_str(shape).unwrap();
-        self.apply_to(&shape_name, a_trait)
+        self.applied_traits.push((shape_name, member, a_trait));
+        self
     }
 
     /// Create and add a new resource shape to this model using the `ResourceBuilder` instance.
@@ -213,10 +242,7 @@ impl ModelBuilder {
     // --------------------------------------------------------------------------------------------
 
     fn insert(&mut self, id: ShapeName, shape: TopLevelShapeBuilder) -> &mut Self {
-        let previous = self.shapes.insert(id, shape);
-        if previous.is_some() {
-            info!("Interestingly the shape seems to have been added more than once?",);
-        }
+        self.shapes.push((id, shape));
         self
     }
 
@@ -265,9 +291,11 @@ impl ModelBuilder {
             }
             ShapeName::Local(local) => {
                 trace!("Local Identifier: proceeding with resolution...");
-                let references: Vec<&ShapeName> = self
+                // Note: names are case-sensitive here, unlike the equality of identifiers.
+                let local_name = local.to_string();
+                let references: HashSet<&ShapeName> = self
                     .reference_names()
-                    .filter(|shape_name| shape_name.shape_name() == local)
+                    .filter(|shape_name| shape_name.shape_name().to_string() == local_name)
                     .collect();
                 debug!(
                     "Found {} references to check, references => {:#?}",
@@ -279,12 +307,18 @@ impl ModelBuilder {
                         // 1. a `use_statement` has imported a shape with the same name
                         trace!("SUCCESS: a use statement imports this shape explicitly");
                         Ok((
-                            references.first().unwrap().as_qualified().unwrap().clone(),
+                            references
+                                .into_iter()
+                                .next()
+                                .unwrap()
+                                .as_qualified()
+                                .unwrap()
+                                .clone(),
                             false,
                         ))
                     }
                     0 => {
-                        if self.shapes.contains_key(shape_name) {
+                        if self.defines(&local_name) {
                             // 2. a shape is defined in the same namespace as the shape with the same name
                             trace!(
                                 "SUCCESS: shape found in same namespace as shape with same name"
@@ -314,37 +348,12 @@ impl ModelBuilder {
         }
     }
 
-    fn apply_to(&mut self, shape_name: &ShapeName, a_trait: TraitBuilder) -> &mut Self {
-        match shape_name {
-            ShapeName::Qualified(shape_id) => {
-                if let Some(member_name) = shape_id.member_name() {
-                    let parent_shape = ShapeName::from(shape_id.shape_only());
-                    if let Some(shape) = self.shapes.get_mut(&parent_shape) {
-                        apply_to_member(shape, member_name, a_trait);
-                    } else {
-                        panic!("No shape named {} for member {}", parent_shape, member_name);
-                    }
-                } else if let Some(shape) = self.shapes.get_mut(&shape_name) {
-                    apply_to_shape(shape, a_trait);
-                } else {
-                    let mut builder = ReferenceBuilder::from(shape_id.clone());
-                    let _ = builder.apply_trait(a_trait);
-                    let _ = self.reference(builder);
-                }
-                self
-            }
-            ShapeName::Local(local) => {
-                // This is disallowed in the Smithy IDL which requires apply statements to take
-                // qualified names.
-                let (shape_id, new_reference) = self
-                    .resolve_shape_name(&local.clone().into(), false)
-                    .unwrap();
-                if new_reference {
-                    let _ = self.reference(ReferenceBuilder::from(shape_id.clone()));
-                }
-                self.apply_to(&shape_id.into(), a_trait)
-            }
-        }
+    /// Does this model define a shape with this name, in its default namespace?
+    fn defines(&self, local_name: &str) -> bool {
+        self.shapes.iter().any(|(shape_name, _)| match shape_name {
+            ShapeName::Local(id) => id.to_string() == local_name,
+            ShapeName::Qualified(_) => false,
+        })
     }
 
     fn make_shape(
@@ -423,7 +432,7 @@ impl ModelBuilder {
         }
         Ok(TopLevelShape::with_traits(
             shape_id,
-            ShapeKind::List(ListOrSet::from(MemberShape::with_traits(
+            ShapeKind::Set(ListOrSet::from(MemberShape::with_traits(
                 builder.member.member_name.clone(),
                 target_id,
                 self.make_traits(&builder.member.applied_traits, references)?,
@@ -718,109 +727,6 @@ impl ModelBuilder {
     }
 }
 
-// ------------------------------------------------------------------------------------------------
-// Private Functions
-// ------------------------------------------------------------------------------------------------
-
-fn apply_to_member(
-    shape: &mut TopLevelShapeBuilder,
-    member_name: &Identifier,
-    a_trait: TraitBuilder,
-) {
-    let ok = match shape {
-        TopLevelShapeBuilder::List(shape) => {
-            if member_name.to_string() == MEMBER_MEMBER {
-                let _ = shape.member.apply_trait(a_trait);
-                true
-            } else {
-                false
-            }
-        }
-        TopLevelShapeBuilder::Set(shape) => {
-            if member_name.to_string() == MEMBER_MEMBER {
-                let _ = shape.member.apply_trait(a_trait);
-                true
-            } else {
-                false
-            }
-        }
-        TopLevelShapeBuilder::Map(shape) => {
-            if member_name.to_string() == MEMBER_KEY {
-                let _ = shape.key.apply_trait(a_trait);
-                true
-            } else if member_name.to_string() == MEMBER_VALUE {
-                let _ = shape.value.apply_trait(a_trait);
-                true
-            } else {
-                false
-            }
-        }
-        TopLevelShapeBuilder::Structure(shape) => {
-            if let Some(member) = shape
-                .members
-                .iter_mut()
-                .find(|m| &m.member_name == member_name)
-            {
-                let _ = member.apply_trait(a_trait);
-                true
-            } else {
-                false
-            }
-        }
-        TopLevelShapeBuilder::Union(shape) => {
-            if let Some(member) = shape
-                .members
-                .iter_mut()
-                .find(|m| &m.member_name == member_name)
-            {
-                let _ = member.apply_trait(a_trait);
-                true
-            } else {
-                false
-            }
-        }
-        _ => false,
-    };
-    if !ok {
-        panic!("Shape does not have a traitable member {}", member_name);
-    }
-}
-
-fn apply_to_shape(shape: &mut TopLevelShapeBuilder, a_trait: TraitBuilder) {
-    match shape {
-        TopLevelShapeBuilder::SimpleShape(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::List(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Set(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Map(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Structure(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Union(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Service(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Operation(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Resource(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-        TopLevelShapeBuilder::Reference(shape) => {
-            let _ = shape.apply_trait(a_trait);
-        }
-    }
-}
-
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 588dab7d6f4ee44114d9f04ec388a8e1a5f01ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 09/50] fix: Smithy reader keeps what legal documents say
 (apply, rename, map member traits, metadata without a namespace, exponents,
 keys in quotes) and reports malformed ones as errors instead of panicking

---
 atelier-smithy/src/parser/smithy.rs | 173 +++++++++++++++++++---------
 atelier-smithy/src/smithy.pest      |  30 ++---
 2 files changed, 137 insertions(+), 66 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 232a20a..792f378 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -2,19 +2,21 @@
 
 use crate::parser::error::ParserError;
 use crate::REPRESENTATION_NAME;
+use atelier_core::builder::id::ShapeName;
 use atelier_core::builder::shapes::ShapeTraits;
 use atelier_core::builder::{
-    ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ReferenceBuilder,
-    ResourceBuilder, ServiceBuilder, SimpleShapeBuilder, StructureBuilder, TraitBuilder,
+    ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, OperationBuilder, ResourceBuilder,
+    ServiceBuilder, SimpleShapeBuilder, StructureBuilder, TraitBuilder,
 };
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::shapes::Simple;
 use atelier_core::model::values::{Number, Value as NodeValue, ValueMap};
-use atelier_core::model::{Identifier, Model};
+use atelier_core::model::{Identifier, Model, ShapeID};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
     MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
-    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, MEMBER_VERSION,
+    MEMBER_PUT, MEMBER_READ, MEMBER_RENAME, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE,
+    MEMBER_VERSION,
 };
 use atelier_core::Version;
 use pest::error::Error as PestError;
@@ -88,7 +90,13 @@ fn parse_idl(input_pair: Pair<'_, Rule>) -> ModelResult<Model> {
                 parse_shape_section(item, version)
             });
             match builder {
-                None => Ok(Model::default()),
+                None => {
+                    let mut model = Model::new(version);
+                    for (key, value) in meta_data {
+                        let _ = model.add_metadata(key, value)?;
+                    }
+                    Ok(model)
+                }
                 Some(mut builder) => builder.meta_data_from(meta_data).try_into(),
             }
         }
@@ -106,7 +114,7 @@ fn parse_control_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::control_statement,
             parse_node_object_kvp
         );
-        let _ = map.insert(key, value);
+        let _ = map.insert(unquoted_key(key), value);
     }
     Ok(map)
 }
@@ -121,11 +129,19 @@ fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::metadata_statement,
             parse_node_object_kvp
         );
-        let _ = map.insert(key, value);
+        let _ = map.insert(unquoted_key(key), value);
     }
     Ok(map)
 }
 
+/// The name of a control or metadata key, without the quotes it may have been written in.
+fn unquoted_key(key: String) -> String {
+    match key.strip_prefix('"').and_then(|key| key.strip_suffix('"')) {
+        Some(unquoted) => unquoted.to_string(),
+        None => key,
+    }
+}
+
 fn parse_shape_section(
     input_pair: Pair<'_, Rule>,
     version: Version,
@@ -192,6 +208,10 @@ fn parse_shape_statements(
             Rule::shape_statement => {
                 parse_shape_statement(shape_statement, builder)?;
             }
+            Rule::apply_statement => {
+                let (shape_id, a_trait) = parse_apply_statement(shape_statement)?;
+                let _ = builder.apply(&shape_id, a_trait);
+            }
             Rule::EOI => {}
             _ => unexpected!("parse_shape_statements", shape_statement),
         }
@@ -259,10 +279,6 @@ fn parse_shape_statement(
                 apply_traits(&mut shape, &documentation, &traits);
                 let _ = builder.resource(shape);
             }
-            Rule::apply_statement => {
-                let shape = parse_apply_statement(shape_statement)?;
-                let _ = builder.reference(shape);
-            }
             Rule::EOI => {}
             _ => unexpected!("parse_shape_statement", shape_statement),
         }
@@ -303,7 +319,7 @@ fn parse_a_trait(input_pair: Pair<'_, Rule>) -> ModelResult<TraitBuilder> {
     for inner in input_pair.into_inner() {
         match inner.as_rule() {
             Rule::shape_id => {
-                id = Some(inner.as_str().to_string());
+                id = Some(valid_shape_name(inner.as_str())?.to_string());
             }
             Rule::node_value => {
                 node_value = Some(parse_node_value(inner)?);
@@ -428,13 +444,13 @@ fn parse_list_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ListBuilder>
 fn parse_map_statement(input_pair: Pair<'_, Rule>) -> ModelResult<MapBuilder> {
     entry!("parse_map_statement", input_pair);
     let (id, members) = parse_membered_statement(input_pair)?;
-    let mut key: Option<String> = None;
-    let mut value: Option<String> = None;
+    let mut key: Option<MemberBuilder> = None;
+    let mut value: Option<MemberBuilder> = None;
     for member in members {
         if member.name() == &Identifier::new_unchecked(MEMBER_KEY) {
-            key = Some(member.target().to_string())
+            key = Some(member)
         } else if member.name() == &Identifier::new_unchecked(MEMBER_VALUE) {
-            value = Some(member.target().to_string())
+            value = Some(member)
         } else {
             return ParserError::new("parse_map_statement")
                 .unreachable_rule()
@@ -443,7 +459,12 @@ fn parse_map_statement(input_pair: Pair<'_, Rule>) -> ModelResult<MapBuilder> {
         }
     }
     match (key, value) {
-        (Some(k), Some(v)) => Ok(MapBuilder::new(&id, &k, &v)),
+        (Some(k), Some(v)) => {
+            let mut map = MapBuilder::new(&id, &k.target().to_string(), &v.target().to_string());
+            map.key(k);
+            map.value(v);
+            Ok(map)
+        }
         _ => ParserError::unreachable("parse_map_statement").into(),
     }
 }
@@ -526,7 +547,7 @@ fn parse_shape_member_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<MemberBuild
     }
     match (id, shape_id) {
         (Some(id), Some(shape_id)) => {
-            let mut member = MemberBuilder::new(&id, &shape_id);
+            let mut member = MemberBuilder::new(&id, valid_shape_name(&shape_id)?);
             apply_traits(&mut member, &documentation, &traits);
             Ok(member)
         }
@@ -538,17 +559,23 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
     entry!("parse_service_statement", input_pair);
     let (id, object) = parse_id_and_object(input_pair)?;
     if let NodeValue::Object(object) = object {
-        let mut service = ServiceBuilder::new(
-            &id,
-            object.get(MEMBER_VERSION).unwrap().as_string().unwrap(),
-        );
+        let version = match object.get(MEMBER_VERSION) {
+            Some(NodeValue::String(version)) if !version.is_empty() => version,
+            version => {
+                return ParserError::new("parse_service_statement")
+                    .expecting("a non-empty version string")
+                    .debug_context(&version)
+                    .into()
+            }
+        };
+        let mut service = ServiceBuilder::new(&id, version);
         for (key, value) in object {
             match key.as_str() {
                 MEMBER_VERSION => {}
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = service.operation(&value.as_string().unwrap());
+                            let _ = service.operation(shape_name(&value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_service_statement")
@@ -559,7 +586,20 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
                 MEMBER_RESOURCES => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = service.resource(&value.as_string().unwrap());
+                            let _ = service.resource(shape_name(&value)?);
+                        }
+                    } else {
+                        return ParserError::unreachable("parse_service_statement")
+                            .context(&value)
+                            .into();
+                    }
+                }
+                MEMBER_RENAME => {
+                    if let NodeValue::Object(renames) = value {
+                        for (shape_id, local_name) in renames {
+                            let shape_id = ShapeID::from_str(&unquoted_key(shape_id))?;
+                            let local_name = Identifier::from_str(shape_name(&local_name)?)?;
+                            let _ = service.rename(&shape_id.to_string(), &local_name.to_string());
                         }
                     } else {
                         return ParserError::unreachable("parse_service_statement")
@@ -590,15 +630,15 @@ fn parse_operation_statement(input_pair: Pair<'_, Rule>) -> ModelResult<Operatio
         for (key, value) in object {
             match key.as_str() {
                 MEMBER_INPUT => {
-                    let _ = operation.input(&value.as_string().unwrap());
+                    let _ = operation.input(shape_name(&value)?);
                 }
                 MEMBER_OUTPUT => {
-                    let _ = operation.output(&value.as_string().unwrap());
+                    let _ = operation.output(shape_name(&value)?);
                 }
                 MEMBER_ERRORS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = operation.error(&value.as_string().unwrap());
+                            let _ = operation.error(shape_name(&value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_operation_statement")
@@ -631,7 +671,8 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_IDENTIFIERS => {
                     if let NodeValue::Object(identifiers) = value {
                         for (id, target) in identifiers {
-                            let _ = resource.identifier(&id, &target.as_string().unwrap());
+                            let id = Identifier::from_str(&unquoted_key(id))?.to_string();
+                            let _ = resource.identifier(&id, shape_name(&target)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -640,27 +681,27 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                     }
                 }
                 MEMBER_CREATE => {
-                    let _ = resource.create(&value.as_string().unwrap());
+                    let _ = resource.create(shape_name(&value)?);
                 }
                 MEMBER_PUT => {
-                    let _ = resource.put(&value.as_string().unwrap());
+                    let _ = resource.put(shape_name(&value)?);
                 }
                 MEMBER_READ => {
-                    let _ = resource.read(&value.as_string().unwrap());
+                    let _ = resource.read(shape_name(&value)?);
                 }
                 MEMBER_UPDATE => {
-                    let _ = resource.update(&value.as_string().unwrap());
+                    let _ = resource.update(shape_name(&value)?);
                 }
                 MEMBER_DELETE => {
-                    let _ = resource.delete(&value.as_string().unwrap());
+                    let _ = resource.delete(shape_name(&value)?);
                 }
                 MEMBER_LIST => {
-                    let _ = resource.list(&value.as_string().unwrap());
+                    let _ = resource.list(shape_name(&value)?);
                 }
                 MEMBER_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.operation(&value.as_string().unwrap());
+                            let _ = resource.operation(shape_name(&value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -671,7 +712,7 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_COLLECTION_OPERATIONS => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.collection_operation(&value.as_string().unwrap());
+                            let _ = resource.collection_operation(shape_name(&value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -682,7 +723,7 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
                 MEMBER_RESOURCES => {
                     if let NodeValue::Array(values) = value {
                         for value in values {
-                            let _ = resource.resource(&value.as_string().unwrap());
+                            let _ = resource.resource(shape_name(&value)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -714,7 +755,14 @@ fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeV
             Rule::identifier => {
                 id = Some(inner.as_str().to_string());
             }
-            Rule::node_object => node_value = Some(parse_node_object(inner)?),
+            Rule::node_object => {
+                let mut object = ValueMap::new();
+                for inner in inner.into_inner() {
+                    let (key, value) = parse_node_object_kvp(inner)?;
+                    let _ = object.insert(unquoted_key(key), value);
+                }
+                node_value = Some(NodeValue::Object(object));
+            }
             _ => unexpected!("parse_id_and_object", inner),
         }
     }
@@ -724,27 +772,43 @@ fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeV
     }
 }
 
-fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ReferenceBuilder> {
+/// The text of a value, where that is a shape name.
+fn shape_name(value: &NodeValue) -> ModelResult<&str> {
+    match value {
+        NodeValue::String(name) => valid_shape_name(name),
+        _ => ParserError::new("shape_name")
+            .expecting("a shape name")
+            .debug_context(value)
+            .into(),
+    }
+}
+
+/// The same text if it names a shape, members are not shapes.
+fn valid_shape_name(name: &str) -> ModelResult<&str> {
+    match ShapeName::from_str(name)? {
+        ShapeName::Qualified(shape_id) if shape_id.is_member() => {
+            Err(ErrorKind::ShapeIDExpected(shape_id).into())
+        }
+        _ => Ok(name),
+    }
+}
+
+fn parse_apply_statement(input_pair: Pair<'_, Rule>) -> ModelResult<(String, TraitBuilder)> {
     entry!("parse_apply_statement", input_pair);
     let mut id: Option<String> = None;
     let mut a_trait: Option<TraitBuilder> = None;
     for inner in input_pair.into_inner() {
         match inner.as_rule() {
-            Rule::identifier => {
+            Rule::shape_id => {
                 id = Some(inner.as_str().to_string());
             }
             Rule::a_trait => a_trait = Some(parse_a_trait(inner)?),
             _ => unexpected!("parse_apply_statement", inner),
         }
     }
-    if let Some(id) = id {
-        let mut reference = ReferenceBuilder::new(&id);
-        if let Some(a_trait) = a_trait {
-            let _ = reference.apply_trait(a_trait);
-        }
-        Ok(reference)
-    } else {
-        ParserError::unreachable("parse_apply_statement").into()
+    match (id, a_trait) {
+        (Some(id), Some(a_trait)) => Ok((id, a_trait)),
+        _ => ParserError::unreachable("parse_apply_statement").into(),
     }
 }
 
@@ -755,10 +819,15 @@ fn parse_node_value(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
         Rule::node_array => parse_node_array(inner)?,
         Rule::node_object => parse_node_object(inner)?,
         Rule::number => {
-            if inner.as_str().contains('.') {
-                NodeValue::Number(Number::Float(
-                    inner.as_str().parse().chain_err(|| "number format error")?,
-                ))
+            if inner.as_str().contains(|c| matches!(c, '.' | 'e' | 'E')) {
+                let float: f64 = inner.as_str().parse().chain_err(|| "number format error")?;
+                if !float.is_finite() {
+                    return ParserError::new("parse_node_value")
+                        .expecting("a number that is not too large")
+                        .debug_context(&inner)
+                        .into();
+                }
+                NodeValue::Number(Number::Float(float))
             } else {
                 NodeValue::Number(Number::Integer(
                     inner.as_str().parse().chain_err(|| "number format error")?,
diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index 2c844c6..a243bbb 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -7,17 +7,14 @@ ws =
 sp =
     _{ " " | "\t" }
 
-br =
-    _{ ws ~ EOI? }
-
 line_comment =
-    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFF}')* ~ NEWLINE }
+    _{ "//" ~ ("\t" | '\u{20}'..'\u{10FFFF}')* ~ (NEWLINE | &EOI) }
 
 documentation_comment =
     _{ ws ~ "///" ~ documentation_text ~ NEWLINE }
 
 documentation_text =
-    { ("\t" | '\u{20}'..'\u{10FFF}')* }
+    { ("\t" | '\u{20}'..'\u{10FFFF}')* }
 
 control_section =
     { control_statement* }
@@ -41,8 +38,13 @@ namespace =
     @{ identifier ~ ("." ~ identifier)* }
 
 identifier =
-    @{ ( ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* )
-    |  ( "_" ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
+    @{ "_"* ~ ASCII_ALPHA ~ identifier_char* }
+
+identifier_char =
+    _{ ASCII_ALPHA | ASCII_DIGIT | "_" }
+
+shape_id_char =
+    _{ identifier_char | "." | "#" | "$" }
 
 shape_id_member =
     { "$" ~ identifier }
@@ -112,17 +114,17 @@ zero =
 node_keywords =
     _{ kw_true | kw_false | kw_null }
 
-kw_true = { "true" }
+kw_true = { "true" ~ !shape_id_char }
 
-kw_false = { "false" }
+kw_false = { "false" ~ !shape_id_char }
 
-kw_null = { "null" }
+kw_null = { "null" ~ !shape_id_char }
 
 quoted_text =
     { DQUOTE ~ quoted_chars ~ DQUOTE }
 
 quoted_chars =
-    @{ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}' | escaped_char | preserved_double)* }
+    @{ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}' | escaped_char | preserved_double)* }
 
 escaped_char =
     {escape ~ (escape | "'" | DQUOTE | "b" | "f" | "n" | "r" | "t" | "/" | unicode_escape) }
@@ -131,19 +133,19 @@ unicode_escape =
     { "u" ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT ~ ASCII_HEX_DIGIT }
 
 preserved_double =
-    { escape ~ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}') }
+    { escape ~ ('\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}') }
 
 escape =
     { "\\" }
 
 text_block =
-    { DQUOTE{3} ~ br ~ block_quoted_chars ~ DQUOTE{3} }
+    { DQUOTE{3} ~ (sp | NEWLINE)* ~ block_quoted_chars ~ DQUOTE{3} }
 
 // three_dquotes =
 //     _{ DQUOTE ~ DQUOTE ~ DQUOTE }
 
 block_quoted_chars =
-    @{ ( !("\"\"\"") ~ DQUOTE | sp | NEWLINE | '\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFF}' | escaped_char | preserved_double)* }
+    @{ ( !("\"\"\"") ~ DQUOTE | sp | NEWLINE | '\u{20}'..'\u{21}' | '\u{23}'..'\u{5B}' | '\u{5D}'..'\u{10FFFF}' | escaped_char | preserved_double)* }
 
 DQUOTE =
     _{ "\"" }
-- 
2.43.0


From 0d66bd856160f189e6ada2837e86ba9fe222e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 10/50] fix: Smithy writer writes text that reads back as the
 model: resolvable names, member traits, renames, metadata objects, nulls,
 legal escapes, applied traits

---
 atelier-smithy/src/writer.rs | 192 +++++++++++++++++++++++++----------
 1 file changed, 139 insertions(+), 53 deletions(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index ba59844..47fd6c4 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -3,14 +3,15 @@ use std::io::Write;
 use atelier_core::error::Result;
 use atelier_core::io::ModelWriter;
 use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind};
-use atelier_core::model::values::Value;
-use atelier_core::model::{HasIdentity, Model, NamespaceID, ShapeID};
+use atelier_core::model::values::{Number, Value};
+use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
+use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits};
 use atelier_core::syntax::{
     MEMBER_COLLECTION_OPERATIONS, MEMBER_CREATE, MEMBER_DELETE, MEMBER_ERRORS, MEMBER_IDENTIFIERS,
-    MEMBER_INPUT, MEMBER_KEY, MEMBER_LIST, MEMBER_MEMBER, MEMBER_OPERATIONS, MEMBER_OUTPUT,
-    MEMBER_PUT, MEMBER_READ, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VALUE, MEMBER_VERSION,
-    SHAPE_APPLY, SHAPE_LIST, SHAPE_MAP, SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET,
-    SHAPE_STRUCTURE, SHAPE_UNION,
+    MEMBER_INPUT, MEMBER_LIST, MEMBER_OPERATIONS, MEMBER_OUTPUT, MEMBER_PUT, MEMBER_READ,
+    MEMBER_RENAME, MEMBER_RESOURCES, MEMBER_UPDATE, MEMBER_VERSION, SHAPE_APPLY, SHAPE_LIST,
+    SHAPE_MAP, SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET, SHAPE_STRUCTURE,
+    SHAPE_UNION,
 };
 
 use crate::syntax::{
@@ -76,8 +77,8 @@ impl SmithyWriter {
     fn write_metadata_section(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
         if model.has_metadata() {
             for (key, value) in model.metadata() {
-                write!(w, "{} \"{}\" = ", STATEMENT_METADATA, key)?;
-                self.write_value(w, value, true)?;
+                write!(w, "{} {} = ", STATEMENT_METADATA, quoted(key))?;
+                self.write_value(w, value, false)?;
                 writeln!(w)?;
             }
             writeln!(w)?;
@@ -99,7 +100,7 @@ impl SmithyWriter {
     fn write_use_section(&mut self, w: &mut impl Write, model: &Model) -> Result<()> {
         for use_shape in model
             .shapes()
-            .filter(|shape| shape.is_unresolved() && !shape.has_traits())
+            .filter(|shape| self.is_used(model, shape.id()))
         {
             writeln!(w, "{} {}", STATEMENT_USE, use_shape.id())?;
         }
@@ -111,11 +112,11 @@ impl SmithyWriter {
         let from_namespace = self.namespace.clone();
         for shape in model
             .shapes()
-            .filter(|shape| shape.id().namespace() == &from_namespace)
+            .filter(|shape| shape.id().namespace() == &from_namespace || shape.is_unresolved())
         {
             if !shape.body().is_unresolved() {
                 for (id, value) in shape.traits() {
-                    self.write_trait(w, id, value, "")?;
+                    self.write_trait(w, model, id, value, "")?;
                 }
             }
             match shape.body() {
@@ -124,38 +125,33 @@ impl SmithyWriter {
                 }
                 ShapeKind::List(list) => {
                     writeln!(w, "{} {} {{", SHAPE_LIST, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_MEMBER, list.member().target())?;
+                    self.write_member(w, model, list.member(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Set(set) => {
                     writeln!(w, "{} {} {{", SHAPE_SET, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_MEMBER, set.member().target())?;
+                    self.write_member(w, model, set.member(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Map(map) => {
                     writeln!(w, "{} {} {{", SHAPE_MAP, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {}", MEMBER_KEY, map.key().target().shape_name())?;
-                    writeln!(
-                        w,
-                        "    {}: {}",
-                        MEMBER_VALUE,
-                        map.value().target().shape_name()
-                    )?;
+                    self.write_member(w, model, map.key(), "    ")?;
+                    self.write_member(w, model, map.value(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Structure(structured) => {
                     writeln!(w, "{} {} {{", SHAPE_STRUCTURE, shape.id().shape_name())?;
-                    self.write_members(w, structured.members(), "    ")?;
+                    self.write_members(w, model, structured.members(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Union(structured) => {
                     writeln!(w, "{} {} {{", SHAPE_UNION, shape.id().shape_name())?;
-                    self.write_members(w, structured.members(), "    ")?;
+                    self.write_members(w, model, structured.members(), "    ")?;
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Service(service) => {
                     writeln!(w, "{} {} {{", SHAPE_SERVICE, shape.id().shape_name())?;
-                    writeln!(w, "    {}: {:?}", MEMBER_VERSION, service.version())?;
+                    writeln!(w, "    {}: {}", MEMBER_VERSION, quoted(service.version()))?;
                     if service.has_operations() {
                         writeln!(
                             w,
@@ -163,7 +159,7 @@ impl SmithyWriter {
                             MEMBER_OPERATIONS,
                             service
                                 .operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.name(model, s, false))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -175,20 +171,32 @@ impl SmithyWriter {
                             MEMBER_RESOURCES,
                             service
                                 .resources()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.name(model, s, false))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
                     }
+                    if service.has_renames() {
+                        writeln!(w, "    {}: {{", MEMBER_RENAME)?;
+                        for (id, local_name) in service.renames() {
+                            writeln!(
+                                w,
+                                "        {}: {}",
+                                quoted(&id.to_string()),
+                                quoted(&local_name.to_string())
+                            )?;
+                        }
+                        writeln!(w, "    }}")?;
+                    }
                     writeln!(w, "}}")?;
                 }
                 ShapeKind::Operation(operation) => {
                     writeln!(w, "{} {} {{", SHAPE_OPERATION, shape.id().shape_name())?;
                     if let Some(id) = operation.input() {
-                        writeln!(w, "    {}: {}", MEMBER_INPUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_INPUT, self.name(model, id, false))?;
                     }
                     if let Some(id) = operation.output() {
-                        writeln!(w, "    {}: {}", MEMBER_OUTPUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_OUTPUT, self.name(model, id, false))?;
                     }
                     if operation.has_errors() {
                         writeln!(
@@ -197,7 +205,7 @@ impl SmithyWriter {
                             MEMBER_ERRORS,
                             operation
                                 .errors()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.name(model, s, false))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -209,27 +217,27 @@ impl SmithyWriter {
                     if resource.has_identifiers() {
                         writeln!(w, "    {}: {{", MEMBER_IDENTIFIERS)?;
                         for (id, target) in resource.identifiers() {
-                            writeln!(w, "        {}: {}", id, target.shape_name())?;
+                            writeln!(w, "        {}: {}", id, self.name(model, target, false))?;
                         }
                         writeln!(w, "    }}")?;
                     }
                     if let Some(id) = resource.create() {
-                        writeln!(w, "    {}: {}", MEMBER_CREATE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_CREATE, self.name(model, id, false))?;
                     }
                     if let Some(id) = resource.put() {
-                        writeln!(w, "    {}: {}", MEMBER_PUT, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_PUT, self.name(model, id, false))?;
                     }
                     if let Some(id) = resource.read() {
-                        writeln!(w, "    {}: {}", MEMBER_READ, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_READ, self.name(model, id, false))?;
                     }
                     if let Some(id) = resource.update() {
-                        writeln!(w, "    {}: {}", MEMBER_UPDATE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_UPDATE, self.name(model, id, false))?;
                     }
                     if let Some(id) = resource.delete() {
-                        writeln!(w, "    {}: {}", MEMBER_DELETE, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_DELETE, self.name(model, id, false))?;
                     }
                     if let Some(id) = resource.list() {
-                        writeln!(w, "    {}: {}", MEMBER_LIST, id.shape_name())?;
+                        writeln!(w, "    {}: {}", MEMBER_LIST, self.name(model, id, false))?;
                     }
                     if resource.has_operations() {
                         writeln!(
@@ -238,7 +246,7 @@ impl SmithyWriter {
                             MEMBER_OPERATIONS,
                             resource
                                 .operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.name(model, s, false))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -250,7 +258,7 @@ impl SmithyWriter {
                             MEMBER_COLLECTION_OPERATIONS,
                             resource
                                 .collection_operations()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.name(model, s, false))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -262,7 +270,7 @@ impl SmithyWriter {
                             MEMBER_RESOURCES,
                             resource
                                 .resources()
-                                .map(|s| s.shape_name().to_string())
+                                .map(|s| self.name(model, s, false))
                                 .collect::<Vec<String>>()
                                 .join(", ")
                         )?;
@@ -273,7 +281,7 @@ impl SmithyWriter {
                     if shape.has_traits() {
                         for (id, value) in shape.traits() {
                             write!(w, "{} {} ", SHAPE_APPLY, shape.id())?;
-                            self.write_trait(w, id, value, "")?;
+                            self.write_trait(w, model, id, value, "")?;
                         }
                     }
                 }
@@ -283,20 +291,64 @@ impl SmithyWriter {
         Ok(())
     }
 
+    /// Is this a shape, in another namespace, that can be introduced by a `use` statement?
+    fn is_used(&self, model: &Model, id: &ShapeID) -> bool {
+        let name = id.shape_name();
+        !id.is_member()
+            && id.namespace() != &self.namespace
+            && id.namespace() != &self.prelude_namespace
+            && model
+                .shape(id)
+                .map(|shape| shape.is_unresolved() && !shape.has_traits())
+                .unwrap_or_default()
+            && !is_prelude_name(name)
+            && model
+                .shapes()
+                .filter(|other| other.id().shape_name() == name)
+                .all(|other| other.id() == id)
+    }
+
+    /// The shortest name that will resolve to this identifier when read from this namespace.
+    fn name(&self, model: &Model, id: &ShapeID, is_trait: bool) -> String {
+        let local_id = self.namespace.make_shape(id.shape_name().clone());
+        let defined_here = model
+            .shape(&local_id)
+            .map(|shape| !shape.is_unresolved())
+            .unwrap_or_default();
+        let imported = model.shapes().any(|shape| {
+            shape.id().shape_name() == id.shape_name() && self.is_used(model, shape.id())
+        });
+        let short_name = id.shape_name().to_string();
+        let resolves = if imported || id.is_member() {
+            false
+        } else if id.namespace() == &self.namespace {
+            defined_here || !is_prelude_name(id.shape_name())
+        } else if id.namespace() == &self.prelude_namespace {
+            !defined_here
+                && if is_trait {
+                    defined_prelude_traits().contains(&*short_name)
+                } else {
+                    defined_prelude_shapes().contains(&*short_name)
+                }
+        } else {
+            false
+        };
+        if resolves {
+            short_name
+        } else {
+            id.to_string()
+        }
+    }
+
     fn write_trait(
         &mut self,
         w: &mut impl Write,
+        model: &Model,
         id: &ShapeID,
         value: &Option<Value>,
         prefix: &str,
     ) -> Result<()> {
-        let trait_namespace = id.namespace();
-        let id = if *trait_namespace == self.namespace || *trait_namespace == self.prelude_namespace
-        {
-            id.shape_name().to_string()
-        } else {
-            id.to_string()
-        };
+        let id = self.name(model, id, true);
         write!(w, "{}{}{}", prefix, TRAIT_PREFIX, id)?;
         match value {
             None => writeln!(w)?,
@@ -328,7 +380,11 @@ impl SmithyWriter {
                 }
                 let last = if vs.is_empty() { 0 } else { vs.len() - 1 };
                 for (i, (k, v)) in vs.iter().enumerate() {
-                    write!(w, "{}: ", k)?;
+                    if Identifier::is_valid(k) {
+                        write!(w, "{}: ", k)?;
+                    } else {
+                        write!(w, "{}: ", quoted(k))?;
+                    }
                     self.write_value(w, v, false)?;
                     if i < last {
                         write!(w, ", ")?;
@@ -338,10 +394,11 @@ impl SmithyWriter {
                     write!(w, "}}")?;
                 }
             }
-            Value::Number(v) => write!(w, "{}", v)?,
+            Value::Number(Number::Integer(v)) => write!(w, "{}", v)?,
+            Value::Number(Number::Float(v)) => write!(w, "{:?}", v)?,
             Value::Boolean(v) => write!(w, "{}", v)?,
-            Value::String(v) => write!(w, "{:?}", v)?,
-            Value::None => {}
+            Value::String(v) => write!(w, "{}", quoted(v))?,
+            Value::None => write!(w, "null")?,
         }
         Ok(())
     }
@@ -349,11 +406,12 @@ impl SmithyWriter {
     fn write_members<'a>(
         &'a mut self,
         w: &mut impl Write,
+        model: &Model,
         members: impl Iterator<Item = &'a MemberShape>,
         prefix: &str,
     ) -> Result<()> {
         for member in members {
-            self.write_member(w, member, prefix)?;
+            self.write_member(w, model, member, prefix)?;
         }
         Ok(())
     }
@@ -361,19 +419,47 @@ impl SmithyWriter {
     fn write_member(
         &mut self,
         w: &mut impl Write,
+        model: &Model,
         member: &MemberShape,
         prefix: &str,
     ) -> Result<()> {
         for (id, value) in member.traits() {
-            self.write_trait(w, id, value, prefix)?;
+            self.write_trait(w, model, id, value, prefix)?;
         }
         writeln!(
             w,
             "{}{}: {}",
             prefix,
             member.id(),
-            member.target().shape_name()
+            self.name(model, member.target(), false)
         )?;
         Ok(())
     }
 }
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+fn is_prelude_name(name: &Identifier) -> bool {
+    let name = name.to_string();
+    defined_prelude_shapes().contains(&*name) || defined_prelude_traits().contains(&*name)
+}
+
+/// A string as quoted text, using only the escapes that the Smithy IDL has.
+fn quoted(text: &str) -> String {
+    let mut quoted = String::from("\"");
+    for c in text.chars() {
+        match c {
+            '"' => quoted.push_str("\\\""),
+            '\\' => quoted.push_str("\\\\"),
+            '\n' => quoted.push_str("\\n"),
+            '\r' => quoted.push_str("\\r"),
+            '\t' => quoted.push_str("\\t"),
+            c if c < ' ' => quoted.push_str(&format!("\\u{:04x}", c as u32)),
+            c => quoted.push(c),
+        }
+    }
+    quoted.push('"');
+    quoted
+}
-- 
2.43.0


From 8e80f2f3aa9edeb3e8e853a0bb1ba33b15a3b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 11/50] fix: Smithy reader refuses values nested too deep
 instead of overflowing the stack

---
 atelier-smithy/src/parser/smithy.rs | 48 +++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 792f378..c52ed38 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -35,6 +35,8 @@ use std::str::FromStr;
 #[grammar = "smithy.pest"]
 struct SmithyParser;
 
+const MAX_NESTING: usize = 128;
+
 // ------------------------------------------------------------------------------------------------
 // Public Functions
 // ------------------------------------------------------------------------------------------------
@@ -43,6 +45,7 @@ struct SmithyParser;
 /// Parse a Smithy model from the Smithy IDL representation.
 ///
 pub fn parse_model(input: &str) -> ModelResult<Model> {
+    check_nesting(input)?;
     let mut parsed = SmithyParser::parse(Rule::idl, input).map_err(from_pest_error)?;
     let top_node = parsed.next().unwrap();
     parse_idl(top_node)
@@ -921,6 +924,51 @@ fn parse_node_object_kvp(input_pair: Pair<'_, Rule>) -> ModelResult<(String, Nod
     }
 }
 
+/// The parser is recursive, so brackets nested without limit would overflow the stack.
+fn check_nesting(input: &str) -> ModelResult<()> {
+    let mut depth: usize = 0;
+    let mut rest = input;
+    while let Some(c) = rest.chars().next() {
+        let length = if rest.starts_with("//") {
+            rest.find(|c| c == '\n' || c == '\r').unwrap_or(rest.len())
+        } else if rest.starts_with("\"\"\"") {
+            quoted_length(rest, "\"\"\"")
+        } else if c == '"' {
+            quoted_length(rest, "\"")
+        } else {
+            match c {
+                '[' | '{' | '(' => depth += 1,
+                ']' | '}' | ')' => depth = depth.saturating_sub(1),
+                _ => {}
+            }
+            c.len_utf8()
+        };
+        if depth > MAX_NESTING {
+            return Err(ErrorKind::Deserialization(
+                REPRESENTATION_NAME.to_string(),
+                format!("values are nested more than {} levels deep", MAX_NESTING),
+                None,
+            )
+            .into());
+        }
+        rest = &rest[length..];
+    }
+    Ok(())
+}
+
+fn quoted_length(input: &str, quote: &str) -> usize {
+    let mut length = quote.len();
+    while length < input.len() && !input[length..].starts_with(quote) {
+        let mut chars = input[length..].chars();
+        if chars.next() == Some('\\') {
+            length += 1 + chars.next().map(char::len_utf8).unwrap_or_default();
+        } else {
+            length = input.len() - chars.as_str().len();
+        }
+    }
+    std::cmp::min(length + quote.len(), input.len())
+}
+
 fn from_pest_error(e: PestError<Rule>) -> Error {
     Error::with_chain(
         e,
-- 
2.43.0


From 2a9667e9c74d07b2dba66778cd8bbd5d97041e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 12/50] fix: documentation writer does not panic on names that
 start with an underscore or documentation that is not a string

---
 atelier-describe/src/document/writer.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 4831a20..487d17c 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -278,8 +278,8 @@ fn describe_traits(shape: &impl HasTraits, doc: &mut Document) {
 
 fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_DOCUMENTATION, None);
-    if let Some(Some(doc_value)) = shape.trait_named(&trait_id) {
-        let _ = doc.add_paragraph(Paragraph::plain_str(doc_value.as_string().unwrap()));
+    if let Some(Some(Value::String(doc_value))) = shape.trait_named(&trait_id) {
+        let _ = doc.add_paragraph(Paragraph::plain_str(doc_value));
     }
 
     let trait_id = ShapeID::new_unchecked(PRELUDE_NAMESPACE, TRAIT_EXTERNALDOCUMENTATION, None);
@@ -304,12 +304,9 @@ fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
 
 fn shape_id_to_label(source: &ShapeID) -> Label {
     if let Some(member) = source.member_name() {
-        Label::safe_from(
-            &format!("{}_{}", source.shape_name(), member),
-            Some("member"),
-        )
+        Label::safe_from(&format!("member:{}_{}", source.shape_name(), member), None)
     } else {
-        Label::safe_from(&format!("{}", source.shape_name()), Some("shape"))
+        Label::safe_from(&format!("shape:{}", source.shape_name()), None)
     }
 }
 
-- 
2.43.0


From bb8517c1da28b72cd4bb288aff851a63e0ce9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 13/50] fix: GraphML writer escapes service versions and
 numbers any number of edges

---
 atelier-describe/src/graphml/writer.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/atelier-describe/src/graphml/writer.rs b/atelier-describe/src/graphml/writer.rs
index 7e80a28..20075cd 100644
--- a/atelier-describe/src/graphml/writer.rs
+++ b/atelier-describe/src/graphml/writer.rs
@@ -140,7 +140,7 @@ pub struct GraphMLWriter {}
 // ------------------------------------------------------------------------------------------------
 
 struct VisitorState<'a, W: Write> {
-    edge_count: u16,
+    edge_count: u64,
     writer: &'a mut W,
 }
 #[allow(clippy::upper_case_acronyms)]
@@ -355,7 +355,7 @@ impl<'a, W: Write> ModelVisitor for GraphMLVisitor<'a, W> {
             writeln!(
                 state.writer,
                 r#"            <data key="version">{}</data>"#,
-                value.version()
+                escape(value.version())
             )?;
             writeln!(state.writer, r#"        </node>"#)?;
         }
@@ -464,6 +464,22 @@ impl<'a, W: Write> GraphMLVisitor<'a, W> {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+fn escape(text: &str) -> String {
+    text.chars()
+        .map(|c| match c {
+            '&' => "&amp;".to_string(),
+            '<' => "&lt;".to_string(),
+            '>' => "&gt;".to_string(),
+            // characters that XML cannot hold
+            '\t' | '\n' => c.to_string(),
+            '\r' => "&#13;".to_string(),
+            c if c.is_control() && c < '\u{20}' => "\u{fffd}".to_string(),
+            '\u{fffe}' | '\u{ffff}' => "\u{fffd}".to_string(),
+            c => c.to_string(),
+        })
+        .collect()
+}
+
 // ------------------------------------------------------------------------------------------------
 // Modules
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From f3b0e9a5d3c34865c5a67ff56fb80dc875b3ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 14/50] fix: PlantUML writer puts shapes in the package of
 their namespace, names resource operations, and does not panic on undefined
 operations

---
 atelier-describe/src/plant_uml/writer.rs | 51 +++++++++++++-----------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/atelier-describe/src/plant_uml/writer.rs b/atelier-describe/src/plant_uml/writer.rs
index 9a5a662..9ade3ce 100644
--- a/atelier-describe/src/plant_uml/writer.rs
+++ b/atelier-describe/src/plant_uml/writer.rs
@@ -167,7 +167,10 @@ impl ModelWriter for PlantUmlWriter {
         for namespace in namespaces {
             writeln!(w, "package {} {{", namespace)?;
             writeln!(w)?;
-            for element in model.shapes() {
+            for element in model
+                .shapes()
+                .filter(|element| element.id().namespace() == namespace)
+            {
                 match element.body() {
                     ShapeKind::Simple(_) => self.write_data_type(w, element, model)?,
                     ShapeKind::Service(_) => self.write_service(w, element, model)?,
@@ -236,7 +239,7 @@ impl PlantUmlWriter {
             "        {}: {} = \"{}\"",
             MEMBER_VERSION,
             SHAPE_STRING,
-            body.version()
+            one_line(body.version())
         )?;
         for operation in body.operations() {
             self.write_operation(w, operation, model, None)?;
@@ -266,19 +269,19 @@ impl PlantUmlWriter {
             self.write_operation(w, id, model, Some("create"))?;
         }
         if let Some(id) = body.put() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("put"))?;
         }
         if let Some(id) = body.read() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("read"))?;
         }
         if let Some(id) = body.update() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("update"))?;
         }
         if let Some(id) = body.delete() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("delete"))?;
         }
         if let Some(id) = body.list() {
-            self.write_operation(w, id, model, Some("create"))?;
+            self.write_operation(w, id, model, Some("list"))?;
         }
         if body.has_operations() {
             writeln!(w, "        ..{}..", MEMBER_OPERATIONS)?;
@@ -340,7 +343,7 @@ impl PlantUmlWriter {
         writeln!(w, "    class {} <<dataType>> {{", data_type.id())?;
         let notes = self.write_class_traits(w, data_type, model)?;
         writeln!(w, "    }}")?;
-        writeln!(w, "    {}", notes.join("\n"))?;
+        self.write_class_notes(w, data_type.id(), notes)?;
         if self.expand_smithy_api {
             let simple = data_type.body().as_simple().unwrap();
             writeln!(
@@ -362,28 +365,24 @@ impl PlantUmlWriter {
         model: &Model,
         other_name: Option<&str>,
     ) -> atelier_core::error::Result<()> {
-        let operation = model.shape(oper_id).unwrap();
-        let name = operation.id();
-        let operation = operation.body().as_operation().unwrap();
+        // the operation may be defined nowhere, or not be an operation
+        let operation = model
+            .shape(oper_id)
+            .and_then(|shape| shape.body().as_operation());
         writeln!(
             w,
             "        {}(in: {}){}",
             match other_name {
-                None => name.to_string(),
+                None => oper_id.to_string(),
                 Some(name) => name.to_string(),
             },
-            if operation.has_input() {
-                self.type_string(&operation.input().as_ref().unwrap(), model)
-            } else {
-                String::new()
+            match operation.and_then(|operation| operation.input().as_ref()) {
+                Some(input) => self.type_string(input, model),
+                None => String::new(),
             },
-            if operation.has_output() {
-                format!(
-                    ": {}",
-                    self.type_string(&operation.output().as_ref().unwrap(), model)
-                )
-            } else {
-                String::new()
+            match operation.and_then(|operation| operation.output().as_ref()) {
+                Some(output) => format!(": {}", self.type_string(output, model)),
+                None => String::new(),
             },
         )?;
         Ok(())
@@ -407,7 +406,7 @@ impl PlantUmlWriter {
             } else {
                 traits.push(match value {
                     None | Some(Value::None) => format!("    @{}", id),
-                    Some(Value::String(v)) => format!("    @{} = \"{}\"", id, v),
+                    Some(Value::String(v)) => format!("    @{} = \"{}\"", id, one_line(v)),
                     Some(Value::Number(v)) => format!("    @{} = {}", id, v),
                     Some(Value::Boolean(v)) => format!("    @{} = {}", id, v),
                     Some(Value::Array(_)) => format!("    @{} = [ .. ]", id),
@@ -459,3 +458,7 @@ impl PlantUmlWriter {
         }
     }
 }
+
+fn one_line(text: &str) -> String {
+    text.replace('\r', "\\r").replace('\n', "\\n")
+}
-- 
2.43.0


From cd9045798c17170c4815212b31e58427eb84f777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 15/50] fix: JSON reader refuses a service with an empty
 version instead of panicking

---
 atelier-json/src/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 04bf3b8..ab49535 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -176,6 +176,9 @@ impl JsonReader {
                 } else {
                     return Err(ErrorKind::InvalidVersionNumber(None).into());
                 };
+                if version.is_empty() {
+                    return Err(ErrorKind::InvalidVersionNumber(None).into());
+                }
                 let mut service = Service::new(&version);
                 service.append_operations(&self.target_list(outer.get(MEMBER_OPERATIONS))?);
                 service.append_resources(&self.target_list(outer.get(MEMBER_RESOURCES))?);
-- 
2.43.0


From 666e0f445e4db0ca403db968f6658ef78b44733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 16/50] fix: documentation writer reports every error of the
 sink it writes to

---
 atelier-describe/src/document/writer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 487d17c..5b2986b 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -113,12 +113,14 @@ impl Default for DocumentationWriter {
 impl ModelWriter for DocumentationWriter {
     fn write(&mut self, w: &mut impl Write, model: &Model) -> ModelResult<()> {
         let document = describe_model(model)?;
+        let mut buffer: Vec<u8> = Default::default();
         match write_document(
             &document,
             OutputFormat::Markdown(MarkdownFlavor::CommonMark),
-            w,
+            &mut buffer,
         ) {
-            Ok(_) => Ok(()),
+            // not all errors of `w` would make it through `write_document`
+            Ok(_) => Ok(w.write_all(&buffer)?),
             Err(err) => Err(err.to_string().into()),
         }
     }
-- 
2.43.0


From dfb70b621356647a45e0ea70a7b408e9e5886688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:05 +0000
Subject: [PATCH 17/50] fix: fail_fast stops a run of linters or validators at
 the first that reports an error

---
 atelier-core/src/action/lint/mod.rs     | 9 ++++-----
 atelier-core/src/action/validate/mod.rs | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index d36518d..aa8a109 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -98,12 +98,11 @@ pub fn run_linter_actions(
     for linter in linters.iter_mut() {
         linter.check(model)?;
         let new_issues = linter.issues_mut();
+        let failed = new_issues
+            .iter()
+            .any(|issue| issue.level > IssueLevel::Warning);
         issues.append(new_issues);
-        if fail_fast
-            && new_issues
-                .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+        if fail_fast && failed {
             break;
         }
     }
diff --git a/atelier-core/src/action/validate/mod.rs b/atelier-core/src/action/validate/mod.rs
index 57e1737..b1ba73d 100644
--- a/atelier-core/src/action/validate/mod.rs
+++ b/atelier-core/src/action/validate/mod.rs
@@ -45,12 +45,11 @@ pub fn run_validation_actions(
     for validator in validators.iter_mut() {
         validator.validate(model)?;
         let new_issues = validator.issues_mut();
+        let failed = new_issues
+            .iter()
+            .any(|issue| issue.level > IssueLevel::Warning);
         issues.append(new_issues);
-        if fail_fast
-            && new_issues
-                .iter()
-                .any(|issue| issue.level > IssueLevel::Warning)
-        {
+        if fail_fast && failed {
             break;
         }
     }
-- 
2.43.0


From 52ff99216fa93869bfac32332b4a849d8900ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 18/50] fix: report each unwelcome term wherever it is used,
 whatever the order of shapes or the models checked before

---
 atelier-core/src/action/lint/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atelier-core/src/action/lint/mod.rs b/atelier-core/src/action/lint/mod.rs
index aa8a109..b9f6d7e 100644
--- a/atelier-core/src/action/lint/mod.rs
+++ b/atelier-core/src/action/lint/mod.rs
@@ -72,7 +72,7 @@ conventions described in the Smithy [style guide](https://awslabs.github.io/smit
 linter_or_validator_defn! {
     UnwelcomeTerms
     {
-        checked: RefCell<HashSet<Identifier>>
+        checked: RefCell<HashSet<(String, Option<String>)>>
     },
     "This will report any use of any unwelcome, or problematic terms in names."
 }
@@ -204,6 +204,7 @@ linter_or_validator_action_impl! { UnwelcomeTerms, "UnwelcomeTerms" }
 
 impl Linter for UnwelcomeTerms {
     fn check(&mut self, model: &Model) -> ModelResult<()> {
+        self.checked.borrow_mut().clear();
         for shape in model.shapes() {
             let shape_id = shape.id();
             self.check_shape_id(shape_id);
@@ -242,8 +243,8 @@ impl UnwelcomeTerms {
 
     #[inline]
     fn check_identifier(&mut self, id: &Identifier, in_shape: Option<&ShapeID>) {
-        if !self.checked.borrow().contains(id) {
-            let _ = self.checked.borrow_mut().insert(id.clone());
+        let name_and_place = (id.to_string(), in_shape.map(ShapeID::to_string));
+        if self.checked.borrow_mut().insert(name_and_place) {
             for word in terms::split_words(&id.to_string()) {
                 if terms::is_unwelcome_term(&word) {
                     self.issues.push(match in_shape {
-- 
2.43.0


From fab9525efb220f995761d79919b31efaf8f703c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 19/50] fix: the prelude namespace is recognised whatever its
 letter case

---
 atelier-core/src/action/validate/mod.rs |  8 ++++----
 atelier-core/src/model/shapes/mod.rs    | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/atelier-core/src/action/validate/mod.rs b/atelier-core/src/action/validate/mod.rs
index b1ba73d..125fb16 100644
--- a/atelier-core/src/action/validate/mod.rs
+++ b/atelier-core/src/action/validate/mod.rs
@@ -9,7 +9,7 @@ use crate::action::{Action, ActionIssue, IssueLevel, Validator};
 use crate::error::Result as ModelResult;
 use crate::model::shapes::{HasTraits, ShapeKind};
 use crate::model::{HasIdentity, Identifier, Model, ShapeID};
-use crate::prelude::PRELUDE_NAMESPACE;
+use crate::prelude::prelude_namespace_id;
 use crate::syntax::{MEMBER_ERRORS, MEMBER_INPUT, MEMBER_OUTPUT};
 
 // ------------------------------------------------------------------------------------------------
@@ -228,7 +228,7 @@ impl CorrectTypeReferences {
                     shape.clone(),
                 ));
             }
-        } else if target_id.namespace().to_string() != PRELUDE_NAMESPACE {
+        } else if target_id.namespace() != prelude_namespace_id() {
             self.issues.push(ActionIssue::warning_at(
                 self.label(),
                 &format!(
@@ -256,7 +256,7 @@ impl CorrectTypeReferences {
                     shape.clone(),
                 ));
             }
-        } else if target.namespace().to_string() != PRELUDE_NAMESPACE {
+        } else if target.namespace() != prelude_namespace_id() {
             self.issues.push(ActionIssue::warning_at(
                 self.label(),
                 &format!(
@@ -284,7 +284,7 @@ impl CorrectTypeReferences {
                     shape.clone(),
                 ));
             }
-        } else if target.namespace().to_string() != PRELUDE_NAMESPACE {
+        } else if target.namespace() != prelude_namespace_id() {
             self.issues.push(ActionIssue::warning_at(
                 self.label(),
                 &format!(
diff --git a/atelier-core/src/model/shapes/mod.rs b/atelier-core/src/model/shapes/mod.rs
index 031d8ae..37120ec 100644
--- a/atelier-core/src/model/shapes/mod.rs
+++ b/atelier-core/src/model/shapes/mod.rs
@@ -12,11 +12,11 @@ use crate::error::{ErrorKind, Result};
 use crate::model::identity::HasIdentity;
 use crate::model::{values::Value, Identifier, ShapeID};
 use crate::prelude::{
-    PRELUDE_NAMESPACE, TRAIT_BOX, TRAIT_DEPRECATED, TRAIT_DOCUMENTATION, TRAIT_ERROR,
-    TRAIT_EXTERNALDOCUMENTATION, TRAIT_IDEMPOTENT, TRAIT_LENGTH, TRAIT_NOREPLACE, TRAIT_PAGINATED,
-    TRAIT_PATTERN, TRAIT_PRIVATE, TRAIT_READONLY, TRAIT_REFERENCES, TRAIT_REQUIRED,
-    TRAIT_REQUIRESLENGTH, TRAIT_SENSITIVE, TRAIT_SINCE, TRAIT_STREAMING, TRAIT_TAGS, TRAIT_TITLE,
-    TRAIT_TRAIT, TRAIT_UNIQUEITEMS, TRAIT_UNSTABLE,
+    prelude_namespace_id, PRELUDE_NAMESPACE, TRAIT_BOX, TRAIT_DEPRECATED, TRAIT_DOCUMENTATION,
+    TRAIT_ERROR, TRAIT_EXTERNALDOCUMENTATION, TRAIT_IDEMPOTENT, TRAIT_LENGTH, TRAIT_NOREPLACE,
+    TRAIT_PAGINATED, TRAIT_PATTERN, TRAIT_PRIVATE, TRAIT_READONLY, TRAIT_REFERENCES,
+    TRAIT_REQUIRED, TRAIT_REQUIRESLENGTH, TRAIT_SENSITIVE, TRAIT_SINCE, TRAIT_STREAMING,
+    TRAIT_TAGS, TRAIT_TITLE, TRAIT_TRAIT, TRAIT_UNIQUEITEMS, TRAIT_UNSTABLE,
 };
 use std::collections::HashMap;
 use std::fmt::Debug;
@@ -465,7 +465,7 @@ impl TopLevelShape {
     /// [prelude namespace](../../prelude/constant.PRELUDE_NAMESPACE.html), else `false`.
     ///
     pub fn is_prelude_shape(&self) -> bool {
-        self.id().namespace().to_string() == *PRELUDE_NAMESPACE
+        self.id().namespace() == prelude_namespace_id()
     }
 
     ///
-- 
2.43.0


From abdc962aa0efded93dd88a6efb8aa71e20bc6ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 20/50] fix: assembling fails, rather than panics or leaves
 files out, when a path cannot be read, and merges files in one order

---
 atelier-assembler/src/lib.rs | 49 +++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 674a4bc..db797fe 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -62,7 +62,7 @@ use search_path::SearchPath;
 use std::collections::{BTreeMap, HashSet};
 use std::convert::TryFrom;
 use std::fmt::{Debug, Display, Formatter};
-use std::fs::{read_dir, File};
+use std::fs::{metadata, read_dir, File};
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 
@@ -311,7 +311,7 @@ impl TryFrom<&mut ModelAssembler> for Model {
             Ok(Model::default())
         } else {
             let models: std::result::Result<Vec<Model>, Self::Error> = value
-                .expand_file_paths()
+                .all_file_paths()?
                 .iter()
                 .map(|file_name| value.read_model(&file_name))
                 .collect();
@@ -400,15 +400,19 @@ impl ModelAssembler {
 
     ///
     /// This processes all the paths added to the assembler and filters them for those with
-    /// supported file extensions as well as finding files recursively in directory paths.
+    /// supported file extensions as well as finding files recursively in directory paths. The
+    /// result is sorted and contains each file once; paths that cannot be read are left out (they
+    /// are an error when the model is assembled).
     ///
     pub fn expand_file_paths(&self) -> Vec<PathBuf> {
         info!("ModelAssembler::expand_file_paths()");
         let mut results = Vec::default();
         for path in &self.paths {
-            self.expand_path(path, &mut results);
+            if let Err(err) = self.expand_path(path, &mut results) {
+                error!("ModelAssembler::expand_file_paths - {:?}: {}", path, err);
+            }
         }
-        results
+        in_order(results)
     }
 
     // --------------------------------------------------------------------------------------------
@@ -420,10 +424,19 @@ impl ModelAssembler {
         mut_self
     }
 
+    fn all_file_paths(&self) -> Result<Vec<PathBuf>> {
+        let mut results = Vec::default();
+        for path in &self.paths {
+            self.expand_path(path, &mut results)?;
+        }
+        Ok(in_order(results))
+    }
+
     #[allow(clippy::ptr_arg)]
-    fn expand_path(&self, path: &PathBuf, results: &mut Vec<PathBuf>) {
+    fn expand_path(&self, path: &PathBuf, results: &mut Vec<PathBuf>) -> Result<()> {
         info!("ModelAssembler::expand_path({:?})", path);
-        if path.is_file() {
+        let metadata = metadata(path)?;
+        if metadata.is_file() {
             if let Some(extension) = path.extension() {
                 let extension = extension.to_string_lossy();
                 if self.file_types.contains(extension.as_ref()) {
@@ -431,13 +444,14 @@ impl ModelAssembler {
                     let _ = results.push(path.clone());
                 }
             }
-        } else if path.is_dir() {
+        } else if metadata.is_dir() {
             debug!("ModelAssembler::expand_path - reading dir path {:?}", path);
-            for entry in read_dir(path).unwrap() {
-                let entry = entry.unwrap();
-                self.expand_path(&entry.path(), results);
+            for entry in read_dir(path)? {
+                let entry = entry?;
+                self.expand_path(&entry.path(), results)?;
             }
         }
+        Ok(())
     }
 
     fn read_model(&self, path: &Path) -> Result<Model> {
@@ -445,7 +459,7 @@ impl ModelAssembler {
         if let Some(extension) = path.extension() {
             let extension = extension.to_string_lossy().to_lowercase();
             if let Some(file_type) = self.file_types.get(extension.as_ref()) {
-                let mut file = File::open(path).unwrap();
+                let mut file = File::open(path)?;
                 Ok(file_type.reader()(&mut file)?)
             } else {
                 error!("ModelAssembler::read_model - not a known extension");
@@ -457,3 +471,14 @@ impl ModelAssembler {
         }
     }
 }
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+/// The order in which files are merged does not depend on the order paths were added, or found, in.
+fn in_order(mut paths: Vec<PathBuf>) -> Vec<PathBuf> {
+    paths.sort();
+    paths.dedup();
+    paths
+}
-- 
2.43.0


From ac6cc392828f3e85d87e940575c6504b4370d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 21/50] fix: SMITHY_PATH is the default search path, as
 documented

---
 atelier-assembler/src/lib.rs      | 16 ++++++++++++++--
 cargo-atelier/src/command_line.rs |  3 ++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index db797fe..98a3d48 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -63,6 +63,7 @@ use std::collections::{BTreeMap, HashSet};
 use std::convert::TryFrom;
 use std::fmt::{Debug, Display, Formatter};
 use std::fs::{metadata, read_dir, File};
+use std::io::ErrorKind::NotFound;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 
@@ -112,6 +113,9 @@ pub struct ModelAssembler {
     paths: HashSet<PathBuf>,
 }
 
+/// The name of the environment variable that holds the default search path.
+pub const DEFAULT_SEARCH_ENV: &str = "SMITHY_PATH";
+
 // ------------------------------------------------------------------------------------------------
 // Implementations
 // ------------------------------------------------------------------------------------------------
@@ -289,7 +293,10 @@ impl FileTypeRegistry {
 
 impl Default for ModelAssembler {
     fn default() -> Self {
-        Self::new(FileTypeRegistry::default(), Some(SearchPath::default()))
+        Self::new(
+            FileTypeRegistry::default(),
+            Some(SearchPath::new_or_default(DEFAULT_SEARCH_ENV)),
+        )
     }
 }
 
@@ -420,7 +427,12 @@ impl ModelAssembler {
     fn include_search_path(self, search_path: SearchPath) -> Self {
         debug!("ModelAssembler::include_search_path",);
         let mut mut_self = self;
-        mut_self.paths.extend(search_path.into_iter());
+        // as is usual for search paths, an entry does not have to exist
+        mut_self.paths.extend(
+            search_path
+                .into_iter()
+                .filter(|path| !matches!(metadata(path), Err(e) if e.kind() == NotFound)),
+        );
         mut_self
     }
 
diff --git a/cargo-atelier/src/command_line.rs b/cargo-atelier/src/command_line.rs
index 563fbc5..ba09bcd 100644
--- a/cargo-atelier/src/command_line.rs
+++ b/cargo-atelier/src/command_line.rs
@@ -1,4 +1,5 @@
 use crate::{Command, DocumentCommand, FileFormat, Options, TransformCommand};
+use atelier_lib::assembler::DEFAULT_SEARCH_ENV;
 use search_path::SearchPath;
 use somedoc::write::OutputFormat;
 use std::error::Error;
@@ -180,7 +181,7 @@ fn check_command_line() -> Vec<String> {
 
 fn make_search_path(default_search_env: bool, search_env: Option<String>) -> Option<SearchPath> {
     if default_search_env {
-        Some(SearchPath::default())
+        Some(SearchPath::new_or_default(DEFAULT_SEARCH_ENV))
     } else {
         search_env.map(|search_env| SearchPath::new_or_default(&search_env))
     }
-- 
2.43.0


From 82da56ea3cbbe5d841ac0b32e3246ccc3bdf1604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 22/50] fix: convert and document create their output file, and
 exit with an error when they fail

---
 cargo-atelier/src/actions.rs  | 19 ++++++++++++-------
 cargo-atelier/src/bin/main.rs |  6 +++---
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/cargo-atelier/src/actions.rs b/cargo-atelier/src/actions.rs
index 9116673..54126b2 100644
--- a/cargo-atelier/src/actions.rs
+++ b/cargo-atelier/src/actions.rs
@@ -83,14 +83,14 @@ fn write_model(
 ) -> Result<(), Box<dyn Error>> {
     let mut file: Box<dyn Write> = match output_file {
         None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
+        Some(file_name) => Box::new(File::create(file_name)?),
     };
 
     match output_format {
         FileFormat::Json => write_json(&mut file, model),
         FileFormat::Smithy => {
             if let Some(namespace) = namespace {
-                write_smithy(&mut file, model, NamespaceID::from_str(&namespace).unwrap())
+                write_smithy(&mut file, model, NamespaceID::from_str(&namespace)?)
             } else {
                 let namespaces = &model.namespaces();
                 if namespaces.len() == 1 {
@@ -100,12 +100,14 @@ fn write_model(
                         (*namespaces.iter().next().unwrap()).clone(),
                     )
                 } else {
-                    panic!("A namespace value is required for writing Smithy IDL");
+                    Err("A namespace value is required for writing Smithy IDL".into())
                 }
             }
         }
         FileFormat::Uml => write_uml(&mut file, model),
-    }
+    }?;
+    // what is left in the buffer of standard output may still fail to be written
+    Ok(file.flush()?)
 }
 
 fn transform_file(
@@ -136,10 +138,13 @@ fn document_a_file(
 
     let mut file: Box<dyn Write> = match output_file {
         None => Box::new(std::io::stdout()),
-        Some(file_name) => Box::new(File::open(file_name)?),
+        Some(file_name) => Box::new(File::create(file_name)?),
     };
-    write_document(&document, output_format, &mut file)?;
-    Ok(())
+    // not all errors of the file would make it through `write_document`
+    let mut buffer: Vec<u8> = Default::default();
+    write_document(&document, output_format, &mut buffer)?;
+    file.write_all(&buffer)?;
+    Ok(file.flush()?)
 }
 
 fn write_json(w: &mut impl Write, model: &Model) -> Result<(), Box<dyn Error>> {
diff --git a/cargo-atelier/src/bin/main.rs b/cargo-atelier/src/bin/main.rs
index 2fe7a53..1bea80f 100644
--- a/cargo-atelier/src/bin/main.rs
+++ b/cargo-atelier/src/bin/main.rs
@@ -14,9 +14,9 @@ fn main() -> Result<(), Box<dyn Error>> {
         Command::Document(cmd, search_path, _) => actions::document_file(cmd, search_path),
     };
 
-    if result.is_err() {
-        eprintln!("{}", (&result).as_ref().err().unwrap().source().unwrap())
+    if let Some(source) = result.as_ref().err().and_then(|err| err.source()) {
+        eprintln!("{}", source)
     }
 
-    Ok(())
+    result
 }
-- 
2.43.0


From 8e02ad1570d3205cdb64f8f49525284cf8f5649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:20 +0000
Subject: [PATCH 23/50] fix: link external documentation to its URL, not to the
 quoted string

---
 atelier-describe/src/document/writer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 5b2986b..8c0ec26 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -289,8 +289,13 @@ fn describe_documentation(shape: &impl HasTraits, doc: &mut Document) {
         let mut links: Vec<InlineContent> = value_map
             .iter()
             .map(|(k, v)| {
+                let url = match v {
+                    // without the quotes that `Display` puts around strings
+                    Value::String(v) => v.clone(),
+                    v => v.to_string(),
+                };
                 InlineContent::HyperLink(HyperLink::external_with_caption(
-                    &v.to_string(),
+                    &url,
                     Caption::from(k.to_string()),
                 ))
             })
-- 
2.43.0


From 5874b199d3854c085778085d6988c38d9ecd960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 24/50] fix: RDF arrays keep the order and number of their
 values

---
 atelier-rdf/src/writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 37af978..f696d09 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -832,12 +832,12 @@ fn from_value(
                     .statement(
                         the_value.clone(),
                         rdf::a_type().clone(),
-                        statement_factory.named_object(rdf::list().clone()),
+                        statement_factory.named_object(rdf::seq().clone()),
                     )
                     .unwrap(),
             );
-            for value in v {
-                from_value(graph, the_value.clone(), rdf::li().clone(), value)?;
+            for (idx, value) in v.iter().enumerate() {
+                from_value(graph, the_value.clone(), rdf::member(idx + 1), value)?;
             }
         }
         Value::Object(v) => {
-- 
2.43.0


From ad018293b24d5995c39d0783b7ae85c2640826dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 25/50] fix: state the metadata of the model in its RDF graph

---
 atelier-rdf/src/writer.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index f696d09..835a288 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -172,6 +172,9 @@ pub fn model_to_rdf(
         model_subject,
         graph,
     };
+    if model.has_metadata() {
+        visitor.all_metadata(model)?;
+    }
     walk_model(model, &visitor)?;
 
     Ok(visitor.graph)
@@ -216,6 +219,22 @@ impl RdfWriter {
 
 // ------------------------------------------------------------------------------------------------
 
+impl RdfModelVisitor {
+    fn all_metadata(&self, model: &Model) -> Result<(), ModelError> {
+        let metadata = model
+            .metadata()
+            .map(|(key, value)| (key.clone(), value.clone()))
+            .collect();
+        let mut graph: RefMut<'_, dyn Graph> = self.graph.borrow_mut();
+        from_value(
+            &mut graph,
+            self.model_subject.clone(),
+            vocabulary::metadata().clone(),
+            &Value::Object(metadata),
+        )
+    }
+}
+
 impl ModelVisitor for RdfModelVisitor {
     type Error = ModelError;
 
-- 
2.43.0


From 93c6f0ac54a69034362eaee0a159cf34b1616d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 26/50] fix: state the renames of a service in its RDF resource

---
 atelier-rdf/src/writer.rs | 52 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/atelier-rdf/src/writer.rs b/atelier-rdf/src/writer.rs
index 835a288..41531b9 100644
--- a/atelier-rdf/src/writer.rs
+++ b/atelier-rdf/src/writer.rs
@@ -447,6 +447,58 @@ impl ModelVisitor for RdfModelVisitor {
                     .unwrap(),
             );
         }
+        if shape.has_renames() {
+            let rename_bag = statement_factory.blank_subject();
+            graph.insert(
+                statement_factory
+                    .statement(
+                        statement_factory.named_subject(subject.clone()),
+                        vocabulary::rename().clone(),
+                        statement_factory.subject_as_object(rename_bag.clone()),
+                    )
+                    .unwrap(),
+            );
+            graph.insert(
+                statement_factory
+                    .statement(
+                        rename_bag.clone(),
+                        rdf::a_type().clone(),
+                        statement_factory.named_object(rdf::bag().clone()),
+                    )
+                    .unwrap(),
+            );
+            for (idx, (shape_id, local_name)) in shape.renames().enumerate() {
+                let shape_name_pair = statement_factory.blank_subject();
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            rename_bag.clone(),
+                            rdf::member(idx + 1),
+                            statement_factory.subject_as_object(shape_name_pair.clone()),
+                        )
+                        .unwrap(),
+                );
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            shape_name_pair.clone(),
+                            vocabulary::shape().clone(),
+                            statement_factory.named_object(shape_to_iri(shape_id)),
+                        )
+                        .unwrap(),
+                );
+                graph.insert(
+                    statement_factory
+                        .statement(
+                            shape_name_pair,
+                            vocabulary::name().clone(),
+                            statement_factory
+                                .literal_object(literal_factory.literal(&local_name.to_string())),
+                        )
+                        .unwrap(),
+                );
+            }
+        }
         from_traits(&mut graph, statement_factory.named_subject(subject), traits)
     }
 
-- 
2.43.0


From 557730c9ae00c6e26e943c79aacab9352d56e895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 27/50] fix: iri_to_shape refuses IRIs with a query or fragment

---
 atelier-rdf/src/urn.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atelier-rdf/src/urn.rs b/atelier-rdf/src/urn.rs
index 83cf20d..982b050 100644
--- a/atelier-rdf/src/urn.rs
+++ b/atelier-rdf/src/urn.rs
@@ -83,8 +83,9 @@ pub fn iri_to_shape(iri: IRIRef) -> Result<ShapeID, String> {
                             &SHAPE_ID_MEMBER_SEPARATOR.to_string(),
                         ),
                 ) {
-                    Ok(shape_id) => Ok(shape_id),
-                    Err(_) => Err(String::from("Could not parse into a Shape ID")),
+                    // no authority, query or fragment
+                    Ok(shape_id) if shape_to_iri(&shape_id) == iri => Ok(shape_id),
+                    _ => Err(String::from("Could not parse into a Shape ID")),
                 }
             } else {
                 Err(String::from("Smithy URN contains invalid characters"))
-- 
2.43.0


From 7f0d79e7a4241fe4d861a08753b482afbdf39255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:12 +0000
Subject: [PATCH 28/50] fix: Smithy writer writes references to shapes named
 true, false or null in full

---
 atelier-smithy/src/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atelier-smithy/src/writer.rs b/atelier-smithy/src/writer.rs
index 47fd6c4..7be6916 100644
--- a/atelier-smithy/src/writer.rs
+++ b/atelier-smithy/src/writer.rs
@@ -319,7 +319,8 @@ impl SmithyWriter {
             shape.id().shape_name() == id.shape_name() && self.is_used(model, shape.id())
         });
         let short_name = id.shape_name().to_string();
-        let resolves = if imported || id.is_member() {
+        let is_keyword = matches!(short_name.as_str(), "true" | "false" | "null");
+        let resolves = if imported || id.is_member() || is_keyword {
             false
         } else if id.namespace() == &self.namespace {
             defined_here || !is_prelude_name(id.shape_name())
-- 
2.43.0


From cfa11d5802af101572243602540140116dddd98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:04 +0000
Subject: [PATCH 29/50] fix: two values of one trait in a ModelBuilder are
 merged or conflict, the last does not win

---
 atelier-core/src/builder/mod.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index a3b4c32..88dd13a 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -19,7 +19,7 @@ For more information, see [the Rust Atelier book](https://rust-atelier.dev/using
 use crate::builder::id::ShapeName;
 use crate::error::{Error, ErrorKind};
 use crate::model::shapes::{
-    HasTraits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind,
+    merge_traits, HasTraits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind,
     StructureOrUnion, TopLevelShape,
 };
 use crate::model::values::{Value, ValueMap};
@@ -31,7 +31,6 @@ use crate::syntax::SHAPE_ID_MEMBER_SEPARATOR;
 use crate::Version;
 use std::collections::{HashMap, HashSet};
 use std::convert::TryFrom;
-use std::iter::FromIterator;
 use std::str::FromStr;
 pub use values::{ArrayBuilder, ObjectBuilder, ValueBuilder};
 
@@ -709,21 +708,19 @@ impl ModelBuilder {
         builders: &[TraitBuilder],
         references: &mut HashSet<ShapeID>,
     ) -> Result<HashMap<ShapeID, Option<Value>>, Error> {
-        let pairs: Result<Vec<(ShapeID, Option<Value>)>, Error> = builders
-            .iter()
-            .cloned()
-            .map(|builder| {
-                let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_id, true)?;
-                if new_reference {
-                    let _ = references.insert(shape_id.clone());
-                }
-                Ok((shape_id, builder.value))
-            })
-            .collect();
-        match pairs {
-            Ok(pairs) => Ok(HashMap::from_iter(pairs)),
-            Err(err) => Err(err),
+        let mut traits: HashMap<ShapeID, Option<Value>> = Default::default();
+        for builder in builders.iter().cloned() {
+            let (shape_id, new_reference) = self.resolve_shape_name(&builder.shape_id, true)?;
+            if new_reference {
+                let _ = references.insert(shape_id.clone());
+            }
+            let value = match traits.get(&shape_id) {
+                Some(existing) => merge_traits(&shape_id, existing, &builder.value)?,
+                None => builder.value,
+            };
+            let _ = traits.insert(shape_id, value);
         }
+        Ok(traits)
     }
 }
 
-- 
2.43.0


From 6d0f4d0261b1ef42139a8bda0fb2ce47caccbace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:05 +0000
Subject: [PATCH 30/50] fix: two different members of one name in a
 StructureBuilder conflict, the last does not win

---
 atelier-core/src/builder/mod.rs | 43 +++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index 88dd13a..aa8fc2b 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -478,26 +478,31 @@ impl ModelBuilder {
 
     fn make_structure_inner(
         &self,
+        shape_id: &ShapeID,
         builder: &StructureBuilder,
         references: &mut HashSet<ShapeID>,
     ) -> Result<StructureOrUnion, Error> {
-        let members: Result<Vec<MemberShape>, Error> = builder
-            .members
-            .iter()
-            .map(|mb| {
-                let (member_target_id, new_reference) =
-                    self.resolve_shape_name(&mb.target, false)?;
-                if new_reference {
-                    let _ = references.insert(member_target_id.clone());
+        let mut structure = StructureOrUnion::new();
+        for mb in &builder.members {
+            let (member_target_id, new_reference) = self.resolve_shape_name(&mb.target, false)?;
+            if new_reference {
+                let _ = references.insert(member_target_id.clone());
+            }
+            let mut member = MemberShape::with_traits(
+                mb.member_name.clone(),
+                member_target_id,
+                self.make_traits(&mb.applied_traits, references)?,
+            );
+            if let Some(existing) = structure.member(&mb.member_name) {
+                // The same member again is allowed to add traits, anything else is a conflict.
+                if existing.target() != member.target() {
+                    return Err(ErrorKind::MergeShapeConflict(shape_id.clone()).into());
                 }
-                Ok(MemberShape::with_traits(
-                    mb.member_name.clone(),
-                    member_target_id,
-                    self.make_traits(&mb.applied_traits, references)?,
-                ))
-            })
-            .collect();
-        members.map(|members| StructureOrUnion::with_members(&members))
+                member.append_traits(existing.traits())?;
+            }
+            let _ = structure.add_a_member(member);
+        }
+        Ok(structure)
     }
 
     fn make_structure(
@@ -509,9 +514,10 @@ impl ModelBuilder {
         if new_reference {
             let _ = references.insert(shape_id.clone());
         }
+        let members = self.make_structure_inner(&shape_id, builder, references)?;
         Ok(TopLevelShape::with_traits(
             shape_id,
-            ShapeKind::Structure(self.make_structure_inner(builder, references)?),
+            ShapeKind::Structure(members),
             self.make_traits(&builder.applied_traits, references)?,
         ))
     }
@@ -525,9 +531,10 @@ impl ModelBuilder {
         if new_reference {
             let _ = references.insert(shape_id.clone());
         }
+        let members = self.make_structure_inner(&shape_id, builder, references)?;
         Ok(TopLevelShape::with_traits(
             shape_id,
-            ShapeKind::Union(self.make_structure_inner(builder, references)?),
+            ShapeKind::Union(members),
             self.make_traits(&builder.applied_traits, references)?,
         ))
     }
-- 
2.43.0


From b6b3480dd5009efc5fcdce2bc05a4d77c2f3d027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:05 +0000
Subject: [PATCH 31/50] fix: a ModelBuilder definition does not become a shape
 imported under its name, and counts by either spelling

---
 atelier-core/src/builder/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/atelier-core/src/builder/mod.rs b/atelier-core/src/builder/mod.rs
index aa8fc2b..dafb0ef 100644
--- a/atelier-core/src/builder/mod.rs
+++ b/atelier-core/src/builder/mod.rs
@@ -89,7 +89,8 @@ impl TryFrom<&mut ModelBuilder> for Model {
             let _ = model.add_metadata(k.clone(), v.clone())?;
         }
         let mut unresolved: HashSet<ShapeID> = Default::default();
-        for (_, shape) in &builder.shapes {
+        for (shape_name, shape) in &builder.shapes {
+            builder.check_definition(shape_name)?;
             model.add_shape(builder.make_shape(&shape, &mut unresolved)?)?;
         }
         for (shape_name, member_name, a_trait) in &builder.applied_traits {
@@ -351,10 +352,25 @@ impl ModelBuilder {
     fn defines(&self, local_name: &str) -> bool {
         self.shapes.iter().any(|(shape_name, _)| match shape_name {
             ShapeName::Local(id) => id.to_string() == local_name,
-            ShapeName::Qualified(_) => false,
+            ShapeName::Qualified(id) => {
+                *id.namespace() == self.default_namespace
+                    && id.shape_name().to_string() == local_name
+            }
         })
     }
 
+    /// A shape defined in the default namespace must not have the name of a shape that is imported
+    /// from another one, any use of the name would be ambiguous.
+    fn check_definition(&self, shape_name: &ShapeName) -> Result<(), Error> {
+        if let ShapeName::Local(local) = shape_name {
+            let (shape_id, _) = self.resolve_shape_name(shape_name, false)?;
+            if *shape_id.namespace() != self.default_namespace {
+                return Err(ErrorKind::AmbiguousShape(local.to_string()).into());
+            }
+        }
+        Ok(())
+    }
+
     fn make_shape(
         &self,
         builder: &TopLevelShapeBuilder,
-- 
2.43.0


From f50b4bb28af300c91b2d17b5460ae036d5668ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:20 +0000
Subject: [PATCH 32/50] fix: repeated metadata statements in an IDL document
 are merged, the last does not win

---
 atelier-smithy/src/parser/smithy.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index c52ed38..8b2f2b0 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -92,16 +92,14 @@ fn parse_idl(input_pair: Pair<'_, Rule>) -> ModelResult<Model> {
             let builder = next_pair_into!("parse_idl", inner, Rule::shape_section, |item| {
                 parse_shape_section(item, version)
             });
-            match builder {
-                None => {
-                    let mut model = Model::new(version);
-                    for (key, value) in meta_data {
-                        let _ = model.add_metadata(key, value)?;
-                    }
-                    Ok(model)
-                }
-                Some(mut builder) => builder.meta_data_from(meta_data).try_into(),
+            let mut model: Model = match builder {
+                None => Model::new(version),
+                Some(builder) => builder.try_into()?,
+            };
+            for (key, value) in meta_data {
+                let _ = model.add_metadata(key, value)?;
             }
+            Ok(model)
         }
         _ => unexpected!("parse_idl", input_pair),
     }
@@ -122,9 +120,10 @@ fn parse_control_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
     Ok(map)
 }
 
-fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
+/// Note: a key may be repeated, in which case the values have to be merged.
+fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<Vec<(String, NodeValue)>> {
     entry!("parse_metadata_section", input_pair);
-    let mut map: ValueMap = Default::default();
+    let mut statements: Vec<(String, NodeValue)> = Default::default();
     for inner in input_pair.into_inner() {
         let (key, value) = pair_into!(
             "parse_control_section",
@@ -132,9 +131,9 @@ fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::metadata_statement,
             parse_node_object_kvp
         );
-        let _ = map.insert(unquoted_key(key), value);
+        statements.push((unquoted_key(key), value));
     }
-    Ok(map)
+    Ok(statements)
 }
 
 /// The name of a control or metadata key, without the quotes it may have been written in.
-- 
2.43.0


From 97f60c592ad9b259b441cfdb9a3af2bcfdf56492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:37 +0000
Subject: [PATCH 33/50] fix: parse_selector does not write the parse tree to
 standard output

---
 atelier-smithy/src/parser/selector.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index 45efa16..f5069db 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -37,7 +37,6 @@ pub fn parse_selector(input: &str) -> ModelResult<Selector> {
     match top_pair.as_rule() {
         Rule::input => {
             let inner = top_pair.into_inner().next().unwrap();
-            println!("{:#?}", inner);
             trace!("{:#?}", inner);
             if inner.as_rule() == Rule::selector {
                 parse_a_selector(inner)
-- 
2.43.0


From d20a6dcaf5526e1ad04bd80e8f316945a6145ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:17 +0000
Subject: [PATCH 34/50] fix: the comparators >= and <= are read in selectors

---
 atelier-smithy/src/selector.pest | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index de20b25..eabdc8e 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -93,10 +93,10 @@ comparator_string_in = { "*=" }
 comparator_string_exist = { "?=" }
 
 selector_numeric_comparator =
-    { comparator_number_gt
-    | comparator_number_gte
-    | comparator_number_lt
-    | comparator_number_lte }
+    { comparator_number_gte
+    | comparator_number_gt
+    | comparator_number_lte
+    | comparator_number_lt }
 
 comparator_number_gt = { ">" }
 
-- 
2.43.0


From 51abc23f8db9870e2e6f3975bea7749b11ec8eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:05 +0000
Subject: [PATCH 35/50] fix: a carriage return is white space in a selector

---
 atelier-smithy/src/selector.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index eabdc8e..2cc2af9 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -216,4 +216,4 @@ zero =
 // Allows default whitespace handling
 // ------------------------------------------------------------------------------------------------
 
-WHITESPACE = _{ " " | "\t" | "\n" }
\ No newline at end of file
+WHITESPACE = _{ " " | "\t" | "\n" | "\r" }
\ No newline at end of file
-- 
2.43.0


From 7d51829d01bce89528e55aca51085d187ffd0950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:36 +0000
Subject: [PATCH 36/50] fix: identifiers in a selector start with any number of
 underscores

---
 atelier-smithy/src/selector.pest | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/atelier-smithy/src/selector.pest b/atelier-smithy/src/selector.pest
index 2cc2af9..84cfe96 100644
--- a/atelier-smithy/src/selector.pest
+++ b/atelier-smithy/src/selector.pest
@@ -173,8 +173,7 @@ selector_variable_get =
 // ------------------------------------------------------------------------------------------------
 
 identifier =
-    @{ ( ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* )
-    |  ( "_" ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")*) }
+    @{ "_"* ~ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
 
 namespace =
     @{ identifier ~ ("." ~ identifier)* }
-- 
2.43.0


From 4f5256dc1cca851b8933116d760cbc7601e67df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:00 +0000
Subject: [PATCH 37/50] fix: exponents and numbers out of range in a selector
 do not panic

---
 atelier-smithy/src/parser/selector.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index f5069db..73ebbaa 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -1,7 +1,7 @@
 #![allow(clippy::upper_case_acronyms)]
 
 use crate::parser::error::ParserError;
-use atelier_core::error::{Error, ErrorKind, Result as ModelResult};
+use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::selector::{
     AttributeComparison, AttributeSelector, Comparator, Function, Key, KeyPathSegment,
     NeighborSelector, ScopedAttributeAssertion, ScopedAttributeSelector, ScopedValue, Selector,
@@ -222,11 +222,18 @@ fn parse_selector_value(input_pair: Pair<'_, Rule>) -> ModelResult<Value> {
         }
         Rule::number => {
             let number = inner.as_str();
-            if number.contains('.') {
-                Ok(Value::Number(Number::Float(f64::from_str(number).unwrap())))
+            if number.contains(|c| matches!(c, '.' | 'e' | 'E')) {
+                let float = f64::from_str(number).chain_err(|| "number format error")?;
+                if !float.is_finite() {
+                    return ParserError::new("parse_selector_value")
+                        .expecting("a number that is not too large")
+                        .debug_context(&inner)
+                        .into();
+                }
+                Ok(Value::Number(Number::Float(float)))
             } else {
                 Ok(Value::Number(Number::Integer(
-                    i64::from_str(number).unwrap(),
+                    i64::from_str(number).chain_err(|| "number format error")?,
                 )))
             }
         }
-- 
2.43.0


From a024c99ac86b31243485f6814b48eb0ee2d65c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:00 +0000
Subject: [PATCH 38/50] fix: a whole floating point number in a selector is not
 printed as an integer

---
 atelier-core/src/model/selector/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index d40634e..f84ca0d 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -597,6 +597,8 @@ impl Display for Value {
             "{}",
             match self {
                 Value::Text(v) => format!("\"{}\"", v),
+                // a float always has a fraction or an exponent, else it reads as an integer
+                Value::Number(Number::Float(v)) => format!("{:?}", v),
                 Value::Number(v) => v.to_string(),
                 Value::RootShapeIdentifier(v) => v.to_string(),
                 Value::AbsoluteRootShapeIdentifier(v) => v.to_string(),
-- 
2.43.0


From 3411436c62ee064c7404978d55c7a3f980674723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:34 +0000
Subject: [PATCH 39/50] fix: a text with double quotes in a selector is printed
 in single quotes

---
 atelier-core/src/model/selector/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index f84ca0d..a5fec66 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -596,6 +596,7 @@ impl Display for Value {
             f,
             "{}",
             match self {
+                Value::Text(v) if v.contains('"') => format!("'{}'", v),
                 Value::Text(v) => format!("\"{}\"", v),
                 // a float always has a fraction or an exponent, else it reads as an integer
                 Value::Number(Number::Float(v)) => format!("{:?}", v),
-- 
2.43.0


From ff8e55d32ecc18dd92facb95996fa2dcd55b4f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:24 +0000
Subject: [PATCH 40/50] fix: string_starts_with of a selector compares with the
 value given, not with its spelling

---
 atelier-core/src/model/selector/mod.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index a5fec66..1af74f9 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -852,10 +852,7 @@ impl AttributeComparison {
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `^=` operator.
     pub fn string_starts_with(rhs: Value) -> Self {
-        Self::new(
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string())],
-        )
+        Self::new(Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new comparison between the `AttributeSelector` and `rhs` value with the `$=` operator.
@@ -1259,11 +1256,7 @@ impl ScopedAttributeAssertion {
 
     /// Create a new assertion between `lhs` and `rhs` with the `^=` operator.
     pub fn string_starts_with(lhs: ScopedValue, rhs: ScopedValue) -> Self {
-        Self::new(
-            lhs,
-            Comparator::StringStartsWith,
-            &[Value::Text(rhs.to_string()).into()],
-        )
+        Self::new(lhs, Comparator::StringStartsWith, &[rhs])
     }
 
     /// Create a new assertion between `lhs` and `rhs` with the `$=` operator.
-- 
2.43.0


From 1fe07b36f7392f6e1a8fbf55ddce10a90255a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:02 +0000
Subject: [PATCH 41/50] fix: selectors nested without limit are refused, they
 do not overflow the stack

---
 atelier-smithy/src/parser/selector.rs | 30 +++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/atelier-smithy/src/parser/selector.rs b/atelier-smithy/src/parser/selector.rs
index 73ebbaa..ce48bda 100644
--- a/atelier-smithy/src/parser/selector.rs
+++ b/atelier-smithy/src/parser/selector.rs
@@ -1,6 +1,7 @@
 #![allow(clippy::upper_case_acronyms)]
 
 use crate::parser::error::ParserError;
+use crate::REPRESENTATION_NAME;
 use atelier_core::error::{Error, ErrorKind, Result as ModelResult, ResultExt};
 use atelier_core::model::selector::{
     AttributeComparison, AttributeSelector, Comparator, Function, Key, KeyPathSegment,
@@ -22,6 +23,9 @@ use std::str::FromStr;
 #[grammar = "selector.pest"]
 struct SelectorParser;
 
+/// How deep selectors may be nested in each other.
+const MAX_NESTING: usize = 128;
+
 // ------------------------------------------------------------------------------------------------
 // Public Functions
 // ------------------------------------------------------------------------------------------------
@@ -32,6 +36,7 @@ struct SelectorParser;
 ///
 pub fn parse_selector(input: &str) -> ModelResult<Selector> {
     info!("parse_selector({})", input);
+    check_nesting(input)?;
     let mut parsed = SelectorParser::parse(Rule::input, input).map_err(from_pest_error)?;
     let top_pair = parsed.next().unwrap();
     match top_pair.as_rule() {
@@ -420,6 +425,31 @@ fn parse_selector_variable_get(input_pair: Pair<'_, Rule>) -> ModelResult<Variab
     }
 }
 
+/// The parser is recursive, so selectors nested without limit would overflow the stack.
+fn check_nesting(input: &str) -> ModelResult<()> {
+    let mut depth: usize = 0;
+    let mut quote: Option<char> = None;
+    for c in input.chars() {
+        match (quote, c) {
+            (Some(q), _) if q == c => quote = None,
+            (Some(_), _) => {}
+            (None, '"') | (None, '\'') => quote = Some(c),
+            (None, '(') => depth += 1,
+            (None, ')') => depth = depth.saturating_sub(1),
+            _ => {}
+        }
+        if depth > MAX_NESTING {
+            return Err(ErrorKind::Deserialization(
+                REPRESENTATION_NAME.to_string(),
+                format!("selectors are nested more than {} levels deep", MAX_NESTING),
+                None,
+            )
+            .into());
+        }
+    }
+    Ok(())
+}
+
 fn from_pest_error(e: PestError<Rule>) -> Error {
     error!("{}", e);
     Error::with_chain(
-- 
2.43.0


From e3b210fec5e5f578555453bb61b1709e7f4b547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:38 +0000
Subject: [PATCH 42/50] fix: a section of a JSON model that is not an object is
 refused, it is not skipped

---
 atelier-json/src/reader.rs | 71 ++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index ab49535..14ae860 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -17,7 +17,7 @@ use atelier_core::syntax::{
     SHAPE_OPERATION, SHAPE_RESOURCE, SHAPE_SERVICE, SHAPE_SET, SHAPE_STRUCTURE, SHAPE_UNION,
 };
 use atelier_core::Version;
-use serde_json::{from_reader, Map, Value};
+use serde_json::{from_reader, Value};
 use std::collections::HashMap;
 use std::io::Read;
 use std::str::FromStr;
@@ -106,28 +106,20 @@ impl JsonReader {
 
     fn metadata(&self, json: Option<&Value>) -> ModelResult<ValueMap> {
         let mut metadata: ValueMap = Default::default();
-        if let Some(Value::Object(vs)) = json {
-            for (k, v) in vs {
-                let _ = metadata.insert(k.clone(), self.value(v)?);
-            }
+        for (k, v) in self.optional_object(json)? {
+            let _ = metadata.insert(k.clone(), self.value(v)?);
         }
         Ok(metadata)
     }
 
     fn shapes(&self, json: Option<&Value>) -> ModelResult<Vec<(NamespaceID, TopLevelShape)>> {
         let mut shapes: Vec<(NamespaceID, TopLevelShape)> = Default::default();
-        if let Some(Value::Object(vs)) = json {
-            for (k, v) in vs {
-                let id = ShapeID::from_str(k)?;
-                let inner = self.shape(v)?;
-                let mut shape = TopLevelShape::new(id.clone(), inner);
-
-                if let Some(Value::Object(vs)) = v.get(ADD_SHAPE_KEY_TRAITS) {
-                    shape.append_traits(&self.traits(vs)?)?;
-                };
-
-                shapes.push((id.namespace().clone(), shape))
-            }
+        for (k, v) in self.optional_object(json)? {
+            let id = ShapeID::from_str(k)?;
+            let inner = self.shape(v)?;
+            let mut shape = TopLevelShape::new(id.clone(), inner);
+            shape.append_traits(&self.traits(v.get(ADD_SHAPE_KEY_TRAITS))?)?;
+            shapes.push((id.namespace().clone(), shape))
         }
         Ok(shapes)
     }
@@ -153,20 +145,12 @@ impl JsonReader {
                     self.member(MEMBER_VALUE, outer.get(MEMBER_VALUE))?,
                 )))
             } else if s == SHAPE_STRUCTURE {
-                let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
-                    self.members(vs)?
-                } else {
-                    Default::default()
-                };
+                let members = self.members(outer.get(ADD_SHAPE_KEY_MEMBERS))?;
                 Ok(ShapeKind::Structure(StructureOrUnion::with_members(
                     members.as_slice(),
                 )))
             } else if s == SHAPE_UNION {
-                let members = if let Some(Value::Object(vs)) = outer.get(ADD_SHAPE_KEY_MEMBERS) {
-                    self.members(vs)?
-                } else {
-                    Default::default()
-                };
+                let members = self.members(outer.get(ADD_SHAPE_KEY_MEMBERS))?;
                 Ok(ShapeKind::Union(StructureOrUnion::with_members(
                     members.as_slice(),
                 )))
@@ -238,9 +222,9 @@ impl JsonReader {
         .into())
     }
 
-    fn traits(&self, json: &Map<String, Value>) -> ModelResult<AppliedTraits> {
+    fn traits(&self, json: Option<&Value>) -> ModelResult<AppliedTraits> {
         let mut traits: AppliedTraits = Default::default();
-        for (k, v) in json {
+        for (k, v) in self.optional_object(json)? {
             let id = ShapeID::from_str(k)?;
             let inner = self.value(v)?;
             let _ = traits.insert(id, Some(inner));
@@ -248,9 +232,9 @@ impl JsonReader {
         Ok(traits)
     }
 
-    fn members(&self, json: &Map<String, Value>) -> ModelResult<Vec<MemberShape>> {
+    fn members(&self, json: Option<&Value>) -> ModelResult<Vec<MemberShape>> {
         let mut members: Vec<MemberShape> = Default::default();
-        for (k, v) in json {
+        for (k, v) in self.optional_object(json)? {
             if let Value::Object(obj) = v {
                 let target = if let Some(Value::String(target)) = obj.get(ADD_SHAPE_KEY_TARGET) {
                     ShapeID::from_str(target)?
@@ -263,9 +247,7 @@ impl JsonReader {
                     .into());
                 };
                 let mut member = MemberShape::new(Identifier::from_str(k)?, target);
-                if let Some(Value::Object(traits)) = obj.get(ADD_SHAPE_KEY_TRAITS) {
-                    member.append_traits(&self.traits(traits)?)?;
-                }
+                member.append_traits(&self.traits(obj.get(ADD_SHAPE_KEY_TRAITS))?)?;
                 members.push(member);
             } else {
                 return Err(ErrorKind::Deserialization(
@@ -378,9 +360,7 @@ impl JsonReader {
                     Identifier::new_unchecked(name),
                     ShapeID::from_str(target_id)?,
                 );
-                if let Some(Value::Object(vs)) = ms.get(ADD_SHAPE_KEY_TRAITS) {
-                    member_shape.append_traits(&self.traits(vs)?)?;
-                };
+                member_shape.append_traits(&self.traits(ms.get(ADD_SHAPE_KEY_TRAITS))?)?;
                 return Ok(member_shape);
             }
         }
@@ -392,6 +372,23 @@ impl JsonReader {
         .into())
     }
 
+    /// The entries of an object, none if there is no such object.
+    fn optional_object<'v>(
+        &self,
+        json: Option<&'v Value>,
+    ) -> ModelResult<impl Iterator<Item = (&'v String, &'v Value)>> {
+        match json {
+            None => Ok(None.into_iter().flatten()),
+            Some(Value::Object(vs)) => Ok(Some(vs).into_iter().flatten()),
+            Some(_) => Err(ErrorKind::Deserialization(
+                REPRESENTATION_NAME.to_string(),
+                "JsonReader::optional_object".to_string(),
+                Some(format!("{:#?}", json)),
+            )
+            .into()),
+        }
+    }
+
     fn string_value(&self, value: &Value) -> ModelResult<String> {
         if let Value::String(value) = value {
             Ok(value.clone())
-- 
2.43.0


From e8f5409c293f2e7f6412ecbbdec4fc0d42c41c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:54 +0000
Subject: [PATCH 43/50] fix: names that differ only by letter case in one
 object of a JSON model are refused, none is dropped

---
 atelier-json/src/reader.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index 14ae860..d3815ae 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -18,7 +18,7 @@ use atelier_core::syntax::{
 };
 use atelier_core::Version;
 use serde_json::{from_reader, Value};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Read;
 use std::str::FromStr;
 
@@ -227,13 +227,16 @@ impl JsonReader {
         for (k, v) in self.optional_object(json)? {
             let id = ShapeID::from_str(k)?;
             let inner = self.value(v)?;
-            let _ = traits.insert(id, Some(inner));
+            if traits.insert(id, Some(inner)).is_some() {
+                return self.repeated(k);
+            }
         }
         Ok(traits)
     }
 
     fn members(&self, json: Option<&Value>) -> ModelResult<Vec<MemberShape>> {
         let mut members: Vec<MemberShape> = Default::default();
+        let mut names: HashSet<Identifier> = Default::default();
         for (k, v) in self.optional_object(json)? {
             if let Value::Object(obj) = v {
                 let target = if let Some(Value::String(target)) = obj.get(ADD_SHAPE_KEY_TARGET) {
@@ -246,7 +249,11 @@ impl JsonReader {
                     )
                     .into());
                 };
-                let mut member = MemberShape::new(Identifier::from_str(k)?, target);
+                let name = Identifier::from_str(k)?;
+                if !names.insert(name.clone()) {
+                    return self.repeated(k);
+                }
+                let mut member = MemberShape::new(name, target);
                 member.append_traits(&self.traits(obj.get(ADD_SHAPE_KEY_TRAITS))?)?;
                 members.push(member);
             } else {
@@ -268,7 +275,9 @@ impl JsonReader {
                 for (obj_key, obj) in ms {
                     let key = ShapeID::from_str(obj_key)?;
                     let value = Identifier::from_str(&self.string_value(obj)?)?;
-                    let _ = hash.insert(key, value);
+                    if hash.insert(key, value).is_some() {
+                        return self.repeated(obj_key);
+                    }
                 }
                 Ok(hash)
             } else {
@@ -294,7 +303,9 @@ impl JsonReader {
                 for (obj_key, obj) in ms {
                     let key = Identifier::from_str(obj_key)?;
                     let value = self.target(Some(obj))?;
-                    let _ = hash.insert(key, value);
+                    if hash.insert(key, value).is_some() {
+                        return self.repeated(obj_key);
+                    }
                 }
                 Ok(hash)
             } else {
@@ -389,6 +400,16 @@ impl JsonReader {
         }
     }
 
+    /// The same name, in other letter case, is a key of the same object.
+    fn repeated<T>(&self, key: &str) -> ModelResult<T> {
+        Err(ErrorKind::Deserialization(
+            REPRESENTATION_NAME.to_string(),
+            "JsonReader::repeated".to_string(),
+            Some(key.to_string()),
+        )
+        .into())
+    }
+
     fn string_value(&self, value: &Value) -> ModelResult<String> {
         if let Value::String(value) = value {
             Ok(value.clone())
-- 
2.43.0


From c3432ed9c6b1be4a4d2596d0e231a67c22e3c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:56 +0000
Subject: [PATCH 44/50] fix: the identifier of a member is no shape that a JSON
 model can define or refer to

---
 atelier-json/src/reader.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/atelier-json/src/reader.rs b/atelier-json/src/reader.rs
index d3815ae..bf1f84c 100644
--- a/atelier-json/src/reader.rs
+++ b/atelier-json/src/reader.rs
@@ -117,6 +117,9 @@ impl JsonReader {
         for (k, v) in self.optional_object(json)? {
             let id = ShapeID::from_str(k)?;
             let inner = self.shape(v)?;
+            if id.is_member() && !matches!(inner, ShapeKind::Unresolved) {
+                return Err(ErrorKind::ShapeIDExpected(id).into());
+            }
             let mut shape = TopLevelShape::new(id.clone(), inner);
             shape.append_traits(&self.traits(v.get(ADD_SHAPE_KEY_TRAITS))?)?;
             shapes.push((id.namespace().clone(), shape))
@@ -225,7 +228,7 @@ impl JsonReader {
     fn traits(&self, json: Option<&Value>) -> ModelResult<AppliedTraits> {
         let mut traits: AppliedTraits = Default::default();
         for (k, v) in self.optional_object(json)? {
-            let id = ShapeID::from_str(k)?;
+            let id = self.shape_id(k)?;
             let inner = self.value(v)?;
             if traits.insert(id, Some(inner)).is_some() {
                 return self.repeated(k);
@@ -240,7 +243,7 @@ impl JsonReader {
         for (k, v) in self.optional_object(json)? {
             if let Value::Object(obj) = v {
                 let target = if let Some(Value::String(target)) = obj.get(ADD_SHAPE_KEY_TARGET) {
-                    ShapeID::from_str(target)?
+                    self.shape_id(target)?
                 } else {
                     return Err(ErrorKind::Deserialization(
                         REPRESENTATION_NAME.to_string(),
@@ -273,7 +276,7 @@ impl JsonReader {
             let mut hash: HashMap<ShapeID, Identifier> = Default::default();
             if let Value::Object(ms) = member {
                 for (obj_key, obj) in ms {
-                    let key = ShapeID::from_str(obj_key)?;
+                    let key = self.shape_id(obj_key)?;
                     let value = Identifier::from_str(&self.string_value(obj)?)?;
                     if hash.insert(key, value).is_some() {
                         return self.repeated(obj_key);
@@ -353,7 +356,7 @@ impl JsonReader {
     fn target(&self, member: Option<&Value>) -> ModelResult<ShapeID> {
         if let Some(Value::Object(ms)) = member {
             if let Some(Value::String(target_id)) = ms.get(ADD_SHAPE_KEY_TARGET) {
-                return ShapeID::from_str(target_id);
+                return self.shape_id(target_id);
             }
         }
         Err(ErrorKind::Deserialization(
@@ -369,7 +372,7 @@ impl JsonReader {
             if let Some(Value::String(target_id)) = ms.get(ADD_SHAPE_KEY_TARGET) {
                 let mut member_shape = MemberShape::new(
                     Identifier::new_unchecked(name),
-                    ShapeID::from_str(target_id)?,
+                    self.shape_id(target_id)?,
                 );
                 member_shape.append_traits(&self.traits(ms.get(ADD_SHAPE_KEY_TRAITS))?)?;
                 return Ok(member_shape);
@@ -400,6 +403,16 @@ impl JsonReader {
         }
     }
 
+    /// The identifier of a shape, members are not shapes.
+    fn shape_id(&self, id: &str) -> ModelResult<ShapeID> {
+        let id = ShapeID::from_str(id)?;
+        if id.is_member() {
+            Err(ErrorKind::ShapeIDExpected(id).into())
+        } else {
+            Ok(id)
+        }
+    }
+
     /// The same name, in other letter case, is a key of the same object.
     fn repeated<T>(&self, key: &str) -> ModelResult<T> {
         Err(ErrorKind::Deserialization(
-- 
2.43.0


From 19f9da4fc128ad51163c95b9702b6f9b1a5e8cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 45/50] fix: a number in an IDL text ends where its digits end,
 the rest is not read as another value

---
 atelier-smithy/src/smithy.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atelier-smithy/src/smithy.pest b/atelier-smithy/src/smithy.pest
index a243bbb..39d9f1a 100644
--- a/atelier-smithy/src/smithy.pest
+++ b/atelier-smithy/src/smithy.pest
@@ -85,7 +85,7 @@ node_object_key =
     _{ quoted_text | identifier }
 
 number =
-    { minus? ~ int ~ frac? ~ exp?}
+    { minus? ~ int ~ frac? ~ exp? ~ !(identifier_char | ".") }
 
 decimal_point =
     { "."}
-- 
2.43.0


From 90eb3e60ff50ea2799d64e517b07bb0d56714866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:07 +0000
Subject: [PATCH 46/50] fix: an IDL text that gives one name two values is
 refused, none of them is dropped

---
 atelier-smithy/src/parser/smithy.rs | 48 ++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 8b2f2b0..4a2d902 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -22,7 +22,7 @@ use atelier_core::Version;
 use pest::error::Error as PestError;
 use pest::iterators::Pair;
 use pest::Parser;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::convert::TryInto;
 use std::io::Write;
 use std::str::FromStr;
@@ -115,7 +115,7 @@ fn parse_control_section(input_pair: Pair<'_, Rule>) -> ModelResult<ValueMap> {
             Rule::control_statement,
             parse_node_object_kvp
         );
-        let _ = map.insert(unquoted_key(key), value);
+        insert_once(&mut map, unquoted_key(key), value)?;
     }
     Ok(map)
 }
@@ -136,6 +136,23 @@ fn parse_metadata_section(input_pair: Pair<'_, Rule>) -> ModelResult<Vec<(String
     Ok(statements)
 }
 
+/// A key has one value, a text that gives it another contradicts itself.
+fn insert_once(map: &mut ValueMap, key: String, value: NodeValue) -> ModelResult<()> {
+    if map.contains_key(&key) {
+        repeated(&key)
+    } else {
+        let _ = map.insert(key, value);
+        Ok(())
+    }
+}
+
+fn repeated<T>(key: &dyn std::fmt::Debug) -> ModelResult<T> {
+    ParserError::new("repeated")
+        .expecting("a name that is not repeated")
+        .debug_context(&key)
+        .into()
+}
+
 /// The name of a control or metadata key, without the quotes it may have been written in.
 fn unquoted_key(key: String) -> String {
     match key.strip_prefix('"').and_then(|key| key.strip_suffix('"')) {
@@ -323,12 +340,12 @@ fn parse_a_trait(input_pair: Pair<'_, Rule>) -> ModelResult<TraitBuilder> {
             Rule::shape_id => {
                 id = Some(valid_shape_name(inner.as_str())?.to_string());
             }
-            Rule::node_value => {
+            Rule::node_value if node_value.is_none() => {
                 node_value = Some(parse_node_value(inner)?);
             }
             Rule::trait_structure_kvp => {
                 let (id, value) = parse_trait_structure_kvp(inner)?;
-                let _ = members.insert(id, value);
+                insert_once(&mut members, id, value)?;
             }
             _ => unexpected!("parse_a_trait", inner),
         }
@@ -449,9 +466,9 @@ fn parse_map_statement(input_pair: Pair<'_, Rule>) -> ModelResult<MapBuilder> {
     let mut key: Option<MemberBuilder> = None;
     let mut value: Option<MemberBuilder> = None;
     for member in members {
-        if member.name() == &Identifier::new_unchecked(MEMBER_KEY) {
+        if key.is_none() && member.name() == &Identifier::new_unchecked(MEMBER_KEY) {
             key = Some(member)
-        } else if member.name() == &Identifier::new_unchecked(MEMBER_VALUE) {
+        } else if value.is_none() && member.name() == &Identifier::new_unchecked(MEMBER_VALUE) {
             value = Some(member)
         } else {
             return ParserError::new("parse_map_statement")
@@ -598,8 +615,13 @@ fn parse_service_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ServiceBui
                 }
                 MEMBER_RENAME => {
                     if let NodeValue::Object(renames) = value {
+                        let mut renamed: HashSet<ShapeID> = Default::default();
                         for (shape_id, local_name) in renames {
-                            let shape_id = ShapeID::from_str(&unquoted_key(shape_id))?;
+                            let shape_id = unquoted_key(shape_id);
+                            let shape_id = ShapeID::from_str(valid_shape_name(&shape_id)?)?;
+                            if !renamed.insert(shape_id.clone()) {
+                                return repeated(&shape_id);
+                            }
                             let local_name = Identifier::from_str(shape_name(&local_name)?)?;
                             let _ = service.rename(&shape_id.to_string(), &local_name.to_string());
                         }
@@ -672,9 +694,13 @@ fn parse_resource_statement(input_pair: Pair<'_, Rule>) -> ModelResult<ResourceB
             match key.as_str() {
                 MEMBER_IDENTIFIERS => {
                     if let NodeValue::Object(identifiers) = value {
+                        let mut identified: HashSet<Identifier> = Default::default();
                         for (id, target) in identifiers {
-                            let id = Identifier::from_str(&unquoted_key(id))?.to_string();
-                            let _ = resource.identifier(&id, shape_name(&target)?);
+                            let id = Identifier::from_str(&unquoted_key(id))?;
+                            if !identified.insert(id.clone()) {
+                                return repeated(&id);
+                            }
+                            let _ = resource.identifier(&id.to_string(), shape_name(&target)?);
                         }
                     } else {
                         return ParserError::unreachable("parse_resource_statement")
@@ -761,7 +787,7 @@ fn parse_id_and_object(input_pair: Pair<'_, Rule>) -> ModelResult<(String, NodeV
                 let mut object = ValueMap::new();
                 for inner in inner.into_inner() {
                     let (key, value) = parse_node_object_kvp(inner)?;
-                    let _ = object.insert(unquoted_key(key), value);
+                    insert_once(&mut object, unquoted_key(key), value)?;
                 }
                 node_value = Some(NodeValue::Object(object));
             }
@@ -893,7 +919,7 @@ fn parse_node_object(input_pair: Pair<'_, Rule>) -> ModelResult<NodeValue> {
         match inner.as_rule() {
             Rule::node_object_kvp => {
                 let (key, value) = parse_node_object_kvp(inner)?;
-                let _ = object.insert(key, value);
+                insert_once(&mut object, key, value)?;
             }
             _ => unexpected!("parse_node_object", inner),
         }
-- 
2.43.0


From 15e9660f67472a14673fbf63e087da5e87961026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:07 +0000
Subject: [PATCH 47/50] fix: an IDL text in a version that is not supported is
 refused, however the version is written

---
 atelier-smithy/src/parser/smithy.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/atelier-smithy/src/parser/smithy.rs b/atelier-smithy/src/parser/smithy.rs
index 4a2d902..a310b87 100644
--- a/atelier-smithy/src/parser/smithy.rs
+++ b/atelier-smithy/src/parser/smithy.rs
@@ -78,10 +78,14 @@ fn parse_idl(input_pair: Pair<'_, Rule>) -> ModelResult<Model> {
                 Rule::control_section,
                 parse_control_section
             );
-            let version = if let Some(NodeValue::String(version)) = control_data.get("version") {
-                Version::from_str(version)?
-            } else {
-                Version::default()
+            let version = match control_data.get("version") {
+                None => Version::default(),
+                Some(NodeValue::String(version)) => Version::from_str(version)?,
+                // the early form of the statement had a number, not a string.
+                Some(NodeValue::Number(version)) => Version::from_str(&version.to_string())?,
+                Some(version) => {
+                    return Err(ErrorKind::InvalidVersionNumber(Some(version.to_string())).into())
+                }
             };
             let meta_data = next_pair_into!(
                 "parse_idl",
-- 
2.43.0


From 82cb1b12de078fbfdaff828713f3494a0ca1d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:56 +0000
Subject: [PATCH 48/50] fix: documentation lists the values within a trait with
 their whole path

---
 atelier-describe/src/document/writer.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/atelier-describe/src/document/writer.rs b/atelier-describe/src/document/writer.rs
index 8c0ec26..f6ed94c 100644
--- a/atelier-describe/src/document/writer.rs
+++ b/atelier-describe/src/document/writer.rs
@@ -205,26 +205,28 @@ fn trait_value(
         Value::String(v) => result.push((id, prefix, Some(v.to_string()))),
         Value::Array(vs) => {
             if vs.is_empty() {
-                result.push((id, None, None))
+                result.push((id, prefix, None))
             } else {
+                let prefix = prefix.unwrap_or_default();
                 for (i, v) in vs.iter().enumerate() {
-                    result.extend(trait_value(id.clone(), Some(format!("[{}]", i)), v));
+                    result.extend(trait_value(id.clone(), Some(format!("{}[{}]", prefix, i)), v));
                 }
             }
         }
         Value::Object(vs) => {
             if vs.is_empty() {
-                result.push((id, None, None))
+                result.push((id, prefix, None))
             } else {
+                let prefix = prefix.unwrap_or_default();
                 let mut obj_keys: Vec<&String> = vs.keys().collect();
                 obj_keys.sort();
                 for k in obj_keys {
                     let v = vs.get(k).unwrap();
-                    result.extend(trait_value(id.clone(), Some(format!(".{}", k)), v));
+                    result.extend(trait_value(id.clone(), Some(format!("{}.{}", prefix, k)), v));
                 }
             }
         }
-        _ => result.push((id, None, None)),
+        _ => result.push((id, prefix, None)),
     }
     result
 }
-- 
2.43.0


From 97d3cd65dfcd48fbb9b86bd58bff83a652c1f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:55 +0000
Subject: [PATCH 49/50] fix: number comparisons of scoped attributes hold the
 number given, not its text

---
 atelier-core/src/builder/selector.rs   | 8 ++++----
 atelier-core/src/model/selector/mod.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/atelier-core/src/builder/selector.rs b/atelier-core/src/builder/selector.rs
index a26ae51..3e3795e 100644
--- a/atelier-core/src/builder/selector.rs
+++ b/atelier-core/src/builder/selector.rs
@@ -1074,7 +1074,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
@@ -1083,7 +1083,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
@@ -1092,7 +1092,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
@@ -1101,7 +1101,7 @@ impl ScopedAttributeBuilder {
         self.assertion(ScopedAttributeAssertion::new(
             lhs,
             Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         ))
     }
 
diff --git a/atelier-core/src/model/selector/mod.rs b/atelier-core/src/model/selector/mod.rs
index 1af74f9..cfbe916 100644
--- a/atelier-core/src/model/selector/mod.rs
+++ b/atelier-core/src/model/selector/mod.rs
@@ -1283,7 +1283,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberGreaterThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         )
     }
 
@@ -1292,7 +1292,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberGreaterOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         )
     }
 
@@ -1301,7 +1301,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberLessThan,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         )
     }
 
@@ -1310,7 +1310,7 @@ impl ScopedAttributeAssertion {
         Self::new(
             lhs,
             Comparator::NumberLessOrEqual,
-            &[Value::Text(rhs.to_string()).into()],
+            &[rhs.into()],
         )
     }
 
-- 
2.43.0


From 08bce1853a311c8af229b5811dad8fa1d3a3afad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:14 +0000
Subject: [PATCH 50/50] fix: register_all also registers the MIME type, as
 register does

---
 atelier-assembler/src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/atelier-assembler/src/lib.rs b/atelier-assembler/src/lib.rs
index 98a3d48..7e62ee7 100644
--- a/atelier-assembler/src/lib.rs
+++ b/atelier-assembler/src/lib.rs
@@ -247,9 +247,7 @@ impl FileTypeRegistry {
     ///
     pub fn register_all(&mut self, file_type: Rc<FileType>, extensions: &[&str]) {
         for extension in extensions {
-            let _ = self
-                .by_extension
-                .insert(extension.to_lowercase(), file_type.clone());
+            self.register(file_type.clone(), extension);
         }
     }
 
-- 
2.43.0

