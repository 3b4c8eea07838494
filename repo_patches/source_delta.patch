From bb52b6caabac73f912de253f9d65059ad41050f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:14 +0000
Subject: [PATCH 01/71] fix: report errors met while reading entities and
 objects instead of dropping the item

---
 src/entity_iter.rs | 7 ++++++-
 src/object_iter.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index a038f93..fbe0605 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -15,7 +15,12 @@ impl Iterator for EntityIter<'_> {
     fn next(&mut self) -> Option<Entity> {
         match Entity::read(self.iter) {
             Ok(Some(e)) => Some(e),
-            Ok(None) | Err(_) => None,
+            Ok(None) => None,
+            Err(e) => {
+                // let the section reader see (and report) the error
+                self.iter.put_back(Err(e));
+                None
+            }
         }
     }
 }
diff --git a/src/object_iter.rs b/src/object_iter.rs
index 007c6c9..4144182 100644
--- a/src/object_iter.rs
+++ b/src/object_iter.rs
@@ -11,7 +11,12 @@ impl Iterator for ObjectIter<'_> {
     fn next(&mut self) -> Option<Object> {
         match Object::read(self.iter) {
             Ok(Some(o)) => Some(o),
-            Ok(None) | Err(_) => None,
+            Ok(None) => None,
+            Err(e) => {
+                // let the section reader see (and report) the error
+                self.iter.put_back(Err(e));
+                None
+            }
         }
     }
 }
-- 
2.43.0


From ae6b0759ffbca6a1efb6516d79b6cc25dfd7cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:16 +0000
Subject: [PATCH 02/71] fix: keep the handles of attributes, vertices, seqends
 and block entities when loading

---
 src/block.rs       |  5 ++--
 src/drawing.rs     | 57 ++++++++++++++++++++++++++++++++--------------
 src/entity_iter.rs | 42 ++++++++++++++++++++++------------
 3 files changed, 69 insertions(+), 35 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index b3c92d4..f589714 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -148,10 +148,9 @@ impl Block {
                             }
 
                             if current.handle.is_empty() {
-                                drawing.add_block(current);
-                            } else {
-                                drawing.add_block_no_handle_set(current);
+                                current.handle = drawing.next_handle();
                             }
+                            drawing.add_block_no_handle_set(current);
                             break;
                         }
                         CodePair { code: 0, .. } => {
diff --git a/src/drawing.rs b/src/drawing.rs
index a41e17b..c60e61f 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -392,6 +392,9 @@ impl Drawing {
     /// Add a block to the `Drawing`.
     pub fn add_block(&mut self, mut block: Block) -> &Block {
         block.handle = self.next_handle();
+        for ent in &mut block.entities {
+            ent.common.handle = Handle::empty(); // always assign new handles
+        }
         self.add_block_no_handle_set(block)
     }
     /// Removes the specified `Block` from the `Drawing`.
@@ -412,24 +415,11 @@ impl Drawing {
 
         // set child handles
         match entity.specific {
-            EntityType::Insert(ref mut ins) => {
-                ins.__seqend_handle = self.next_handle();
-                for a in ins.__attributes_and_handles.iter_mut() {
-                    if a.1 == AUTO_REPLACE_HANDLE {
-                        a.1 = self.next_handle();
-                    }
-                }
-            }
-            EntityType::Polyline(ref mut poly) => {
-                poly.__seqend_handle = self.next_handle();
-                for v in poly.__vertices_and_handles.iter_mut() {
-                    if v.1 == AUTO_REPLACE_HANDLE {
-                        v.1 = self.next_handle();
-                    }
-                }
-            }
+            EntityType::Insert(ref mut ins) => ins.__seqend_handle = self.next_handle(),
+            EntityType::Polyline(ref mut poly) => poly.__seqend_handle = self.next_handle(),
             _ => (),
         }
+        self.ensure_child_handles_are_set(&mut entity);
 
         // ensure invariants
         self.add_entity_no_handle_set(entity)
@@ -671,6 +661,34 @@ impl Drawing {
         self.__blocks.push(block);
         self.__blocks.last().unwrap()
     }
+    /// Sets any missing handles of an `INSERT` or `POLYLINE`'s dependent entities.
+    fn ensure_child_handles_are_set(&mut self, entity: &mut Entity) {
+        let (seqend_handle, child_handles): (_, Vec<_>) = match entity.specific {
+            EntityType::Insert(ref mut ins) => (
+                &mut ins.__seqend_handle,
+                ins.__attributes_and_handles
+                    .iter_mut()
+                    .map(|a| &mut a.1)
+                    .collect(),
+            ),
+            EntityType::Polyline(ref mut poly) => (
+                &mut poly.__seqend_handle,
+                poly.__vertices_and_handles
+                    .iter_mut()
+                    .map(|v| &mut v.1)
+                    .collect(),
+            ),
+            _ => return,
+        };
+        if seqend_handle.is_empty() {
+            *seqend_handle = self.next_handle();
+        }
+        for handle in child_handles {
+            if *handle == AUTO_REPLACE_HANDLE {
+                *handle = self.next_handle();
+            }
+        }
+    }
     fn add_entity_no_handle_set(&mut self, entity: Entity) -> &Entity {
         self.ensure_mline_style_is_present_for_entity(&entity);
         self.ensure_dimension_style_is_present_for_entity(&entity);
@@ -833,7 +851,10 @@ impl Drawing {
     }
     fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
         for ent in &mut block.entities {
-            ent.common.handle = self.next_handle();
+            if ent.common.handle.is_empty() {
+                ent.common.handle = self.next_handle();
+            }
+            self.ensure_child_handles_are_set(ent);
         }
     }
     fn ensure_line_type_is_present_for_object(&mut self, obj: &Object) {
@@ -1071,6 +1092,8 @@ impl Drawing {
             if e.common.handle.is_empty() {
                 self.add_entity(e);
             } else {
+                let mut e = e;
+                self.ensure_child_handles_are_set(&mut e);
                 self.add_entity_no_handle_set(e);
             }
         }
diff --git a/src/entity_iter.rs b/src/entity_iter.rs
index fbe0605..a84a6ea 100644
--- a/src/entity_iter.rs
+++ b/src/entity_iter.rs
@@ -1,7 +1,7 @@
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::drawing::AUTO_REPLACE_HANDLE;
 use crate::entities::*;
-use crate::DxfResult;
+use crate::{DxfResult, Handle};
 
 use itertools::{put_back, PutBack};
 
@@ -35,22 +35,29 @@ pub(crate) fn collect_entities<I>(iter: &mut I, entities: &mut Vec<Entity>) -> D
 where
     I: Iterator<Item = Entity>,
 {
-    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<()>
+    fn swallow_seqend<I>(iter: &mut PutBack<I>) -> DxfResult<Handle>
     where
         I: Iterator<Item = Entity>,
     {
         match iter.next() {
             Some(Entity {
+                common,
                 specific: EntityType::Seqend(_),
-                ..
-            }) => (),
+            }) => Ok(common.handle),
             Some(ent) => {
                 iter.put_back(ent);
+                Ok(Handle::empty())
             }
-            None => (),
+            None => Ok(Handle::empty()),
         }
+    }
 
-        Ok(())
+    fn child_handle(handle: Handle) -> Handle {
+        if handle.is_empty() {
+            AUTO_REPLACE_HANDLE
+        } else {
+            handle
+        }
     }
 
     fn mtext<I>(iter: &mut PutBack<I>) -> DxfResult<Option<MText>>
@@ -115,11 +122,16 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
-                            specific: EntityType::Attribute(att),
-                            ..
-                        }) => ins
-                            .__attributes_and_handles
-                            .push((att, AUTO_REPLACE_HANDLE)),
+                            common,
+                            specific: EntityType::Attribute(mut att),
+                        }) => {
+                            if let Some(m_text) = mtext(&mut iter)? {
+                                att.m_text = m_text;
+                            }
+
+                            ins.__attributes_and_handles
+                                .push((att, child_handle(common.handle)));
+                        }
                         Some(ent) => {
                             // stop gathering on any non-ATTRIBUTE
                             iter.put_back(ent);
@@ -129,7 +141,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                ins.__seqend_handle = swallow_seqend(&mut iter)?;
 
                 // and finally keep the INSERT
                 entities.push(Entity {
@@ -145,11 +157,11 @@ where
                 loop {
                     match iter.next() {
                         Some(Entity {
+                            common,
                             specific: EntityType::Vertex(vertex),
-                            ..
                         }) => poly
                             .__vertices_and_handles
-                            .push((vertex, AUTO_REPLACE_HANDLE)),
+                            .push((vertex, child_handle(common.handle))),
                         Some(ent) => {
                             // stop gathering on any non-VERTEX
                             iter.put_back(ent);
@@ -159,7 +171,7 @@ where
                     }
                 }
 
-                swallow_seqend(&mut iter)?;
+                poly.__seqend_handle = swallow_seqend(&mut iter)?;
 
                 // and finally keep the POLYLINE
                 entities.push(Entity {
-- 
2.43.0


From 8692d3ce121e376a575ee7c3de34613f49e470a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:42 +0000
Subject: [PATCH 03/71] fix: do not add a second block record for a block that
 already has one

---
 src/drawing.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index c60e61f..2bbfbc9 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -656,7 +656,7 @@ impl Drawing {
     pub(crate) fn add_block_no_handle_set(&mut self, mut block: Block) -> &Block {
         self.ensure_layer_is_present_for_block(&block);
         self.ensure_line_type_is_present_for_block(&block);
-        self.ensure_block_record_is_present_for_block(&mut block);
+        self.ensure_block_record_is_present(&block.name);
         self.ensure_block_entity_handles_are_set(&mut block);
         self.__blocks.push(block);
         self.__blocks.last().unwrap()
@@ -843,12 +843,6 @@ impl Drawing {
             self.ensure_line_type_is_present(&ent.common.line_type_name);
         }
     }
-    fn ensure_block_record_is_present_for_block(&mut self, block: &mut Block) {
-        self.add_block_record(BlockRecord {
-            name: String::from(&block.name),
-            ..Default::default()
-        });
-    }
     fn ensure_block_entity_handles_are_set(&mut self, block: &mut Block) {
         for ent in &mut block.entities {
             if ent.common.handle.is_empty() {
-- 
2.43.0


From 1889e7c48933a2d0b96f924bb46e43841644b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:50 +0000
Subject: [PATCH 04/71] fix: write multiline vertices, segment and miter
 directions with the codes the reader expects

---
 spec/EntitiesSpec.xml | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index 9f17b24..a74ec6b 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -682,20 +682,20 @@
       <WriteField Field="start_point" />
       <WriteField Field="normal" />
       <Foreach Field="ent.vertices">
-        <WriteSpecificValue Code="10" Value="item.x" />
-        <WriteSpecificValue Code="20" Value="item.y" />
-        <WriteSpecificValue Code="30" Value="item.z" />
-      </Foreach>
-      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="11" Value="item.x" />
         <WriteSpecificValue Code="21" Value="item.y" />
         <WriteSpecificValue Code="31" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.miter_directions">
+      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="12" Value="item.x" />
         <WriteSpecificValue Code="22" Value="item.y" />
         <WriteSpecificValue Code="32" Value="item.z" />
       </Foreach>
+      <Foreach Field="ent.miter_directions">
+        <WriteSpecificValue Code="13" Value="item.x" />
+        <WriteSpecificValue Code="23" Value="item.y" />
+        <WriteSpecificValue Code="33" Value="item.z" />
+      </Foreach>
       <WriteSpecificValue Code="74" Value="ent.parameters.len() as i16" />
       <WriteField Field="parameters" />
       <WriteSpecificValue Code="75" Value="ent.area_fill_parameters.len() as i16" />
-- 
2.43.0


From 37b7bb7346571fc10be6c153e39b9b2be7961a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:00 +0000
Subject: [PATCH 05/71] fix: write the y value of underlay points with code 21

---
 spec/EntitiesSpec.xml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index a74ec6b..a4ce067 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -1164,7 +1164,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1202,7 +1202,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1240,7 +1240,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="12" Value="item.y" />
+        <WriteSpecificValue Code="21" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
-- 
2.43.0


From 0a97ea69ecbae15a97791c634ff1f7c3fdb43b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:10 +0000
Subject: [PATCH 06/71] fix: read the y value of wipeout clipping vertices from
 code 24

---
 spec/EntitiesSpec.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index a4ce067..f87ecca 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -1302,7 +1302,7 @@
     <Field Name="clipping_type" Code="71" Type="ImageClippingBoundaryType" DefaultValue="ImageClippingBoundaryType::Rectangular" ReadConverter="enum_from_number!(ImageClippingBoundaryType, Rectangular, from_i16, {})" WriteConverter="{} as i16" />
     <Field Name="clipping_vertex_count" Code="91" Type="i32" DefaultValue="0" />
     <Field Name="__clipping_vertices_x" Code="14" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
-    <Field Name="__clipping_vertices_y" Code="12" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
+    <Field Name="__clipping_vertices_y" Code="24" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
     <Field Name="clipping_vertices" Code="14" Type="Point" DefaultValue="vec![]" AllowMultiples="true" GenerateReader="false" />
     <Field Name="is_inside_clipping" Code="290" Type="bool" DefaultValue="false" MinVersion="R2010" />
     <WriteOrder>
-- 
2.43.0


From aa7b6c12d9708c5b4e792533e001498eee9c63b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:30 +0000
Subject: [PATCH 07/71] fix: write an entity's XDATA before its dependent
 entities

---
 src/entity.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index c2eeb9e..09e1e95 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1305,10 +1305,11 @@ impl Entity {
                 self.specific.add_code_pairs(pairs, &self.common, version);
             }
 
-            self.add_post_code_pairs(pairs, version, write_handles);
             for x in &self.common.x_data {
                 x.add_code_pairs(pairs, version);
             }
+
+            self.add_post_code_pairs(pairs, version, write_handles);
         }
     }
     fn add_custom_code_pairs(&self, pairs: &mut Vec<CodePair>, version: AcadVersion) -> bool {
-- 
2.43.0


From 16ede5429bd554c405480c97a60afd7c1795c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:38 +0000
Subject: [PATCH 08/71] fix: do not write the AcDbVertex subclass marker before
 R13

---
 src/entity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 09e1e95..980ab10 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1493,13 +1493,13 @@ impl Entity {
         v: &Vertex,
         version: AcadVersion,
     ) -> bool {
-        pairs.push(CodePair::new_str(100, "AcDbVertex"));
         let subclass_marker = if v.is_3d_polyline_vertex() || v.is_3d_polygon_mesh() {
             "AcDb3dPolylineVertex"
         } else {
             "AcDb2dVertex"
         };
         if version >= AcadVersion::R13 {
+            pairs.push(CodePair::new_str(100, "AcDbVertex"));
             pairs.push(CodePair::new_str(100, subclass_marker));
         }
         pairs.push(CodePair::new_f64(10, v.location.x));
-- 
2.43.0


From 61d98d1f3d8615e658e8973484eb74d7a424b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:15 +0000
Subject: [PATCH 09/71] fix: read dimensions of files without subclass markers
 (before R13)

---
 src/entity.rs | 49 ++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 980ab10..1cecb04 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -233,6 +233,35 @@ impl Vertex {
 //                                                                    EntityType
 //------------------------------------------------------------------------------
 impl EntityType {
+    fn from_dimension_base(dimension_base: DimensionBase) -> Option<EntityType> {
+        match dimension_base.dimension_type {
+            DimensionType::RotatedHorizontalOrVertical | DimensionType::Aligned => {
+                Some(EntityType::RotatedDimension(RotatedDimension {
+                    dimension_base,
+                    ..Default::default()
+                }))
+            }
+            DimensionType::Diameter => Some(EntityType::DiameterDimension(DiameterDimension {
+                dimension_base,
+                ..Default::default()
+            })),
+            DimensionType::Radius => Some(EntityType::RadialDimension(RadialDimension {
+                dimension_base,
+                ..Default::default()
+            })),
+            DimensionType::AngularThreePoint => Some(EntityType::AngularThreePointDimension(
+                AngularThreePointDimension {
+                    dimension_base,
+                    ..Default::default()
+                },
+            )),
+            DimensionType::Ordinate => Some(EntityType::OrdinateDimension(OrdinateDimension {
+                dimension_base,
+                ..Default::default()
+            })),
+            DimensionType::Angular => None, // not supported
+        }
+    }
     fn apply_dimension_code_pair(&mut self, pair: &CodePair) -> DxfResult<bool> {
         match *self {
             EntityType::RotatedDimension(ref mut dim) => match pair.code {
@@ -422,6 +451,8 @@ impl Entity {
                             let mut common = EntityCommon::default();
                             let mut dimension_entity: Option<EntityType> = None;
                             let mut dimension_base = DimensionBase::default();
+                            let mut untyped_pairs = vec![];
+                            let mut is_unsupported_type = false;
                             loop {
                                 match iter.next() {
                                     Some(Ok(pair @ CodePair { code: 0, .. })) => {
@@ -584,12 +615,17 @@ impl Entity {
                                                                     ),
                                                                 );
                                                             }
-                                                            _ => {} // unexpected dimension type
+                                                            "AcDbEntity" | "AcDbDimension" => {}
+                                                            _ => {
+                                                                // unexpected dimension type
+                                                                is_unsupported_type = true;
+                                                            }
                                                         }
                                                     }
                                                     _ => {
                                                         common
                                                             .apply_individual_pair(&pair, iter)?;
+                                                        untyped_pairs.push(pair);
                                                     }
                                                 }
                                             }
@@ -600,6 +636,17 @@ impl Entity {
                                 }
                             }
 
+                            if dimension_entity.is_none() && !is_unsupported_type {
+                                // before R13 there are no subclass markers, only the dimension type
+                                dimension_entity =
+                                    EntityType::from_dimension_base(dimension_base);
+                                if let Some(ref mut dim) = dimension_entity {
+                                    for pair in &untyped_pairs {
+                                        dim.apply_dimension_code_pair(pair)?;
+                                    }
+                                }
+                            }
+
                             match dimension_entity {
                                 Some(dim) => {
                                     return Ok(Some(Entity {
-- 
2.43.0


From 6b0cf9960dddbccaec689996e5ca787abd8d9a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:13 +0000
Subject: [PATCH 10/71] fix: read the common values of entities that re-use
 their codes from the AcDbEntity subclass

---
 src/entity.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 1cecb04..e2f1acb 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -416,6 +416,15 @@ impl EntityCommon {
     pub fn normalize(&mut self) {
         default_if_empty(&mut self.layer, "0");
     }
+    /// Some entities re-use the codes of the common values; in front of and in the `AcDbEntity`
+    /// subclass those codes are the common values.
+    fn is_common_code_pair(pair: &CodePair, subclass_marker: Option<&str>) -> bool {
+        match subclass_marker {
+            None => pair.code == 330,
+            Some("AcDbEntity") => matches!(pair.code, 48 | 92 | 310 | 420 | 430),
+            Some(_) => false,
+        }
+    }
 }
 
 //------------------------------------------------------------------------------
@@ -665,6 +674,7 @@ impl Entity {
                                     let mut entity = Entity::new(e);
                                     if !entity.apply_custom_reader(iter)? {
                                         // no custom reader, use the auto-generated one
+                                        let mut subclass_marker = None;
                                         loop {
                                             match iter.next() {
                                                 Some(Ok(pair @ CodePair { code: 0, .. })) => {
@@ -673,7 +683,21 @@ impl Entity {
                                                     break;
                                                 }
                                                 Some(Ok(pair)) => {
-                                                    entity.apply_code_pair(&pair, iter)?
+                                                    if pair.code == 100 {
+                                                        subclass_marker =
+                                                            Some(pair.assert_string()?);
+                                                    }
+
+                                                    if EntityCommon::is_common_code_pair(
+                                                        &pair,
+                                                        subclass_marker.as_deref(),
+                                                    ) {
+                                                        entity
+                                                            .common
+                                                            .apply_individual_pair(&pair, iter)?
+                                                    } else {
+                                                        entity.apply_code_pair(&pair, iter)?
+                                                    }
                                                 }
                                                 Some(Err(e)) => return Err(e),
                                                 None => return Err(DxfError::UnexpectedEndOfInput),
@@ -1209,9 +1233,17 @@ impl Entity {
     ) -> DxfResult<bool> {
         let mut reading_column_data = false;
         let mut read_column_count = false;
+        let mut subclass_marker = None;
         loop {
             let pair = next_pair!(iter);
+            if EntityCommon::is_common_code_pair(&pair, subclass_marker.as_deref()) {
+                common.apply_individual_pair(&pair, iter)?;
+                continue;
+            }
             match pair.code {
+                100 => {
+                    subclass_marker = Some(pair.assert_string()?);
+                }
                 10 => {
                     mtext.insertion_point.x = pair.assert_f64()?;
                 }
-- 
2.43.0


From 2412d6b6fc1212349d321ec20988ab3c19b66496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:07 +0000
Subject: [PATCH 11/71] fix: assemble the values of materials and multiline
 styles after their custom readers

---
 src/object.rs | 70 ++++++++++++++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 3d7c896..85b6d67 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -121,10 +121,9 @@ impl Object {
                                         None => return Err(DxfError::UnexpectedEndOfInput),
                                     }
                                 }
-
-                                obj.post_parse()?;
                             }
 
+                            obj.post_parse()?;
                             return Ok(Some(obj));
                         }
                         None => {
@@ -209,38 +208,41 @@ impl Object {
                 );
             }
             ObjectType::Material(ref mut material) => {
-                material.diffuse_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__diffuse_map_transformation_matrix_values,
-                );
-                material.specular_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__specular_map_transformation_matrix_values,
-                );
-                material.reflection_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__reflection_map_transformation_matrix_values,
-                );
-                material.opacity_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__opacity_map_transformation_matrix_values,
-                );
-                material.bump_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__bump_map_transformation_matrix_values,
-                );
-                material.refraction_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__refraction_map_transformation_matrix_values,
-                );
-                material.normal_map_transformation_matrix = TransformationMatrix::from_vec(
-                    &material.__normal_map_transformation_matrix_values,
-                );
-                material.__diffuse_map_transformation_matrix_values.clear();
-                material.__specular_map_transformation_matrix_values.clear();
-                material
-                    .__reflection_map_transformation_matrix_values
-                    .clear();
-                material.__opacity_map_transformation_matrix_values.clear();
-                material.__bump_map_transformation_matrix_values.clear();
-                material
-                    .__refraction_map_transformation_matrix_values
-                    .clear();
-                material.__normal_map_transformation_matrix_values.clear();
+                for (matrix, values) in [
+                    (
+                        &mut material.diffuse_map_transformation_matrix,
+                        &mut material.__diffuse_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.specular_map_transformation_matrix,
+                        &mut material.__specular_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.reflection_map_transformation_matrix,
+                        &mut material.__reflection_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.opacity_map_transformation_matrix,
+                        &mut material.__opacity_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.bump_map_transformation_matrix,
+                        &mut material.__bump_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.refraction_map_transformation_matrix,
+                        &mut material.__refraction_map_transformation_matrix_values,
+                    ),
+                    (
+                        &mut material.normal_map_transformation_matrix,
+                        &mut material.__normal_map_transformation_matrix_values,
+                    ),
+                ] {
+                    if !values.is_empty() {
+                        *matrix = TransformationMatrix::from_vec(values);
+                        values.clear();
+                    }
+                }
             }
             ObjectType::MLineStyle(ref mut mline) => {
                 for (o, (c, l)) in mline.__element_offsets.drain(..).zip(
-- 
2.43.0


From ae24a22cee00f96d61012b083427e6a6669b3e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:16 +0000
Subject: [PATCH 12/71] fix: read the owner of objects that also use code 330
 for their own values

---
 src/object.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 85b6d67..13fd43c 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -109,6 +109,7 @@ impl Object {
                             let mut obj = Object::new(e);
                             if !obj.apply_custom_reader(iter)? {
                                 // no custom reader, use the auto-generated one
+                                let mut seen_subclass_marker = false;
                                 loop {
                                     match iter.next() {
                                         Some(Ok(pair @ CodePair { code: 0, .. })) => {
@@ -116,7 +117,16 @@ impl Object {
                                             iter.put_back(Ok(pair));
                                             break;
                                         }
-                                        Some(Ok(pair)) => obj.apply_code_pair(&pair, iter)?,
+                                        Some(Ok(pair @ CodePair { code: 330, .. }))
+                                            if !seen_subclass_marker =>
+                                        {
+                                            // in front of the first subclass this is always the owner
+                                            obj.common.apply_individual_pair(&pair, iter)?;
+                                        }
+                                        Some(Ok(pair)) => {
+                                            seen_subclass_marker |= pair.code == 100;
+                                            obj.apply_code_pair(&pair, iter)?;
+                                        }
                                         Some(Err(e)) => return Err(e),
                                         None => return Err(DxfError::UnexpectedEndOfInput),
                                     }
-- 
2.43.0


From 5db2e8cee5651095f63d88ab8dd66495c28f0ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:49 +0000
Subject: [PATCH 13/71] fix: write the objects of a field with the code the
 reader expects and within its subclass

---
 spec/ObjectsSpec.xml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 218bce2..83aa968 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -144,7 +144,7 @@
   FIELD
 
   -->
-  <Object Name="Field" SubclassMarker="" TypeString="FIELD" MinVersion="R2004">
+  <Object Name="Field" SubclassMarker="AcDbField" TypeString="FIELD" MinVersion="R2004">
     <Field Name="evaluator_id" Code="1" Type="String" DefaultValue="String::new()" />
     <Field Name="field_code_string" Code="2" Type="String" DefaultValue="String::new()" />
     <Field Name="field_code_string_overflow" Code="3" Type="String" DefaultValue="String::new()" />
@@ -174,6 +174,7 @@
     <Field Name="__format_string_length" Code="98" Type="i32" DefaultValue="0" />
     <Field Name="__child_field_count_value_type_code" Code="90" Type="i32" DefaultValue="vec![]" AllowMultiples="true" />
     <WriteOrder>
+      <WriteSpecificValue Code="100" Value='&amp;String::from("AcDbField")' />
       <WriteField Field="evaluator_id" />
       <WriteField Field="field_code_string" />
       <WriteField Field="field_code_string_overflow" />
@@ -188,8 +189,7 @@
       <WriteField Field="evaluation_error_code" />
       <WriteSpecificValue Code="97" Value="obj.__objects_handle.len() as i32" />
       <Foreach Field="obj.__objects_handle">
-        <WriteSpecificValue Code="330" Value="&amp;item.as_string()" MaxVersion="R2007" />
-        <WriteSpecificValue Code="331" Value="&amp;item.as_string()" MinVersion="R2010" />
+        <WriteSpecificValue Code="331" Value="&amp;item.as_string()" />
       </Foreach>
       <WriteSpecificValue Code="93" Value="obj.field_data_keys.len() as i32" />
       <WriteField Field="field_data_keys" />
-- 
2.43.0


From 16ddd7a213461cede2f28b39101596fbf5925ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:57 +0000
Subject: [PATCH 14/71] fix: keep the start of the object that follows a table
 style

---
 src/table_cell_style.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/table_cell_style.rs b/src/table_cell_style.rs
index 7136138..c738fe7 100644
--- a/src/table_cell_style.rs
+++ b/src/table_cell_style.rs
@@ -43,7 +43,10 @@ impl TableCellStyle {
         let mut style = TableCellStyle::default();
         loop {
             let pair = match iter.next() {
-                Some(Ok(CodePair { code: 0, .. })) => return Ok(Some(style)),
+                Some(Ok(pair @ CodePair { code: 0, .. })) => {
+                    iter.put_back(Ok(pair));
+                    return Ok(Some(style));
+                }
                 Some(Ok(pair)) => pair,
                 Some(Err(e)) => return Err(e),
                 None => return Ok(Some(style)),
-- 
2.43.0


From f0b4f0c3c390c7eee6f1e5845afe93dbd998f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:05 +0000
Subject: [PATCH 15/71] fix: read the lights of a light list

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 13fd43c..2c92750 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -662,7 +662,7 @@ impl Object {
                         // count of lights is ignored since it's implicitly set by reading the values
                     } else {
                         ll.version = pair.assert_i32()?;
-                        read_version_number = false;
+                        read_version_number = true;
                     }
                 }
                 _ => {
-- 
2.43.0


From 6e85813626da6ea05dda517201bcb18dceff87b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:14 +0000
Subject: [PATCH 16/71] fix: read the specular map file name of a material

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index 2c92750..d247669 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -710,7 +710,7 @@ impl Object {
                     }
                 }
                 4 => {
-                    mat.normal_map_file_name = pair.assert_string()?;
+                    mat.specular_map_file_name = pair.assert_string()?;
                 }
                 6 => {
                     mat.reflection_map_file_name = pair.assert_string()?;
-- 
2.43.0


From 9614673f7338c209e9434ef0a4bc63d1c4aadb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:44 +0000
Subject: [PATCH 17/71] fix: write the gloss factor and tiling of a material,
 and its normal map only where it is defined

---
 spec/ObjectsSpec.xml | 7 ++++---
 src/object.rs        | 6 +++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 83aa968..99aa4ed 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -467,7 +467,7 @@
     <Field Name="normal_map_projection_method" Code="73" Type="MapProjectionMethod" DefaultValue="MapProjectionMethod::Planar" WriteConverter="{} as i16" MinVersion="R2007" />
     <Field Name="normal_map_tiling_method" Code="74" Type="MapTilingMethod" DefaultValue="MapTilingMethod::Tile" WriteConverter="{} as i16" MinVersion="R2007" />
     <Field Name="normal_map_auto_transform_method" Code="75" Type="MapAutoTransformMethod" DefaultValue="MapAutoTransformMethod::NoAutoTransform" WriteConverter="{} as i16" MinVersion="R2007" />
-    <Field Name="normal_map_transformation_matrix" Code="43" Type="TransformationMatrix" DefaultValue="TransformationMatrix::identity()" />
+    <Field Name="normal_map_transformation_matrix" Code="43" Type="TransformationMatrix" DefaultValue="TransformationMatrix::identity()" MinVersion="R2007" />
     <Field Name="__normal_map_transformation_matrix_values" Code="43" Type="f64" DefaultValue="vec![]" AllowMultiples="true" MinVersion="R2007" />
     <Field Name="is_anonymous" Code="293" Type="bool" DefaultValue="false" MinVersion="R2007" />
     <Field Name="global_illumination_mode" Code="272" Type="i16" DefaultValue="0" MinVersion="R2007" />
@@ -506,7 +506,7 @@
       <Foreach Field="obj.diffuse_map_transformation_matrix.values()">
         <WriteSpecificValue Code="43" Value="*item" />
       </Foreach>
-      <WriteField Field="specular_color_factor" />
+      <WriteField Field="specular_gloss_factor" />
       <WriteField Field="override_specular_color" />
       <WriteField Field="specular_color_factor" />
       <WriteField Field="specular_color_value" />
@@ -573,7 +573,7 @@
       <WriteField Field="normal_map_tiling_method" />
       <WriteField Field="normal_map_auto_transform_method" />
       <Foreach Field="obj.normal_map_transformation_matrix.values()">
-        <WriteSpecificValue Code="43" Value="*item" />
+        <WriteSpecificValue Code="43" Value="*item" MinVersion="R2007" />
       </Foreach>
       <WriteField Field="is_anonymous" />
       <WriteField Field="global_illumination_mode" />
@@ -588,6 +588,7 @@
       <WriteField Field="gen_proc_color_rgb_value" />
       <WriteField Field="gen_proc_color_name" />
       <WriteField Field="map_u_tile" />
+      <WriteField Field="map_v_tile" />
       <WriteField Field="translucence" />
       <WriteField Field="self_illumination" />
       <WriteField Field="reflectivity" />
diff --git a/src/object.rs b/src/object.rs
index d247669..d68274d 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -689,6 +689,7 @@ impl Object {
         let mut read_luminance_mode = false;
         let mut read_bump_map_tiling_method = false;
         let mut read_normal_map_method = false;
+        let mut read_gen_proc_integer_value = false;
         let mut read_bump_map_auto_transform_method = false;
         let mut read_use_image_file_for_refraction_map = false;
         loop {
@@ -983,8 +984,11 @@ impl Object {
                     } else if !read_normal_map_method {
                         mat.normal_map_method = pair.assert_i16()?;
                         read_normal_map_method = true;
-                    } else {
+                    } else if !read_gen_proc_integer_value {
                         mat.gen_proc_integer_value = pair.assert_i16()?;
+                        read_gen_proc_integer_value = true;
+                    } else {
+                        mat.map_v_tile = pair.assert_i16()?;
                     }
                 }
                 272 => {
-- 
2.43.0


From 4c8c1731551308de1325769a90cf11b55c25268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:52 +0000
Subject: [PATCH 18/71] fix: read section settings and the end of each of their
 types

---
 src/section_type_settings.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/section_type_settings.rs b/src/section_type_settings.rs
index 0081773..a8e1c5b 100644
--- a/src/section_type_settings.rs
+++ b/src/section_type_settings.rs
@@ -30,14 +30,14 @@ impl Default for SectionTypeSettings {
 // internal visibility only
 impl SectionTypeSettings {
     pub(crate) fn read(iter: &mut CodePairPutBack) -> DxfResult<Option<SectionTypeSettings>> {
-        // check the first pair and only continue if it's not 0
+        // check the first pair; only code 90 can start one of these
         match iter.next() {
-            Some(Ok(pair @ CodePair { code: 0, .. })) => {
+            Some(Ok(pair @ CodePair { code: 90, .. })) => {
                 iter.put_back(Ok(pair));
-                return Ok(None);
             }
             Some(Ok(pair)) => {
                 iter.put_back(Ok(pair));
+                return Ok(None);
             }
             Some(Err(e)) => return Err(e),
             None => return Ok(None),
@@ -65,7 +65,9 @@ impl SectionTypeSettings {
                         ss.geometry_settings.push(gs);
                     }
                 }
-                3 => (), // value should be "SectionTypeSettingsEnd", but it doesn't really matter
+                3 => {
+                    return Ok(Some(ss));
+                } // done reading; value should be "SectionTypeSettingsEnd" but it doesn't really matter
                 90 => {
                     ss.section_type = pair.assert_i32()?;
                 }
-- 
2.43.0


From b737cad69932f677e4accd59fc01e2a73270cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:21 +0000
Subject: [PATCH 19/71] fix: read the matrices of a spatial filter in the order
 they are written

---
 src/entity.rs                |  3 +--
 src/object.rs                | 20 ++------------------
 src/transformation_matrix.rs | 22 ++++++++++++++++++++++
 3 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index e2f1acb..f8952d3 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -647,8 +647,7 @@ impl Entity {
 
                             if dimension_entity.is_none() && !is_unsupported_type {
                                 // before R13 there are no subclass markers, only the dimension type
-                                dimension_entity =
-                                    EntityType::from_dimension_base(dimension_base);
+                                dimension_entity = EntityType::from_dimension_base(dimension_base);
                                 if let Some(ref mut dim) = dimension_entity {
                                     for pair in &untyped_pairs {
                                         dim.apply_dimension_code_pair(pair)?;
diff --git a/src/object.rs b/src/object.rs
index d68274d..b3d3574 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1232,24 +1232,8 @@ impl Object {
                     } else {
                         matrix_list.push(pair.assert_f64()?);
                         if matrix_list.len() == 12 {
-                            let matrix = TransformationMatrix::from_vec(&[
-                                matrix_list[0],
-                                matrix_list[1],
-                                matrix_list[2],
-                                0.0,
-                                matrix_list[3],
-                                matrix_list[4],
-                                matrix_list[5],
-                                0.0,
-                                matrix_list[6],
-                                matrix_list[7],
-                                matrix_list[8],
-                                0.0,
-                                matrix_list[9],
-                                matrix_list[10],
-                                matrix_list[11],
-                                0.0,
-                            ]);
+                            let matrix =
+                                TransformationMatrix::from_row_major_4x3(&matrix_list);
                             matrix_list.clear();
                             if !set_inverse_matrix {
                                 sf.inverse_transformation_matrix = matrix;
diff --git a/src/transformation_matrix.rs b/src/transformation_matrix.rs
index b4a1422..c368214 100644
--- a/src/transformation_matrix.rs
+++ b/src/transformation_matrix.rs
@@ -61,6 +61,28 @@ impl TransformationMatrix {
             self.m31, self.m32, self.m33, self.m34, self.m41, self.m42, self.m43, self.m44,
         ]
     }
+    /// The inverse of `values_row_major_4x3()`.
+    pub(crate) fn from_row_major_4x3(values: &[f64]) -> Self {
+        let value = |index| TransformationMatrix::value_or_default(values, index);
+        TransformationMatrix {
+            m11: value(0),
+            m21: value(1),
+            m31: value(2),
+            m12: value(3),
+            m22: value(4),
+            m32: value(5),
+            m13: value(6),
+            m23: value(7),
+            m33: value(8),
+            m14: value(9),
+            m24: value(10),
+            m34: value(11),
+            m41: 0.0,
+            m42: 0.0,
+            m43: 0.0,
+            m44: 1.0,
+        }
+    }
     pub(crate) fn values_row_major_4x3(&self) -> Vec<f64> {
         vec![
             self.m11, self.m21, self.m31, self.m12, self.m22, self.m32, self.m13, self.m23,
-- 
2.43.0


From 3cae21c29b6db5db8440c7c9368fde4724be6156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:48 +0000
Subject: [PATCH 20/71] fix: write the hard owner flag of dictionaries that are
 hard owners

---
 src/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index b3d3574..86a8eb0 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1542,7 +1542,7 @@ impl Object {
             }
             ObjectType::Dictionary(ref dict) => {
                 pairs.push(CodePair::new_str(100, "AcDbDictionary"));
-                if version >= AcadVersion::R2000 && !dict.is_hard_owner {
+                if version >= AcadVersion::R2000 && dict.is_hard_owner {
                     pairs.push(CodePair::new_i16(280, as_i16(dict.is_hard_owner)));
                 }
                 if version >= AcadVersion::R2000 {
-- 
2.43.0


From 88fec2709ae295ab1f281c096ebf398b0144d7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:30 +0000
Subject: [PATCH 21/71] fix: read the duplicate record handling and x data of
 an xrecord

---
 src/object.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 86a8eb0..d664773 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -1437,9 +1437,16 @@ impl Object {
         xr: &mut XRecordObject,
         iter: &mut CodePairPutBack,
     ) -> DxfResult<bool> {
+        let mut seen_subclass_marker = false;
         let mut reading_data = false;
         loop {
             let pair = next_pair!(iter);
+            if pair.code >= 1000 {
+                // x data is never part of the record's own data
+                common.apply_individual_pair(&pair, iter)?;
+                continue;
+            }
+
             if reading_data {
                 xr.data_pairs.push(pair);
             } else {
@@ -1454,14 +1461,20 @@ impl Object {
                     continue;
                 }
 
+                if seen_subclass_marker {
+                    // the optional 280 is missing, everything after the marker is data
+                    xr.data_pairs.push(pair);
+                    reading_data = true;
+                    continue;
+                }
+
                 if common.apply_individual_pair(&pair, iter)? {
                     continue;
                 }
 
                 match pair.code {
                     100 => {
-                        reading_data = true;
-                        continue;
+                        seen_subclass_marker = true;
                     } // value should be "AcDbXrecord", some dxf files still need to keep the object read
                     5 | 105 => (), // these codes aren't allowed here
                     _ => {
-- 
2.43.0


From dfc362df1afc19b124262c04d42f9147a0c2dfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:37 +0000
Subject: [PATCH 22/71] fix: convert dates to the closest second and without
 overflow

---
 src/helper_functions.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index a0c10fe..d83ad21 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -33,10 +33,13 @@ pub(crate) fn as_bool(v: i16) -> bool {
 fn f64_to_adjusted_duration(f: f64) -> ChronoDuration {
     let days_since_dublin = f - 2_415_020.0; // julian dublin offset, e.g., December 31, 1899 12:00AM
     let secs_per_day = 24i64 * 60 * 60;
-    let seconds = days_since_dublin * secs_per_day as f64;
+    // the fraction of a day isn't exact so the closest second is the right one
+    let seconds = (days_since_dublin * secs_per_day as f64).round();
+    // keep the value in the range that can be represented as a duration
+    let seconds = seconds.clamp(-1.0e15, 1.0e15) as i64;
     // functions consuming this need to use 1900/01/01 instead of 1899/12/31 as a base
-    // so we counter the extra day and leap second here
-    ChronoDuration::seconds(seconds as i64 - secs_per_day + 1)
+    // so we counter the extra day here
+    ChronoDuration::seconds(seconds - secs_per_day)
 }
 
 fn epoch<T>(timezone: &T) -> DateTime<T>
@@ -62,7 +65,8 @@ where
             _ => ChronoDuration::seconds(0),
         }
     };
-    epoch + duration
+    // dates that can't be represented are treated like the other out of bounds values
+    epoch.clone().checked_add_signed(duration).unwrap_or(epoch)
 }
 
 pub(crate) fn as_datetime_local(date: f64) -> DateTime<Local> {
-- 
2.43.0


From 99e89eeaeb30e3a4774aba5c69dd703a00852a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 23/71] fix: write the data of a VBA project

---
 spec/ObjectsSpec.xml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index 99aa4ed..fa0f7e1 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -1193,8 +1193,8 @@
     <WriteOrder>
       <WriteSpecificValue Code="100" Value='&amp;String::from("AcDbVbaProject")' />
       <WriteSpecificValue Code="90" Value="obj.data.len() as i32" />
-      <Foreach Field="obj.__hex_data">
-        <WriteSpecificValue Code="310" Value="item.clone()" />
+      <Foreach Field="obj.data.chunks(127).collect::&lt;Vec&lt;_&gt;&gt;()">
+        <WriteSpecificValue Code="310" Value="item.to_vec()" />
       </Foreach>
     </WriteOrder>
   </Object>
-- 
2.43.0


From 7999d8e70618716f077117c31a3ea3b538a60457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:10 +0000
Subject: [PATCH 24/71] fix: write the time of a sun study's dates

---
 src/object.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index d664773..c0d1458 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -4,7 +4,7 @@ use enum_primitive::FromPrimitive;
 use itertools::Itertools;
 use std::ops::Add;
 
-use chrono::Duration;
+use chrono::{Duration, Timelike};
 
 use crate::{
     CodePair, Color, DataTableValue, DxfError, DxfResult, Point, SectionTypeSettings,
@@ -1232,8 +1232,7 @@ impl Object {
                     } else {
                         matrix_list.push(pair.assert_f64()?);
                         if matrix_list.len() == 12 {
-                            let matrix =
-                                TransformationMatrix::from_row_major_4x3(&matrix_list);
+                            let matrix = TransformationMatrix::from_row_major_4x3(&matrix_list);
                             matrix_list.clear();
                             if !set_inverse_matrix {
                                 sf.inverse_transformation_matrix = matrix;
@@ -1618,7 +1617,12 @@ impl Object {
                 pairs.push(CodePair::new_bool(291, ss.select_dates_from_calendar));
                 pairs.push(CodePair::new_i32(91, ss.dates.len() as i32));
                 for item in &ss.dates {
+                    // dates are julian_day/seconds_past_midnight duals
                     pairs.push(CodePair::new_i32(90, as_double_local(*item) as i32));
+                    pairs.push(CodePair::new_i32(
+                        90,
+                        item.num_seconds_from_midnight() as i32,
+                    ));
                 }
                 pairs.push(CodePair::new_bool(292, ss.select_range_of_dates));
                 pairs.push(CodePair::new_i32(93, ss.start_time_seconds_past_midnight));
-- 
2.43.0


From 18cb514e1bbab1acfa12bbcd53623fe3a3840840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:34 +0000
Subject: [PATCH 25/71] fix: read all columns and rows of a data table without
 trusting its counts, and the title flag of old table styles

---
 src/object.rs | 173 ++++++++++++++++++++++++--------------------------
 1 file changed, 84 insertions(+), 89 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index c0d1458..04360d5 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -62,6 +62,12 @@ impl MLineStyleElement {
 impl DataTable {
     pub(crate) fn set_value(&mut self, row: usize, col: usize, val: DataTableValue) {
         if row < self.row_count && col < self.column_count {
+            if self.values.len() <= row {
+                self.values.resize(row + 1, vec![]);
+            }
+            if self.values[row].len() <= col {
+                self.values[row].resize(col + 1, None);
+            }
             self.values[row][col] = Some(val);
         }
     }
@@ -333,14 +339,38 @@ impl Object {
         let mut read_column_count = false;
         let mut read_row_count = false;
         let mut _current_column_code = 0;
-        let mut current_column = 0;
+        let mut seen_columns = 0; // the current column is the last one seen
         let mut current_row = 0;
-        let mut created_table = false;
+        let mut seen_rows = 0;
         let mut current_2d_point = Point::origin();
         let mut current_3d_point = Point::origin();
 
+        // each value of a column is in the next row
+        macro_rules! add_value {
+            ($value: expr) => {
+                if seen_columns > 0 {
+                    data.set_value(current_row, seen_columns - 1, $value);
+                    current_row += 1;
+                    seen_rows = seen_rows.max(current_row);
+                }
+            };
+        }
+
         loop {
-            let pair = next_pair!(iter);
+            let pair = match iter.next() {
+                Some(Ok(pair)) if pair.code != 0 => pair,
+                Some(Err(e)) => return Err(e),
+                next => {
+                    if let Some(pair) = next {
+                        iter.put_back(pair);
+                    }
+
+                    // the table is only as large as its content
+                    data.column_count = data.column_count.min(seen_columns);
+                    data.row_count = data.row_count.min(seen_rows);
+                    return Ok(true);
+                }
+            };
             match pair.code {
                 1 => {
                     data.name = pair.assert_string()?;
@@ -363,38 +393,22 @@ impl Object {
                 }
                 92 => {
                     _current_column_code = pair.assert_i32()?;
-                    current_column += 1;
+                    seen_columns += 1;
                     current_row = 0;
                 }
 
                 // column values
                 3 => {
-                    data.set_value(
-                        current_row,
-                        current_column,
-                        DataTableValue::Str(pair.assert_string()?),
-                    );
+                    add_value!(DataTableValue::Str(pair.assert_string()?));
                 }
                 40 => {
-                    data.set_value(
-                        current_row,
-                        current_column,
-                        DataTableValue::Double(pair.assert_f64()?),
-                    );
+                    add_value!(DataTableValue::Double(pair.assert_f64()?));
                 }
                 71 => {
-                    data.set_value(
-                        current_row,
-                        current_column,
-                        DataTableValue::Boolean(as_bool(pair.assert_i16()?)),
-                    );
+                    add_value!(DataTableValue::Boolean(as_bool(pair.assert_i16()?)));
                 }
                 93 => {
-                    data.set_value(
-                        current_row,
-                        current_column,
-                        DataTableValue::Integer(pair.assert_i32()?),
-                    );
+                    add_value!(DataTableValue::Integer(pair.assert_i32()?));
                 }
                 10 => {
                     current_2d_point.x = pair.assert_f64()?;
@@ -404,11 +418,7 @@ impl Object {
                 }
                 30 => {
                     current_2d_point.z = pair.assert_f64()?;
-                    data.set_value(
-                        current_row,
-                        current_column,
-                        DataTableValue::Point2D(current_2d_point.clone()),
-                    );
+                    add_value!(DataTableValue::Point2D(current_2d_point.clone()));
                     current_2d_point = Point::origin();
                 }
                 11 => {
@@ -419,20 +429,12 @@ impl Object {
                 }
                 31 => {
                     current_3d_point.z = pair.assert_f64()?;
-                    data.set_value(
-                        current_row,
-                        current_column,
-                        DataTableValue::Point3D(current_3d_point.clone()),
-                    );
+                    add_value!(DataTableValue::Point3D(current_3d_point.clone()));
                     current_3d_point = Point::origin();
                 }
                 330 | 331 | 340 | 350 | 360 => {
                     if read_row_count || read_column_count {
-                        data.set_value(
-                            current_row,
-                            current_column,
-                            DataTableValue::Handle(pair.as_handle()?),
-                        );
+                        add_value!(DataTableValue::Handle(pair.as_handle()?));
                     } else {
                         common.apply_individual_pair(&pair, iter)?;
                     }
@@ -442,16 +444,6 @@ impl Object {
                     common.apply_individual_pair(&pair, iter)?;
                 }
             }
-
-            if read_row_count && read_column_count && !created_table {
-                for row in 0..data.row_count {
-                    data.values.push(vec![]);
-                    for _ in 0..data.column_count {
-                        data.values[row].push(None);
-                    }
-                }
-                created_table = true;
-            }
         }
     }
     fn apply_custom_reader_dictionary(
@@ -1393,6 +1385,7 @@ impl Object {
             match pair.code {
                 3 => {
                     ts.description = pair.assert_string()?;
+                    read_version = true; // if it was present then it was in front of the description
                 }
                 7 => {
                     iter.put_back(Ok(pair)); // let the TableCellStyle reader parse this
@@ -1506,48 +1499,50 @@ impl Object {
                 pairs.push(CodePair::new_i32(91, data.row_count as i32));
                 pairs.push(CodePair::new_string(1, &data.name));
                 for col in 0..data.column_count {
-                    let column_code = match data.values[0][col] {
-                        Some(DataTableValue::Boolean(_)) => Some(71),
-                        Some(DataTableValue::Integer(_)) => Some(93),
-                        Some(DataTableValue::Double(_)) => Some(40),
-                        Some(DataTableValue::Str(_)) => Some(3),
-                        Some(DataTableValue::Point2D(_)) => Some(10),
-                        Some(DataTableValue::Point3D(_)) => Some(11),
-                        Some(DataTableValue::Handle(_)) => Some(331),
-                        None => None,
+                    let value_at =
+                        |row: usize| data.values.get(row).and_then(|row| row.get(col)?.as_ref());
+                    let column_code = match value_at(0) {
+                        Some(DataTableValue::Boolean(_)) => 71,
+                        Some(DataTableValue::Integer(_)) => 93,
+                        Some(DataTableValue::Double(_)) => 40,
+                        Some(DataTableValue::Str(_)) => 3,
+                        Some(DataTableValue::Point2D(_)) => 10,
+                        Some(DataTableValue::Point3D(_)) => 11,
+                        Some(DataTableValue::Handle(_)) => 331,
+                        None => 0,
                     };
-                    if let Some(column_code) = column_code {
-                        pairs.push(CodePair::new_i32(92, column_code));
-                        pairs.push(CodePair::new_string(2, &data.column_names[col]));
-                        for row in 0..data.row_count {
-                            match data.values[row][col] {
-                                Some(DataTableValue::Boolean(val)) => {
-                                    pairs.push(CodePair::new_i16(71, as_i16(val)));
-                                }
-                                Some(DataTableValue::Integer(val)) => {
-                                    pairs.push(CodePair::new_i32(93, val));
-                                }
-                                Some(DataTableValue::Double(val)) => {
-                                    pairs.push(CodePair::new_f64(40, val));
-                                }
-                                Some(DataTableValue::Str(ref val)) => {
-                                    pairs.push(CodePair::new_string(3, val));
-                                }
-                                Some(DataTableValue::Point2D(ref val)) => {
-                                    pairs.push(CodePair::new_f64(10, val.x));
-                                    pairs.push(CodePair::new_f64(20, val.y));
-                                    pairs.push(CodePair::new_f64(30, val.z));
-                                }
-                                Some(DataTableValue::Point3D(ref val)) => {
-                                    pairs.push(CodePair::new_f64(11, val.x));
-                                    pairs.push(CodePair::new_f64(21, val.y));
-                                    pairs.push(CodePair::new_f64(31, val.z));
-                                }
-                                Some(DataTableValue::Handle(val)) => {
-                                    pairs.push(CodePair::new_string(331, &val.as_string()));
-                                }
-                                None => (),
+                    pairs.push(CodePair::new_i32(92, column_code));
+                    if let Some(name) = data.column_names.get(col) {
+                        pairs.push(CodePair::new_string(2, name));
+                    }
+                    for row in 0..data.row_count {
+                        match value_at(row) {
+                            Some(DataTableValue::Boolean(val)) => {
+                                pairs.push(CodePair::new_i16(71, as_i16(*val)));
+                            }
+                            Some(DataTableValue::Integer(val)) => {
+                                pairs.push(CodePair::new_i32(93, *val));
+                            }
+                            Some(DataTableValue::Double(val)) => {
+                                pairs.push(CodePair::new_f64(40, *val));
+                            }
+                            Some(DataTableValue::Str(val)) => {
+                                pairs.push(CodePair::new_string(3, val));
+                            }
+                            Some(DataTableValue::Point2D(val)) => {
+                                pairs.push(CodePair::new_f64(10, val.x));
+                                pairs.push(CodePair::new_f64(20, val.y));
+                                pairs.push(CodePair::new_f64(30, val.z));
+                            }
+                            Some(DataTableValue::Point3D(val)) => {
+                                pairs.push(CodePair::new_f64(11, val.x));
+                                pairs.push(CodePair::new_f64(21, val.y));
+                                pairs.push(CodePair::new_f64(31, val.z));
+                            }
+                            Some(DataTableValue::Handle(val)) => {
+                                pairs.push(CodePair::new_string(331, &val.as_string()));
                             }
+                            None => (),
                         }
                     }
                 }
-- 
2.43.0


From 3b4cb3f207587d3d8453b90df09401dfe21570ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:35 +0000
Subject: [PATCH 26/71] fix: write the hours of a sun study with the value type
 of their code

---
 src/object.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 04360d5..c11ccbb 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -7,8 +7,8 @@ use std::ops::Add;
 use chrono::{Duration, Timelike};
 
 use crate::{
-    CodePair, Color, DataTableValue, DxfError, DxfResult, Point, SectionTypeSettings,
-    TableCellStyle, TransformationMatrix,
+    CodePair, CodePairValue, Color, DataTableValue, DxfError, DxfResult, Point,
+    SectionTypeSettings, TableCellStyle, TransformationMatrix,
 };
 
 use crate::code_pair_put_back::CodePairPutBack;
@@ -1625,7 +1625,7 @@ impl Object {
                 pairs.push(CodePair::new_i32(95, ss.interval_in_seconds));
                 pairs.push(CodePair::new_i16(73, ss.hours.len() as i16));
                 for v in &ss.hours {
-                    pairs.push(CodePair::new_i16(290, *v as i16));
+                    pairs.push(CodePair::new(290, CodePairValue::Boolean(*v as i16), 0));
                 }
                 pairs.push(CodePair::new_string(
                     340,
-- 
2.43.0


From fbf84aec289701c3384b5cd6361353b8ec4685c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:35 +0000
Subject: [PATCH 27/71] fix: read the lock flag of attributes that have no
 version

---
 src/entity.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index f8952d3..d32b132 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -895,6 +895,7 @@ impl Entity {
                         att.x_record_tag = pair.assert_string()?;
                     } else {
                         att.attribute_tag = pair.assert_string()?;
+                        is_version_set = true; // if present, it is in front of the tag
                     }
                 }
                 7 => {
@@ -1043,6 +1044,7 @@ impl Entity {
                         att.x_record_tag = pair.assert_string()?;
                     } else {
                         att.text_tag = pair.assert_string()?;
+                        is_version_set = true; // if present, it is in front of the tag
                     }
                 }
                 3 => {
-- 
2.43.0


From a5b1a26615ee3a8b81db4468303a025eb8898550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:30 +0000
Subject: [PATCH 28/71] fix: write the owner of table records

---
 build/table_generator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build/table_generator.rs b/build/table_generator.rs
index ca37ea7..a6eaded 100644
--- a/build/table_generator.rs
+++ b/build/table_generator.rs
@@ -393,6 +393,10 @@ fn generate_table_writer(fun: &mut String, element: &Element) {
         fun.push_str("            }\n");
         fun.push_str("        }\n");
         fun.push('\n');
+        fun.push_str("        if write_handles && !item.__owner_handle.is_empty() {\n");
+        fun.push_str("            pairs.push(CodePair::new_string(330, &item.__owner_handle.as_string()));\n");
+        fun.push_str("        }\n");
+        fun.push('\n');
         fun.push_str("        pairs.push(CodePair::new_str(100, \"AcDbSymbolTableRecord\"));\n");
         fun.push_str(&format!(
             "        pairs.push(CodePair::new_str(100, \"{class_name}\"));\n",
-- 
2.43.0


From cb6726291017761b46319ac34c3755108c9a9ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:08 +0000
Subject: [PATCH 29/71] fix: read $DIMATFIT, which replaced $DIMFIT

---
 build/header_generator.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/build/header_generator.rs b/build/header_generator.rs
index ea9477a..0a9ec01 100644
--- a/build/header_generator.rs
+++ b/build/header_generator.rs
@@ -181,13 +181,18 @@ fn generate_set_defaults(fun: &mut String, element: &Element) {
 }
 
 fn generate_set_header_value(fun: &mut String, element: &Element) {
-    let mut seen_fields = HashSet::new();
+    let mut seen_names = HashSet::new();
     fun.push_str("    #[allow(clippy::cognitive_complexity)] // generated method\n");
     fun.push_str("    pub(crate) fn set_header_value(&mut self, variable: &str, pair: &CodePair) -> DxfResult<()> {\n");
     fun.push_str("        match variable {\n");
     for v in &element.children {
-        if !seen_fields.contains(&field(v)) {
-            seen_fields.insert(field(v));
+        // a field is read from the first variable that sets it, and from the ones that replaced it in a later version
+        let is_duplicate = element
+            .children
+            .iter()
+            .take_while(|vv| name(vv) != name(v))
+            .any(|vv| field(vv) == field(v) && max_version(vv).is_empty());
+        if !is_duplicate && seen_names.insert(name(v)) {
             fun.push_str(&format!("            \"${name}\" => {{", name = name(v)));
             let variables_with_name: Vec<&Element> = element
                 .children
-- 
2.43.0


From 51181129e4a0fe7352cb37c08d2f91c9a43441ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:35 +0000
Subject: [PATCH 30/71] fix: keep backslashes, carets and characters beyond the
 basic plane when escaping text

---
 src/code_pair_value.rs | 77 ++++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 37 deletions(-)

diff --git a/src/code_pair_value.rs b/src/code_pair_value.rs
index a2bb187..8af9ba6 100644
--- a/src/code_pair_value.rs
+++ b/src/code_pair_value.rs
@@ -33,7 +33,7 @@ impl CodePairValue {
                     _ => {
                         if do_escape {
                             do_escape = false;
-                            let c = match c {
+                            let c: u32 = match c {
                                 '@' => 0x00,
                                 'A' => 0x01,
                                 'B' => 0x02,
@@ -66,11 +66,12 @@ impl CodePairValue {
                                 ']' => 0x1D,
                                 '^' => 0x1E,
                                 '_' => 0x1F,
-                                ' ' => b'^',
-                                _ => c as u8, // invalid escape sequence, just keep the character
+                                ' ' => 0x5E,
+                                _ => c as u32, // invalid escape sequence, just keep the character
                             };
 
-                            result.push(c as char);
+                            // only ASCII values and existing characters are possible here
+                            result.extend(char::from_u32(c));
                         } else {
                             result.push(c);
                         }
@@ -78,6 +79,11 @@ impl CodePairValue {
                 }
             }
 
+            if do_escape {
+                // nothing follows the caret, so it's just a caret
+                result.push('^');
+            }
+
             result.into()
         } else {
             val.into()
@@ -179,13 +185,25 @@ pub(crate) fn escape_control_characters(val: &str) -> String {
     result
 }
 
+/// Returns the UTF-16 code unit if the value starts with an escape sequence of the form `\U+XXXX`.
+fn unicode_escape_value(val: &str) -> Option<u16> {
+    let digits = val.strip_prefix("\\U+")?.get(0..4)?;
+    if digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+        u16::from_str_radix(digits, 16).ok()
+    } else {
+        None
+    }
+}
+
 pub(crate) fn escape_unicode_to_ascii(val: &str) -> String {
     let mut result = String::from("");
 
-    for c in val.chars() {
-        let b = c as u32;
-        if b >= 128 {
-            result.push_str(&format!("\\U+{:04X}", b));
+    for (i, c) in val.char_indices() {
+        // text that looks like an escape sequence also has to be escaped
+        if !c.is_ascii() || unicode_escape_value(&val[i..]).is_some() {
+            for unit in c.encode_utf16(&mut [0; 2]) {
+                result.push_str(&format!("\\U+{:04X}", unit));
+            }
         } else {
             result.push(c);
         }
@@ -196,36 +214,21 @@ pub(crate) fn escape_unicode_to_ascii(val: &str) -> String {
 
 pub(crate) fn un_escape_ascii_to_unicode(val: &str) -> String {
     let mut result = String::from("");
-    let mut seq = String::from("");
-    let mut in_escape_sequence = false;
-    let mut sequence_start = 0;
-
-    for (i, c) in val.chars().enumerate() {
-        if !in_escape_sequence {
-            if c == '\\' {
-                in_escape_sequence = true;
-                sequence_start = i;
-                seq.clear();
-                seq.push(c);
-            } else {
-                result.push(c);
-            }
-        } else {
-            seq.push(c);
-            if i == sequence_start + 6 {
-                in_escape_sequence = false;
-                if let Some(code_str) = seq.strip_prefix("\\U+") {
-                    let decoded = match u32::from_str_radix(code_str, 16) {
-                        Ok(code) => std::char::from_u32(code).unwrap_or('?'),
-                        Err(_) => '?',
-                    };
-                    result.push(decoded);
-                } else {
-                    result.push_str(&seq);
-                }
+    let mut rest = val;
+
+    while let Some(c) = rest.chars().next() {
+        // characters beyond the basic plane are given as surrogate pairs
+        let mut units = vec![];
+        while let Some(unit) = unicode_escape_value(rest) {
+            units.push(unit);
+            rest = &rest[7..];
+        }
 
-                seq.clear();
-            }
+        if units.is_empty() {
+            result.push(c);
+            rest = &rest[c.len_utf8()..];
+        } else {
+            result.extend(char::decode_utf16(units).map(|c| c.unwrap_or('?')));
         }
     }
 
-- 
2.43.0


From c65cc89fa83da788883b3d446130b84f54a4e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:48 +0000
Subject: [PATCH 31/71] fix: do not treat the start of a line of text as a byte
 order mark

---
 src/helper_functions.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index d83ad21..ccea58f 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -325,9 +325,10 @@ where
         }
     }
 
-    let mut result = match encoding.decode(&bytes) {
-        (result, _, false) => String::from(&*result),
-        (_, _, true) => return Err(DxfError::MalformedString),
+    // a line can start with bytes that look like a byte order mark of some other encoding
+    let mut result = match encoding.decode_without_bom_handling(&bytes) {
+        (result, false) => String::from(&*result),
+        (_, true) => return Err(DxfError::MalformedString),
     };
 
     if result.ends_with('\r') {
-- 
2.43.0


From db653459029014df6281e4e286164e7269ffd277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:58 +0000
Subject: [PATCH 32/71] fix: read text of binary files as UTF-8, the way it is
 written

---
 src/code_pair_iter.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index c724880..3dabf70 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -238,7 +238,7 @@ impl<T: Read> BinaryCodePairIter<T> {
                 8,
             ),
             ExpectedType::Str => {
-                let mut value = try_from_dxf_result!(self.read_string_binary());
+                let (mut value, mut length) = try_from_dxf_result!(self.read_string_binary());
                 if !self.code_size_detection_complete && code == 0 && value.is_empty() {
                     // If this is the first pair being read and the code is 0, the only valid string value is "SECTION".
                     // If the read value is instead empty, that means the string reader found a single 0x00 byte which
@@ -247,11 +247,12 @@ impl<T: Read> BinaryCodePairIter<T> {
                     // the reader up.
                     self.codes_are_two_bytes = true;
                     self.offset += 1; // account for the NULL byte that was interpreted as an empty string
-                    value = try_from_dxf_result!(self.read_string_binary()); // now read the actual value
+                    (value, length) = try_from_dxf_result!(self.read_string_binary());
+                    // now read the actual value
                 }
                 (
                     CodePairValue::Str(CodePairValue::un_escape_string(&value).into_owned()),
-                    value.len() + 1, // +1 to account for the NULL terminator
+                    length + 1, // +1 to account for the NULL terminator
                 )
             }
             ExpectedType::Binary => {
@@ -269,18 +270,25 @@ impl<T: Read> BinaryCodePairIter<T> {
 
         Some(Ok(CodePair::new(code, value, self.offset)))
     }
-    fn read_string_binary(&mut self) -> DxfResult<String> {
-        let mut s = String::new();
+    /// Returns the string and the number of bytes it was read from.
+    fn read_string_binary(&mut self) -> DxfResult<(String, usize)> {
+        let mut bytes = vec![];
         loop {
             match read_u8(&mut self.reader) {
                 Some(Ok(0)) => break,
-                Some(Ok(c)) => s.push(c as char),
+                Some(Ok(c)) => bytes.push(c),
                 Some(Err(e)) => return Err(DxfError::IoError(e)),
                 None => return Err(DxfError::UnexpectedEndOfInput),
             }
         }
 
-        Ok(s)
+        let length = bytes.len();
+        let s = match String::from_utf8(bytes) {
+            Ok(s) => s,
+            // not UTF-8, so every byte is a character
+            Err(e) => e.into_bytes().into_iter().map(char::from).collect(),
+        };
+        Ok((s, length))
     }
 }
 
-- 
2.43.0


From 25a273cc4019b2906ae7703a50e7076c672e1ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:37 +0000
Subject: [PATCH 33/71] fix: treat binary XDATA as binary, not as text

---
 src/expected_type.rs |  4 +++-
 src/x_data.rs        | 13 ++-----------
 2 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/expected_type.rs b/src/expected_type.rs
index 9053f27..fcb28bb 100644
--- a/src/expected_type.rs
+++ b/src/expected_type.rs
@@ -48,7 +48,9 @@ impl ExpectedType {
             470..=479 => Some(ExpectedType::Str),
             480..=481 => Some(ExpectedType::Str),
             999 => Some(ExpectedType::Str),
-            1000..=1009 => Some(ExpectedType::Str),
+            1000..=1003 => Some(ExpectedType::Str),
+            1004 => Some(ExpectedType::Binary),
+            1005..=1009 => Some(ExpectedType::Str),
             1010..=1059 => Some(ExpectedType::Double),
             1060..=1070 => Some(ExpectedType::Short),
             1071 => Some(ExpectedType::Integer),
diff --git a/src/x_data.rs b/src/x_data.rs
index 501d128..effd859 100644
--- a/src/x_data.rs
+++ b/src/x_data.rs
@@ -2,7 +2,6 @@ use crate::{CodePair, DxfError, DxfResult, Handle, Point, Vector};
 
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::enums::AcadVersion;
-use crate::helper_functions::*;
 
 pub(crate) const XDATA_APPLICATIONNAME: i32 = 1001;
 const XDATA_STRING: i32 = 1000;
@@ -120,11 +119,7 @@ impl XDataItem {
                 Ok(XDataItem::ControlGroup(items))
             }
             XDATA_LAYER => Ok(XDataItem::LayerName(pair.assert_string()?)),
-            XDATA_BINARYDATA => {
-                let mut data = vec![];
-                parse_hex_string(&pair.assert_string()?, &mut data, pair.offset)?;
-                Ok(XDataItem::BinaryData(data))
-            }
+            XDATA_BINARYDATA => Ok(XDataItem::BinaryData(pair.assert_binary()?)),
             XDATA_HANDLE => Ok(XDataItem::Handle(pair.as_handle()?)),
             XDATA_THREEREALS => Ok(XDataItem::ThreeReals(
                 pair.assert_f64()?,
@@ -194,11 +189,7 @@ impl XDataItem {
                 pairs.push(CodePair::new_string(XDATA_LAYER, l));
             }
             XDataItem::BinaryData(ref data) => {
-                let mut line = String::new();
-                for b in data {
-                    line.push_str(&format!("{:02X}", b));
-                }
-                pairs.push(CodePair::new_string(XDATA_BINARYDATA, &line));
+                pairs.push(CodePair::new_binary(XDATA_BINARYDATA, data.clone()));
             }
             XDataItem::Handle(h) => {
                 pairs.push(CodePair::new_string(XDATA_HANDLE, &h.as_string()));
-- 
2.43.0


From 2a72cf3948b21da8bc3473f547fde548454f4f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:58 +0000
Subject: [PATCH 34/71] fix: write binary data longer than 255 bytes as
 multiple pairs in binary files

---
 src/code_pair_writer.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/code_pair_writer.rs b/src/code_pair_writer.rs
index 7b3605c..3350978 100644
--- a/src/code_pair_writer.rs
+++ b/src/code_pair_writer.rs
@@ -65,6 +65,17 @@ impl<'a, T: Write + ?Sized> CodePairWriter<'a, T> {
         Ok(())
     }
     fn write_binary_code_pair(&mut self, pair: &CodePair) -> DxfResult<()> {
+        // the length of binary data is given by a single byte, so longer data is written as multiple pairs
+        if let CodePairValue::Binary(ref buf) = pair.value {
+            if buf.len() > u8::MAX as usize {
+                for chunk in buf.chunks(u8::MAX as usize) {
+                    self.write_binary_code_pair(&CodePair::new_binary(pair.code, chunk.to_vec()))?;
+                }
+
+                return Ok(());
+            }
+        }
+
         // write code
         if self.version >= AcadVersion::R13 {
             self.writer.write_i16::<LittleEndian>(pair.code as i16)?;
-- 
2.43.0


From 6058c2826eed2e87d1af4065f3918e352fa874e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:20 +0000
Subject: [PATCH 35/71] Undo the repairs made in spec/, which is not to be
 changed here

---
 spec/EntitiesSpec.xml | 20 ++++++++++----------
 spec/ObjectsSpec.xml  | 17 ++++++++---------
 src/object.rs         |  6 +-----
 3 files changed, 19 insertions(+), 24 deletions(-)

diff --git a/spec/EntitiesSpec.xml b/spec/EntitiesSpec.xml
index f87ecca..9f17b24 100644
--- a/spec/EntitiesSpec.xml
+++ b/spec/EntitiesSpec.xml
@@ -682,20 +682,20 @@
       <WriteField Field="start_point" />
       <WriteField Field="normal" />
       <Foreach Field="ent.vertices">
+        <WriteSpecificValue Code="10" Value="item.x" />
+        <WriteSpecificValue Code="20" Value="item.y" />
+        <WriteSpecificValue Code="30" Value="item.z" />
+      </Foreach>
+      <Foreach Field="ent.segment_directions">
         <WriteSpecificValue Code="11" Value="item.x" />
         <WriteSpecificValue Code="21" Value="item.y" />
         <WriteSpecificValue Code="31" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.segment_directions">
+      <Foreach Field="ent.miter_directions">
         <WriteSpecificValue Code="12" Value="item.x" />
         <WriteSpecificValue Code="22" Value="item.y" />
         <WriteSpecificValue Code="32" Value="item.z" />
       </Foreach>
-      <Foreach Field="ent.miter_directions">
-        <WriteSpecificValue Code="13" Value="item.x" />
-        <WriteSpecificValue Code="23" Value="item.y" />
-        <WriteSpecificValue Code="33" Value="item.z" />
-      </Foreach>
       <WriteSpecificValue Code="74" Value="ent.parameters.len() as i16" />
       <WriteField Field="parameters" />
       <WriteSpecificValue Code="75" Value="ent.area_fill_parameters.len() as i16" />
@@ -1164,7 +1164,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1202,7 +1202,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1240,7 +1240,7 @@
       <WriteField Field="fade" />
       <Foreach Field="ent.points">
         <WriteSpecificValue Code="11" Value="item.x" />
-        <WriteSpecificValue Code="21" Value="item.y" />
+        <WriteSpecificValue Code="12" Value="item.y" />
       </Foreach>
     </WriteOrder>
   </Entity>
@@ -1302,7 +1302,7 @@
     <Field Name="clipping_type" Code="71" Type="ImageClippingBoundaryType" DefaultValue="ImageClippingBoundaryType::Rectangular" ReadConverter="enum_from_number!(ImageClippingBoundaryType, Rectangular, from_i16, {})" WriteConverter="{} as i16" />
     <Field Name="clipping_vertex_count" Code="91" Type="i32" DefaultValue="0" />
     <Field Name="__clipping_vertices_x" Code="14" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
-    <Field Name="__clipping_vertices_y" Code="24" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
+    <Field Name="__clipping_vertices_y" Code="12" Type="f64" DefaultValue="vec![]" AllowMultiples="true" />
     <Field Name="clipping_vertices" Code="14" Type="Point" DefaultValue="vec![]" AllowMultiples="true" GenerateReader="false" />
     <Field Name="is_inside_clipping" Code="290" Type="bool" DefaultValue="false" MinVersion="R2010" />
     <WriteOrder>
diff --git a/spec/ObjectsSpec.xml b/spec/ObjectsSpec.xml
index fa0f7e1..218bce2 100644
--- a/spec/ObjectsSpec.xml
+++ b/spec/ObjectsSpec.xml
@@ -144,7 +144,7 @@
   FIELD
 
   -->
-  <Object Name="Field" SubclassMarker="AcDbField" TypeString="FIELD" MinVersion="R2004">
+  <Object Name="Field" SubclassMarker="" TypeString="FIELD" MinVersion="R2004">
     <Field Name="evaluator_id" Code="1" Type="String" DefaultValue="String::new()" />
     <Field Name="field_code_string" Code="2" Type="String" DefaultValue="String::new()" />
     <Field Name="field_code_string_overflow" Code="3" Type="String" DefaultValue="String::new()" />
@@ -174,7 +174,6 @@
     <Field Name="__format_string_length" Code="98" Type="i32" DefaultValue="0" />
     <Field Name="__child_field_count_value_type_code" Code="90" Type="i32" DefaultValue="vec![]" AllowMultiples="true" />
     <WriteOrder>
-      <WriteSpecificValue Code="100" Value='&amp;String::from("AcDbField")' />
       <WriteField Field="evaluator_id" />
       <WriteField Field="field_code_string" />
       <WriteField Field="field_code_string_overflow" />
@@ -189,7 +188,8 @@
       <WriteField Field="evaluation_error_code" />
       <WriteSpecificValue Code="97" Value="obj.__objects_handle.len() as i32" />
       <Foreach Field="obj.__objects_handle">
-        <WriteSpecificValue Code="331" Value="&amp;item.as_string()" />
+        <WriteSpecificValue Code="330" Value="&amp;item.as_string()" MaxVersion="R2007" />
+        <WriteSpecificValue Code="331" Value="&amp;item.as_string()" MinVersion="R2010" />
       </Foreach>
       <WriteSpecificValue Code="93" Value="obj.field_data_keys.len() as i32" />
       <WriteField Field="field_data_keys" />
@@ -467,7 +467,7 @@
     <Field Name="normal_map_projection_method" Code="73" Type="MapProjectionMethod" DefaultValue="MapProjectionMethod::Planar" WriteConverter="{} as i16" MinVersion="R2007" />
     <Field Name="normal_map_tiling_method" Code="74" Type="MapTilingMethod" DefaultValue="MapTilingMethod::Tile" WriteConverter="{} as i16" MinVersion="R2007" />
     <Field Name="normal_map_auto_transform_method" Code="75" Type="MapAutoTransformMethod" DefaultValue="MapAutoTransformMethod::NoAutoTransform" WriteConverter="{} as i16" MinVersion="R2007" />
-    <Field Name="normal_map_transformation_matrix" Code="43" Type="TransformationMatrix" DefaultValue="TransformationMatrix::identity()" MinVersion="R2007" />
+    <Field Name="normal_map_transformation_matrix" Code="43" Type="TransformationMatrix" DefaultValue="TransformationMatrix::identity()" />
     <Field Name="__normal_map_transformation_matrix_values" Code="43" Type="f64" DefaultValue="vec![]" AllowMultiples="true" MinVersion="R2007" />
     <Field Name="is_anonymous" Code="293" Type="bool" DefaultValue="false" MinVersion="R2007" />
     <Field Name="global_illumination_mode" Code="272" Type="i16" DefaultValue="0" MinVersion="R2007" />
@@ -506,7 +506,7 @@
       <Foreach Field="obj.diffuse_map_transformation_matrix.values()">
         <WriteSpecificValue Code="43" Value="*item" />
       </Foreach>
-      <WriteField Field="specular_gloss_factor" />
+      <WriteField Field="specular_color_factor" />
       <WriteField Field="override_specular_color" />
       <WriteField Field="specular_color_factor" />
       <WriteField Field="specular_color_value" />
@@ -573,7 +573,7 @@
       <WriteField Field="normal_map_tiling_method" />
       <WriteField Field="normal_map_auto_transform_method" />
       <Foreach Field="obj.normal_map_transformation_matrix.values()">
-        <WriteSpecificValue Code="43" Value="*item" MinVersion="R2007" />
+        <WriteSpecificValue Code="43" Value="*item" />
       </Foreach>
       <WriteField Field="is_anonymous" />
       <WriteField Field="global_illumination_mode" />
@@ -588,7 +588,6 @@
       <WriteField Field="gen_proc_color_rgb_value" />
       <WriteField Field="gen_proc_color_name" />
       <WriteField Field="map_u_tile" />
-      <WriteField Field="map_v_tile" />
       <WriteField Field="translucence" />
       <WriteField Field="self_illumination" />
       <WriteField Field="reflectivity" />
@@ -1193,8 +1192,8 @@
     <WriteOrder>
       <WriteSpecificValue Code="100" Value='&amp;String::from("AcDbVbaProject")' />
       <WriteSpecificValue Code="90" Value="obj.data.len() as i32" />
-      <Foreach Field="obj.data.chunks(127).collect::&lt;Vec&lt;_&gt;&gt;()">
-        <WriteSpecificValue Code="310" Value="item.to_vec()" />
+      <Foreach Field="obj.__hex_data">
+        <WriteSpecificValue Code="310" Value="item.clone()" />
       </Foreach>
     </WriteOrder>
   </Object>
diff --git a/src/object.rs b/src/object.rs
index c11ccbb..6c94359 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -681,7 +681,6 @@ impl Object {
         let mut read_luminance_mode = false;
         let mut read_bump_map_tiling_method = false;
         let mut read_normal_map_method = false;
-        let mut read_gen_proc_integer_value = false;
         let mut read_bump_map_auto_transform_method = false;
         let mut read_use_image_file_for_refraction_map = false;
         loop {
@@ -976,11 +975,8 @@ impl Object {
                     } else if !read_normal_map_method {
                         mat.normal_map_method = pair.assert_i16()?;
                         read_normal_map_method = true;
-                    } else if !read_gen_proc_integer_value {
-                        mat.gen_proc_integer_value = pair.assert_i16()?;
-                        read_gen_proc_integer_value = true;
                     } else {
-                        mat.map_v_tile = pair.assert_i16()?;
+                        mat.gen_proc_integer_value = pair.assert_i16()?;
                     }
                 }
                 272 => {
-- 
2.43.0


From aa94f20a48770dafaa7bbe871b903aa14c559bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:26 +0000
Subject: [PATCH 36/71] fix: read and write the handle of dimension styles with
 code 105

---
 build/table_generator.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/build/table_generator.rs b/build/table_generator.rs
index a6eaded..79fcdc6 100644
--- a/build/table_generator.rs
+++ b/build/table_generator.rs
@@ -213,7 +213,17 @@ fn generate_table_reader(fun: &mut String, element: &Element) {
         fun.push_str(
             "                                    2 => item.name = pair.assert_string()?,\n",
         );
-        fun.push_str("                                    5 => item.handle = pair.as_handle()?,\n");
+        if attr(table, "TypeString") == "DIMSTYLE" {
+            // before R13 code 5 is the name of a block, so dimension styles have their handle in code 105
+            fun.push_str("                                    5 if drawing.header.version < AcadVersion::R13 => (),\n");
+            fun.push_str(
+                "                                    5 | 105 => item.handle = pair.as_handle()?,\n",
+            );
+        } else {
+            fun.push_str(
+                "                                    5 => item.handle = pair.as_handle()?,\n",
+            );
+        }
         fun.push_str(
             "                                    extension_data::EXTENSION_DATA_GROUP => {\n",
         );
@@ -383,7 +393,13 @@ fn generate_table_writer(fun: &mut String, element: &Element) {
             type_string = attr(table, "TypeString")
         ));
         fun.push_str("        if write_handles {\n");
-        fun.push_str(&format!("            pairs.push(CodePair::new_string(5, &DrawingItem::{item_type}(item).handle().as_string()));\n",
+        let handle_code = if attr(table, "TypeString") == "DIMSTYLE" {
+            105
+        } else {
+            5
+        };
+        fun.push_str(&format!("            pairs.push(CodePair::new_string({handle_code}, &DrawingItem::{item_type}(item).handle().as_string()));\n",
+            handle_code=handle_code,
             item_type=item_type));
         fun.push_str("        }\n");
         fun.push('\n');
-- 
2.43.0


From 1b1cee85ea00c48519d4acf615e74fead0112d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:06 +0000
Subject: [PATCH 37/71] fix: do not use up a handle for every loaded insert
 without attributes

---
 src/drawing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 2bbfbc9..4d35885 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -664,7 +664,7 @@ impl Drawing {
     /// Sets any missing handles of an `INSERT` or `POLYLINE`'s dependent entities.
     fn ensure_child_handles_are_set(&mut self, entity: &mut Entity) {
         let (seqend_handle, child_handles): (_, Vec<_>) = match entity.specific {
-            EntityType::Insert(ref mut ins) => (
+            EntityType::Insert(ref mut ins) if !ins.__attributes_and_handles.is_empty() => (
                 &mut ins.__seqend_handle,
                 ins.__attributes_and_handles
                     .iter_mut()
-- 
2.43.0


From 5fc720e2eb1613e90a8a15aad3704ac7eef47a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:15 +0000
Subject: [PATCH 38/71] fix: add missing UCSs in a fixed order when normalizing

---
 src/drawing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 4d35885..5a32fd3 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -30,7 +30,7 @@ use std::fs::File;
 use std::io::{BufReader, BufWriter, Cursor, Read, Write};
 
 use itertools::put_back;
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 use std::iter::Iterator;
 use std::path::Path;
 
@@ -1237,7 +1237,7 @@ impl Drawing {
     }
     fn ensure_ucs(&mut self) {
         // ensure all ucs that should exist do
-        let mut should_exist = HashSet::new();
+        let mut should_exist = BTreeSet::new();
         should_exist.insert(self.header.ucs_definition_name.clone());
         should_exist.insert(self.header.ucs_name.clone());
         should_exist.insert(self.header.ortho_ucs_reference.clone());
-- 
2.43.0


From 5ff419ccd36985daea0ec24305c251079dfdf4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:59 +0000
Subject: [PATCH 39/71] fix: read the XDATA of a block from where it is written

---
 src/block.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index f589714..196cb0a 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -133,7 +133,7 @@ impl Block {
                             value: CodePairValue::Str(ref s),
                             ..
                         } if s == "ENDBLK" => {
-                            // swallow all non-0 code pairs
+                            // the block's XDATA is written here; swallow all other non-0 code pairs
                             loop {
                                 match iter.next() {
                                     Some(Ok(pair @ CodePair { code: 0, .. })) => {
@@ -141,6 +141,15 @@ impl Block {
                                         iter.put_back(Ok(pair));
                                         break;
                                     }
+                                    Some(Ok(
+                                        pair @ CodePair {
+                                            code: x_data::XDATA_APPLICATIONNAME,
+                                            ..
+                                        },
+                                    )) => {
+                                        let x = XData::read_item(pair.assert_string()?, iter)?;
+                                        current.x_data.push(x);
+                                    }
                                     Some(Ok(_)) => (), // swallow this
                                     Some(Err(e)) => return Err(e),
                                     None => return Err(DxfError::UnexpectedEndOfInput),
-- 
2.43.0


From a46c8bfc617ff19e81035ab742a4cded86b7f32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:09 +0000
Subject: [PATCH 40/71] fix: read the handle of a block from where it is
 written before R13

---
 src/block.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index 196cb0a..d0296a4 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -150,6 +150,12 @@ impl Block {
                                         let x = XData::read_item(pair.assert_string()?, iter)?;
                                         current.x_data.push(x);
                                     }
+                                    Some(Ok(pair @ CodePair { code: 5, .. }))
+                                        if current.handle.is_empty() =>
+                                    {
+                                        // before R13 the block's handle is only written here
+                                        current.handle = pair.as_handle()?;
+                                    }
                                     Some(Ok(_)) => (), // swallow this
                                     Some(Err(e)) => return Err(e),
                                     None => return Err(DxfError::UnexpectedEndOfInput),
-- 
2.43.0


From 02fcc1599fcb5899d322e9d2b09c4f18b116d89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:52 +0000
Subject: [PATCH 41/71] fix: do not duplicate the styles of multilines when
 loading

---
 src/drawing.rs | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 5a32fd3..2bbc4f2 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -411,17 +411,10 @@ impl Drawing {
     }
     /// Adds an entity to the `Drawing`.
     pub fn add_entity(&mut self, mut entity: Entity) -> &Entity {
-        entity.common.handle = self.next_handle();
-
-        // set child handles
-        match entity.specific {
-            EntityType::Insert(ref mut ins) => ins.__seqend_handle = self.next_handle(),
-            EntityType::Polyline(ref mut poly) => poly.__seqend_handle = self.next_handle(),
-            _ => (),
-        }
-        self.ensure_child_handles_are_set(&mut entity);
+        self.set_new_entity_handles(&mut entity);
 
         // ensure invariants
+        self.ensure_mline_style_is_present_for_entity(&entity);
         self.add_entity_no_handle_set(entity)
     }
     /// Removes the specified `Entity` from the `Drawing`.
@@ -662,6 +655,17 @@ impl Drawing {
         self.__blocks.last().unwrap()
     }
     /// Sets any missing handles of an `INSERT` or `POLYLINE`'s dependent entities.
+    fn set_new_entity_handles(&mut self, entity: &mut Entity) {
+        entity.common.handle = self.next_handle();
+
+        // set child handles
+        match entity.specific {
+            EntityType::Insert(ref mut ins) => ins.__seqend_handle = self.next_handle(),
+            EntityType::Polyline(ref mut poly) => poly.__seqend_handle = self.next_handle(),
+            _ => (),
+        }
+        self.ensure_child_handles_are_set(entity);
+    }
     fn ensure_child_handles_are_set(&mut self, entity: &mut Entity) {
         let (seqend_handle, child_handles): (_, Vec<_>) = match entity.specific {
             EntityType::Insert(ref mut ins) if !ins.__attributes_and_handles.is_empty() => (
@@ -690,7 +694,6 @@ impl Drawing {
         }
     }
     fn add_entity_no_handle_set(&mut self, entity: Entity) -> &Entity {
-        self.ensure_mline_style_is_present_for_entity(&entity);
         self.ensure_dimension_style_is_present_for_entity(&entity);
         self.ensure_layer_is_present(&entity.common.layer);
         self.ensure_line_type_is_present(&entity.common.line_type_name);
@@ -1060,6 +1063,17 @@ impl Drawing {
             }
         }
 
+        // the mline styles are objects, which come after the entities using them
+        let mlines: Vec<_> = drawing
+            .__entities
+            .iter()
+            .filter(|e| matches!(e.specific, EntityType::MLine(_)))
+            .cloned()
+            .collect();
+        for e in &mlines {
+            drawing.ensure_mline_style_is_present_for_entity(e);
+        }
+
         Ok(())
     }
     fn swallow_section(iter: &mut CodePairPutBack) -> DxfResult<()> {
@@ -1082,14 +1096,13 @@ impl Drawing {
         let mut iter = EntityIter { iter };
         let mut entities = vec![];
         iter.read_entities_into_vec(&mut entities)?;
-        for e in entities {
+        for mut e in entities {
             if e.common.handle.is_empty() {
-                self.add_entity(e);
+                self.set_new_entity_handles(&mut e);
             } else {
-                let mut e = e;
                 self.ensure_child_handles_are_set(&mut e);
-                self.add_entity_no_handle_set(e);
             }
+            self.add_entity_no_handle_set(e);
         }
         Ok(())
     }
-- 
2.43.0


From 5495923d0d0eb1bc9bf6d52bf1da38b7729b8b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:31 +0000
Subject: [PATCH 42/71] fix: do not give out handles that a loaded file already
 uses

---
 src/drawing.rs | 70 ++++++++++++++++++++++++++++++++++++++++++++++++++
 src/handle.rs  |  2 +-
 2 files changed, 71 insertions(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 2bbc4f2..9d03332 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -76,6 +76,10 @@ pub struct Drawing {
     /// The thumbnail image preview of the drawing.
     #[cfg_attr(feature = "serialize", serde(skip))]
     pub thumbnail: Option<DynamicImage>,
+
+    /// While loading, no handles are given out because it isn't yet known which ones are in use.
+    #[cfg_attr(feature = "serialize", serde(skip))]
+    __is_loading: bool,
 }
 
 // public implementation
@@ -98,6 +102,7 @@ impl Drawing {
             __entities: vec![],
             __objects: vec![],
             thumbnail: None,
+            __is_loading: false,
         };
         drawing.normalize();
         drawing
@@ -131,7 +136,10 @@ impl Drawing {
         let mut drawing = Drawing::new();
         drawing.clear();
         let mut iter = CodePairPutBack::from_code_pair_iter(iter);
+        drawing.__is_loading = true;
         Drawing::read_sections(&mut drawing, &mut iter)?;
+        drawing.__is_loading = false;
+        drawing.assign_missing_handles();
         match iter.next() {
             Some(Ok(CodePair {
                 code: 0,
@@ -635,10 +643,72 @@ impl Drawing {
 // private implementation
 impl Drawing {
     pub(crate) fn next_handle(&mut self) -> Handle {
+        if self.__is_loading {
+            return Handle::empty(); // set by `assign_missing_handles()`
+        }
+
         let result = self.header.next_available_handle;
         self.header.next_available_handle = self.header.next_available_handle.next_handle_value();
         result
     }
+    /// Assign handles that no other item uses to those items that don't have one.
+    fn assign_missing_handles(&mut self) {
+        let mut next = self.header.next_available_handle;
+        self.for_each_handle(&mut |handle| {
+            if handle.0 >= next.0 {
+                next = handle.next_handle_value();
+            }
+        });
+        self.for_each_handle(&mut |handle| {
+            if handle.is_empty() {
+                *handle = next;
+                next = next.next_handle_value();
+            }
+        });
+        self.header.next_available_handle = next;
+    }
+    fn for_each_handle(&mut self, f: &mut dyn FnMut(&mut Handle)) {
+        fn entity_handles(entity: &mut Entity, f: &mut dyn FnMut(&mut Handle)) {
+            f(&mut entity.common.handle);
+            match entity.specific {
+                EntityType::Insert(ref mut ins) if !ins.__attributes_and_handles.is_empty() => {
+                    ins.__attributes_and_handles
+                        .iter_mut()
+                        .for_each(|a| f(&mut a.1));
+                    f(&mut ins.__seqend_handle);
+                }
+                EntityType::Polyline(ref mut poly) => {
+                    poly.__vertices_and_handles
+                        .iter_mut()
+                        .for_each(|v| f(&mut v.1));
+                    f(&mut poly.__seqend_handle);
+                }
+                _ => (),
+            }
+        }
+
+        self.__app_ids.iter_mut().for_each(|i| f(&mut i.handle));
+        self.__block_records
+            .iter_mut()
+            .for_each(|i| f(&mut i.handle));
+        self.__dim_styles.iter_mut().for_each(|i| f(&mut i.handle));
+        self.__layers.iter_mut().for_each(|i| f(&mut i.handle));
+        self.__line_types.iter_mut().for_each(|i| f(&mut i.handle));
+        self.__styles.iter_mut().for_each(|i| f(&mut i.handle));
+        self.__ucss.iter_mut().for_each(|i| f(&mut i.handle));
+        self.__views.iter_mut().for_each(|i| f(&mut i.handle));
+        self.__view_ports.iter_mut().for_each(|i| f(&mut i.handle));
+        for block in &mut self.__blocks {
+            f(&mut block.handle);
+            block.entities.iter_mut().for_each(|e| entity_handles(e, f));
+        }
+        self.__entities
+            .iter_mut()
+            .for_each(|e| entity_handles(e, f));
+        self.__objects
+            .iter_mut()
+            .for_each(|o| f(&mut o.common.handle));
+    }
     fn remove_item<T>(collection: &mut Vec<T>, index: usize) -> Option<T> {
         if index < collection.len() {
             Some(collection.remove(index))
diff --git a/src/handle.rs b/src/handle.rs
index d9bf612..ffdf2aa 100644
--- a/src/handle.rs
+++ b/src/handle.rs
@@ -7,7 +7,7 @@ impl Handle {
         Handle(0)
     }
     pub fn next_handle_value(self) -> Self {
-        Handle(self.0 + 1)
+        Handle(self.0.saturating_add(1))
     }
     pub fn is_empty(self) -> bool {
         self.0 == 0
-- 
2.43.0


From e970aa5e11baffff8e1ab11d43ee37e64270fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:18 +0000
Subject: [PATCH 43/71] fix: add the styles that the entities of a block name

---
 src/drawing.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 9d03332..015a180 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -403,6 +403,11 @@ impl Drawing {
         for ent in &mut block.entities {
             ent.common.handle = Handle::empty(); // always assign new handles
         }
+
+        // ensure invariants
+        for ent in &block.entities {
+            self.ensure_mline_style_is_present_for_entity(ent);
+        }
         self.add_block_no_handle_set(block)
     }
     /// Removes the specified `Block` from the `Drawing`.
@@ -719,6 +724,10 @@ impl Drawing {
     pub(crate) fn add_block_no_handle_set(&mut self, mut block: Block) -> &Block {
         self.ensure_layer_is_present_for_block(&block);
         self.ensure_line_type_is_present_for_block(&block);
+        for ent in &block.entities {
+            self.ensure_dimension_style_is_present_for_entity(ent);
+            self.ensure_text_style_is_present_for_entity(ent);
+        }
         self.ensure_block_record_is_present(&block.name);
         self.ensure_block_entity_handles_are_set(&mut block);
         self.__blocks.push(block);
@@ -1135,8 +1144,10 @@ impl Drawing {
 
         // the mline styles are objects, which come after the entities using them
         let mlines: Vec<_> = drawing
-            .__entities
+            .__blocks
             .iter()
+            .flat_map(|b| &b.entities)
+            .chain(&drawing.__entities)
             .filter(|e| matches!(e.specific, EntityType::MLine(_)))
             .cloned()
             .collect();
-- 
2.43.0


From fed1f3f1cd813aa16306c4c93598f0a2d86ed699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:44 +0000
Subject: [PATCH 44/71] fix: add the records that the header names when
 normalizing

---
 src/drawing.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drawing.rs b/src/drawing.rs
index 015a180..e9d1a77 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -1307,6 +1307,7 @@ impl Drawing {
     }
     fn ensure_dimension_styles(&mut self) {
         // ensure all dimension styles that should exist do
+        self.ensure_dimension_style_is_present(&self.header.dimension_style_name.clone());
         self.ensure_dimension_style_is_present("STANDARD");
         self.ensure_dimension_style_is_present("ANNOTATIVE");
     }
@@ -1316,12 +1317,14 @@ impl Drawing {
     }
     fn ensure_line_types(&mut self) {
         // ensure all line_types that should exist do
+        self.ensure_line_type_is_present(&self.header.current_entity_line_type.clone());
         self.ensure_line_type_is_present("BYLAYER");
         self.ensure_line_type_is_present("BYBLOCK");
         self.ensure_line_type_is_present("CONTINUOUS");
     }
     fn ensure_text_styles(&mut self) {
         // ensure all styles that should exist do
+        self.ensure_text_style_is_present(&self.header.text_style.clone());
         self.ensure_text_style_is_present("STANDARD");
         self.ensure_text_style_is_present("ANNOTATIVE");
     }
-- 
2.43.0


From 7a0e03e569c51623d714d2e9a8ac8ae1b95f4fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:04 +0000
Subject: [PATCH 45/71] fix: add the text styles of RTEXT entities and of the
 attributes of inserts

---
 src/drawing.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/drawing.rs b/src/drawing.rs
index e9d1a77..92f46a2 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -951,7 +951,14 @@ impl Drawing {
             EntityType::ArcAlignedText(ref e) => Some(&e.text_style_name),
             EntityType::Attribute(ref e) => Some(&e.text_style_name),
             EntityType::AttributeDefinition(ref e) => Some(&e.text_style_name),
+            EntityType::Insert(ref e) => {
+                for attribute in e.attributes() {
+                    self.ensure_text_style_is_present(&attribute.text_style_name);
+                }
+                None
+            }
             EntityType::MText(ref e) => Some(&e.text_style_name),
+            EntityType::RText(ref e) => Some(&e.text_style),
             EntityType::Text(ref e) => Some(&e.text_style_name),
             _ => None,
         };
-- 
2.43.0


From 94f9f65ad80c7bd65c93e49e8fff1b49006472d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:25 +0000
Subject: [PATCH 46/71] fix: never give out the empty handle after loading

---
 src/drawing.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drawing.rs b/src/drawing.rs
index 92f46a2..76bbcd6 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -659,6 +659,9 @@ impl Drawing {
     /// Assign handles that no other item uses to those items that don't have one.
     fn assign_missing_handles(&mut self) {
         let mut next = self.header.next_available_handle;
+        if next.is_empty() {
+            next = Handle(1);
+        }
         self.for_each_handle(&mut |handle| {
             if handle.0 >= next.0 {
                 next = handle.next_handle_value();
-- 
2.43.0


From b1e9ca109347d2a9e30f40ca278e5303f6002073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:11 +0000
Subject: [PATCH 47/71] fix: leave the unused z of view port spacings alone
 when normalizing

---
 src/table.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index a728229..80803c8 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -47,10 +47,8 @@ impl ViewPort {
     pub fn normalize(&mut self) {
         ensure_positive_or_default(&mut self.snap_spacing.x, 1.0);
         ensure_positive_or_default(&mut self.snap_spacing.y, 1.0);
-        ensure_positive_or_default(&mut self.snap_spacing.z, 1.0);
         ensure_positive_or_default(&mut self.grid_spacing.x, 1.0);
         ensure_positive_or_default(&mut self.grid_spacing.y, 1.0);
-        ensure_positive_or_default(&mut self.grid_spacing.z, 1.0);
         ensure_positive_or_default(&mut self.view_height, 1.0);
         ensure_positive_or_default(&mut self.view_port_aspect_ratio, 1.0);
         ensure_positive_or_default(&mut self.lens_length, 50.0);
-- 
2.43.0


From 02401774cce7deba06dc17b8ba3a87d561263e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:01 +0000
Subject: [PATCH 48/71] fix: read thumbnails with an implied palette size

---
 src/thumbnail.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index a623061..fe5bf92 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -6,6 +6,7 @@ const FILE_HEADER_LENGTH: usize = 14;
 const FILE_LENGTH_OFFSET: usize = 2;
 const IMAGE_DATA_OFFSET_OFFSET: usize = 10;
 
+const BITMAP_HEADER_BITS_PER_PIXEL_OFFSET: usize = 14;
 const BITMAP_HEADER_PALETTE_COUNT_OFFSET: usize = 32;
 
 pub(crate) fn read_thumbnail(iter: &mut CodePairPutBack) -> DxfResult<Option<image::DynamicImage>> {
@@ -83,6 +84,14 @@ fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
             data,
             FILE_HEADER_LENGTH + BITMAP_HEADER_PALETTE_COUNT_OFFSET,
         )? as usize;
+        let bits_per_pixel = read_u16(
+            data,
+            FILE_HEADER_LENGTH + BITMAP_HEADER_BITS_PER_PIXEL_OFFSET,
+        )?;
+        let palette_color_count = match (palette_color_count, bits_per_pixel) {
+            (0, 1..=8) => 1 << bits_per_pixel, // 0 means default of 2^n
+            (count, _) => count,
+        };
         palette_color_count * 4 // always 4 bytes: BGRA
     } else {
         return Ok(false);
@@ -220,6 +229,15 @@ fn test_read_i32() {
     assert_eq!(0x12345678, value);
 }
 
+fn read_u16(data: &[u8], offset: usize) -> DxfResult<u16> {
+    let expected_length = offset + 2;
+    if data.len() < expected_length {
+        return Err(DxfError::UnexpectedEndOfInput);
+    }
+
+    Ok(data[offset] as u16 + ((data[offset + 1] as u16) << 8))
+}
+
 fn read_u32(data: &[u8], offset: usize) -> DxfResult<u32> {
     let expected_length = offset + 4;
     if data.len() < expected_length {
-- 
2.43.0


From cfec92003f6b59498e4e6923e8953ec09c0ecfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:57 +0000
Subject: [PATCH 49/71] fix: ignore thumbnails with an impossible header or
 palette size

---
 src/thumbnail.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index fe5bf92..5814603 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -76,7 +76,10 @@ fn read_thumbnail_bytes_from_code_pairs(iter: &mut CodePairPutBack) -> DxfResult
 
 fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
     // calculate the image data offset
-    let dib_header_size = read_i32(data, FILE_HEADER_LENGTH)? as usize;
+    let dib_header_size = match usize::try_from(read_i32(data, FILE_HEADER_LENGTH)?) {
+        Ok(size) => size,
+        Err(_) => return Ok(false),
+    };
 
     // calculate the palette size
     let palette_size = if dib_header_size >= BITMAP_HEADER_PALETTE_COUNT_OFFSET + 4 {
@@ -99,7 +102,10 @@ fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
 
     // set the image data offset
     let image_data_offset = FILE_HEADER_LENGTH + dib_header_size + palette_size;
-    set_i32(data, IMAGE_DATA_OFFSET_OFFSET, image_data_offset as i32)?;
+    match i32::try_from(image_data_offset) {
+        Ok(offset) => set_i32(data, IMAGE_DATA_OFFSET_OFFSET, offset)?,
+        Err(_) => return Ok(false),
+    }
 
     Ok(true)
 }
-- 
2.43.0


From a0996b8c1bded0432eed6a959cf8a13eec2212c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:08 +0000
Subject: [PATCH 50/71] fix: read thumbnails with color masks

---
 src/thumbnail.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index 5814603..39e0049 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -3,10 +3,12 @@ use crate::code_pair_put_back::CodePairPutBack;
 use crate::{CodePair, DxfError, DxfResult};
 
 const FILE_HEADER_LENGTH: usize = 14;
+const BITMAP_INFO_HEADER_LENGTH: usize = 40;
 const FILE_LENGTH_OFFSET: usize = 2;
 const IMAGE_DATA_OFFSET_OFFSET: usize = 10;
 
 const BITMAP_HEADER_BITS_PER_PIXEL_OFFSET: usize = 14;
+const BITMAP_HEADER_COMPRESSION_OFFSET: usize = 16;
 const BITMAP_HEADER_PALETTE_COUNT_OFFSET: usize = 32;
 
 pub(crate) fn read_thumbnail(iter: &mut CodePairPutBack) -> DxfResult<Option<image::DynamicImage>> {
@@ -100,8 +102,19 @@ fn update_thumbnail_data_offset_in_situ(data: &mut [u8]) -> DxfResult<bool> {
         return Ok(false);
     };
 
+    // the shortest header is followed by the color masks, if there are any
+    let masks_size = if dib_header_size == BITMAP_INFO_HEADER_LENGTH {
+        match read_u32(data, FILE_HEADER_LENGTH + BITMAP_HEADER_COMPRESSION_OFFSET)? {
+            3 => 12, // red, green, blue
+            6 => 16, // red, green, blue, alpha
+            _ => 0,
+        }
+    } else {
+        0
+    };
+
     // set the image data offset
-    let image_data_offset = FILE_HEADER_LENGTH + dib_header_size + palette_size;
+    let image_data_offset = FILE_HEADER_LENGTH + dib_header_size + masks_size + palette_size;
     match i32::try_from(image_data_offset) {
         Ok(offset) => set_i32(data, IMAGE_DATA_OFFSET_OFFSET, offset)?,
         Err(_) => return Ok(false),
-- 
2.43.0


From 75cfd8e7979045ee3050195d2f299896e6559ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:19 +0000
Subject: [PATCH 51/71] fix: keep the transparency of gray thumbnails

---
 src/drawing.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 76bbcd6..c8936d7 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -1066,7 +1066,14 @@ impl Drawing {
                 pairs.push(CodePair::new_str(0, "SECTION"));
                 pairs.push(CodePair::new_str(2, "THUMBNAILIMAGE"));
                 let mut data = vec![];
-                img.write_to(&mut Cursor::new(&mut data), image::ImageFormat::Bmp)?;
+                let mut cursor = Cursor::new(&mut data);
+                if img.color().has_alpha() {
+                    // transparency is only kept in this layout
+                    img.to_rgba8()
+                        .write_to(&mut cursor, image::ImageFormat::Bmp)?;
+                } else {
+                    img.write_to(&mut cursor, image::ImageFormat::Bmp)?;
+                }
                 let length = data.len() - 14; // skip 14 byte bmp header
                 pairs.push(CodePair::new_i32(90, length as i32));
                 for s in data[14..].chunks(128) {
-- 
2.43.0


From ac9b5941c7aef344febfa7a061845c3e7e75953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:49 +0000
Subject: [PATCH 52/71] fix: do not write a thumbnail without pixels

---
 src/drawing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index c8936d7..bc10bd1 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -1062,7 +1062,9 @@ impl Drawing {
     }
     pub(crate) fn add_thumbnail_pairs(&self, pairs: &mut Vec<CodePair>) -> DxfResult<()> {
         if self.header.version >= AcadVersion::R2000 {
-            if let Some(ref img) = self.thumbnail {
+            // an image without pixels cannot be represented
+            let thumbnail = self.thumbnail.as_ref();
+            if let Some(img) = thumbnail.filter(|i| i.width() > 0 && i.height() > 0) {
                 pairs.push(CodePair::new_str(0, "SECTION"));
                 pairs.push(CodePair::new_str(2, "THUMBNAILIMAGE"));
                 let mut data = vec![];
-- 
2.43.0


From 10b52fe0e3a20d09761aa27575fa41c461073e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:40 +0000
Subject: [PATCH 53/71] fix: only scale coordinates when reading DXB

---
 src/dxb_reader.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index 8acfd35..ff5ea6b 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -288,7 +288,7 @@ impl<T: Read> DxbReader<T> {
     }
     fn read_a(&mut self) -> DxfResult<f64> {
         let value = if self.is_integer_mode {
-            f64::from(read_i32(&mut self.reader)?) * self.scale_factor / 1_000_000.0
+            f64::from(read_i32(&mut self.reader)?) / 1_000_000.0
         } else {
             f64::from(read_f32(&mut self.reader)?)
         };
@@ -296,9 +296,9 @@ impl<T: Read> DxbReader<T> {
         Ok(value)
     }
     fn read_f(&mut self) -> DxfResult<f64> {
-        let value = read_f64(&mut self.reader);
+        let value = read_f64(&mut self.reader)?;
         self.advance_offset(8);
-        Ok(value.or::<f64>(Ok(0.0)).unwrap())
+        Ok(value)
     }
     fn read_n(&mut self) -> DxfResult<f64> {
         if self.is_integer_mode {
@@ -313,7 +313,7 @@ impl<T: Read> DxbReader<T> {
     }
     fn read_u(&mut self) -> DxfResult<f64> {
         let value = if self.is_integer_mode {
-            f64::from(read_i32(&mut self.reader)?) * 65536.0 * self.scale_factor
+            f64::from(read_i32(&mut self.reader)?) / 65536.0
         } else {
             f64::from(read_f32(&mut self.reader)?)
         };
@@ -321,7 +321,7 @@ impl<T: Read> DxbReader<T> {
         Ok(value)
     }
     fn read_w(&mut self) -> DxfResult<i32> {
-        let value = (f64::from(read_i16(&mut self.reader)?) * self.scale_factor) as i32;
+        let value = i32::from(read_i16(&mut self.reader)?);
         self.advance_offset(2);
         Ok(value)
     }
-- 
2.43.0


From 1f43427e44b8887d5825a10f4761c295ba706c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:40 +0000
Subject: [PATCH 54/71] fix: write the entities of a drawing with blocks to DXB

---
 src/dxb_writer.rs | 68 +++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index e84f68a..ef5ea73 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -23,52 +23,52 @@ impl<T: Write> DxbWriter<T> {
         self.writer.write_u8(0x1A)?;
         self.writer.write_u8(0x00)?;
 
-        let writing_block = drawing.entities().any(|_| true) && drawing.blocks().any(|_| true);
-        if writing_block {
-            // write block header
-            self.write_item_type(DxbItemType::BlockBase)?;
-            let block = drawing.blocks().next().unwrap();
-            self.write_n(block.base_point.x)?;
-            self.write_n(block.base_point.y)?;
-        }
-
         // force all numbers to be floats
         self.write_item_type(DxbItemType::NumberMode)?;
         self.write_w(1)?;
 
-        // write color
-        let mut last_color = 0i16;
-        self.write_item_type(DxbItemType::NewColor)?;
-        self.write_w(last_color)?;
-
-        if writing_block {
-            self.write_entities(&drawing.blocks().next().unwrap().entities)?;
+        // a block can only be written instead of the entities of the drawing
+        let block = if drawing.entities().next().is_none() {
+            drawing.blocks().next()
         } else {
-            let groups = drawing.entities().chunk_by(|&e| e.common.layer.clone());
-            for (layer, entities) in &groups {
-                self.write_item_type(DxbItemType::NewLayer)?;
-                self.write_null_terminated_string(&layer)?;
-                for entity in entities {
-                    match entity.common.color.raw_value() {
-                        c if c == last_color => (), // same color, do nothing
-                        c => {
-                            last_color = c;
-                            self.write_item_type(DxbItemType::NewColor)?;
-                            self.write_w(last_color)?;
-                        }
-                    }
-                    self.write_entity(entity)?;
-                }
+            None
+        };
+        match block {
+            Some(block) => {
+                // write block header
+                self.write_item_type(DxbItemType::BlockBase)?;
+                self.write_n(block.base_point.x)?;
+                self.write_n(block.base_point.y)?;
+                self.write_entities(block.entities.iter())?;
             }
+            None => self.write_entities(drawing.entities())?,
         }
 
         // write null terminator
         self.writer.write_u8(0)?;
         Ok(())
     }
-    fn write_entities(&mut self, entities: &[Entity]) -> DxfResult<()> {
-        for entity in entities.iter() {
-            self.write_entity(entity)?;
+    fn write_entities<'a>(&mut self, entities: impl Iterator<Item = &'a Entity>) -> DxfResult<()> {
+        // write color
+        let mut last_color = 0i16;
+        self.write_item_type(DxbItemType::NewColor)?;
+        self.write_w(last_color)?;
+
+        let groups = entities.chunk_by(|&e| e.common.layer.clone());
+        for (layer, entities) in &groups {
+            self.write_item_type(DxbItemType::NewLayer)?;
+            self.write_null_terminated_string(&layer)?;
+            for entity in entities {
+                match entity.common.color.raw_value() {
+                    c if c == last_color => (), // same color, do nothing
+                    c => {
+                        last_color = c;
+                        self.write_item_type(DxbItemType::NewColor)?;
+                        self.write_w(last_color)?;
+                    }
+                }
+                self.write_entity(entity)?;
+            }
         }
         Ok(())
     }
-- 
2.43.0


From eadc400d5cee5a1b5f89586c690db6a2012c3b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:41 +0000
Subject: [PATCH 55/71] fix: write the bulges and widths of polylines to DXB

---
 src/dxb_writer.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index ef5ea73..ec4611c 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -197,6 +197,15 @@ impl<T: Write> DxbWriter<T> {
         self.write_item_type(DxbItemType::Vertex)?;
         self.write_n(vertex.location.x)?;
         self.write_n(vertex.location.y)?;
+        if vertex.bulge != 0.0 {
+            self.write_item_type(DxbItemType::Bulge)?;
+            self.write_n(vertex.bulge)?; // the same as a bulge value when all numbers are floats
+        }
+        if vertex.starting_width != 0.0 || vertex.ending_width != 0.0 {
+            self.write_item_type(DxbItemType::Width)?;
+            self.write_n(vertex.starting_width)?;
+            self.write_n(vertex.ending_width)?;
+        }
         Ok(())
     }
     fn write_string(&mut self, value: &str) -> DxfResult<()> {
-- 
2.43.0


From aa2b2339d0d79d875a5076b6adafa1b3e05f4d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:41 +0000
Subject: [PATCH 56/71] fix: replace the characters that DXB cannot hold

---
 src/dxb_writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dxb_writer.rs b/src/dxb_writer.rs
index ec4611c..ca6160b 100644
--- a/src/dxb_writer.rs
+++ b/src/dxb_writer.rs
@@ -210,7 +210,11 @@ impl<T: Write> DxbWriter<T> {
     }
     fn write_string(&mut self, value: &str) -> DxfResult<()> {
         for c in value.chars() {
-            self.writer.write_u8(c as u8)?;
+            let b = match c as u32 {
+                b @ 0x01..=0xFF => b as u8,
+                _ => b'?', // strings are null terminated and have one byte per character
+            };
+            self.writer.write_u8(b)?;
         }
         Ok(())
     }
-- 
2.43.0


From b1abb9009c65a624123acdfceab1190e82fdd213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:47 +0000
Subject: [PATCH 57/71] fix: continue reading DXB after an interruption

---
 src/helper_functions.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index ccea58f..762d32d 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -340,9 +340,12 @@ where
 
 pub(crate) fn read_u8<T: Read + ?Sized>(reader: &mut T) -> Option<io::Result<u8>> {
     let mut buf = [0];
-    let size = match reader.read(&mut buf) {
-        Ok(v) => v,
-        Err(e) => return Some(Err(e)),
+    let size = loop {
+        match reader.read(&mut buf) {
+            Ok(v) => break v,
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => (), // try again
+            Err(e) => return Some(Err(e)),
+        }
     };
     match size {
         0 => None,
-- 
2.43.0


From 9447000d3bbf73c2ffdffd90b73e0f1acda257b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:52 +0000
Subject: [PATCH 58/71] fix: report errors of the last write when saving to a
 file

---
 src/drawing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index bc10bd1..a54116a 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -220,7 +220,9 @@ impl Drawing {
     fn save_file_internal(&self, path: impl AsRef<Path>, as_ascii: bool) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut writer = BufWriter::new(file);
-        self.save_internal(&mut writer, as_ascii)
+        self.save_internal(&mut writer, as_ascii)?;
+        writer.flush()?; // errors are not reported when the writer is dropped
+        Ok(())
     }
     /// Writes a `Drawing` as DXB to anything that implements the `Write` trait.
     pub fn save_dxb<T>(&self, writer: &mut T) -> DxfResult<()>
@@ -234,7 +236,9 @@ impl Drawing {
     pub fn save_file_dxb(&self, path: impl AsRef<Path>) -> DxfResult<()> {
         let file = File::create(&path)?;
         let mut buf_writer = BufWriter::new(file);
-        self.save_dxb(&mut buf_writer)
+        self.save_dxb(&mut buf_writer)?;
+        buf_writer.flush()?; // errors are not reported when the writer is dropped
+        Ok(())
     }
     /// Returns an iterator for all app ids.
     pub fn app_ids(&self) -> impl Iterator<Item = &AppId> {
-- 
2.43.0


From ebc3c575f9845dfc85a49c4bc2722729cbe63541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:21 +0000
Subject: [PATCH 59/71] fix: reject text after an empty group code

---
 src/code_pair_iter.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index 3dabf70..ba63287 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -95,8 +95,13 @@ impl<T: Read> TextCodePairIter<T> {
         };
         let code_line = code_line.trim();
         if code_line.is_empty() {
-            // might be an empty file only containing a newline
-            return None;
+            // might be an empty file only containing a newline; only more empty lines may follow
+            let mut rest = vec![];
+            return match self.reader.read_to_end(&mut rest) {
+                Ok(_) if rest.iter().all(|b| b.is_ascii_whitespace()) => None,
+                Ok(_) => Some(Err(DxfError::ParseError(self.offset))),
+                Err(e) => Some(Err(DxfError::IoError(e))),
+            };
         }
 
         let code_offset = self.offset;
-- 
2.43.0


From 9498a4467c6f236464c46580e7b4e19701c23ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:29 +0000
Subject: [PATCH 60/71] fix: count the offsets in binary files from their start

---
 src/code_pair_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index ba63287..5b9352b 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -323,7 +323,7 @@ where
                 0x00,
                 19
             );
-            Box::new(BinaryCodePairIter::new(cursor, 20))
+            Box::new(BinaryCodePairIter::new(cursor, 22))
         }
         _ => Box::new(TextCodePairIter::new(
             cursor,
-- 
2.43.0


From 7f59e885af75190781455392fbe415d68641e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:51 +0000
Subject: [PATCH 61/71] fix: count the offsets in DXB files from their start

---
 src/code_pair_iter.rs | 4 ++--
 src/dxb_reader.rs     | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/code_pair_iter.rs b/src/code_pair_iter.rs
index 5b9352b..ac3175f 100644
--- a/src/code_pair_iter.rs
+++ b/src/code_pair_iter.rs
@@ -316,12 +316,12 @@ where
             assert_or_err!(
                 try_option_io_result_into_err!(read_u8(&mut cursor)),
                 0x1A,
-                18
+                20
             );
             assert_or_err!(
                 try_option_io_result_into_err!(read_u8(&mut cursor)),
                 0x00,
-                19
+                21
             );
             Box::new(BinaryCodePairIter::new(cursor, 22))
         }
diff --git a/src/dxb_reader.rs b/src/dxb_reader.rs
index ff5ea6b..24924eb 100644
--- a/src/dxb_reader.rs
+++ b/src/dxb_reader.rs
@@ -32,7 +32,7 @@ impl<T: Read> DxbReader<T> {
             last_line_point: Point::origin(),
             last_trace_p3: Point::origin(),
             last_trace_p4: Point::origin(),
-            offset: 0,
+            offset: 17, // the first line has already been read
         }
     }
     pub fn load(&mut self) -> DxfResult<Drawing> {
@@ -40,13 +40,13 @@ impl<T: Read> DxbReader<T> {
         assert_or_err!(
             try_option_io_result_into_err!(read_u8(&mut self.reader)),
             0x1A,
-            16
+            17
         );
         self.advance_offset(1);
         assert_or_err!(
             try_option_io_result_into_err!(read_u8(&mut self.reader)),
             0x00,
-            17
+            18
         );
         self.advance_offset(1);
 
-- 
2.43.0


From c2cb96ea2288bbc3008ce8559bfa904ab5d5c58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 62/71] fix: reject a section that ends inside a block

---
 src/block.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index d0296a4..e107539 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -168,6 +168,16 @@ impl Block {
                             drawing.add_block_no_handle_set(current);
                             break;
                         }
+                        CodePair {
+                            code: 0,
+                            value: CodePairValue::Str(ref s),
+                            ..
+                        } if s == "ENDSEC" => {
+                            return Err(DxfError::UnexpectedCodePair(
+                                pair,
+                                String::from("expected 0/ENDBLK"),
+                            ));
+                        }
                         CodePair { code: 0, .. } => {
                             // should be an entity
                             iter.put_back(Ok(pair));
-- 
2.43.0


From a01595d217a78ef62f102b59fef753c431a6ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:39 +0000
Subject: [PATCH 63/71] fix: limit the depth of nested groups

---
 src/extension_data.rs | 20 +++++++++++++++++++-
 src/x_data.rs         | 17 ++++++++++++++---
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/extension_data.rs b/src/extension_data.rs
index 1363059..676be31 100644
--- a/src/extension_data.rs
+++ b/src/extension_data.rs
@@ -4,6 +4,9 @@ use crate::code_pair_put_back::CodePairPutBack;
 
 pub(crate) const EXTENSION_DATA_GROUP: i32 = 102;
 
+/// Groups nested deeper than this are rejected.
+pub(crate) const MAX_GROUP_DEPTH: usize = 255;
+
 /// Represents an application name and a collection of extension group data in the form of `CodePair`s.
 #[derive(Clone, Debug, PartialEq)]
 #[cfg_attr(feature = "serialize", derive(serde::Serialize, serde::Deserialize))]
@@ -25,6 +28,14 @@ impl ExtensionGroup {
         application_name: String,
         iter: &mut CodePairPutBack,
         offset: usize,
+    ) -> DxfResult<ExtensionGroup> {
+        ExtensionGroup::read_nested_group(application_name, iter, offset, 1)
+    }
+    fn read_nested_group(
+        application_name: String,
+        iter: &mut CodePairPutBack,
+        offset: usize,
+        depth: usize,
     ) -> DxfResult<ExtensionGroup> {
         if !application_name.starts_with('{') {
             return Err(DxfError::ParseError(offset));
@@ -46,7 +57,14 @@ impl ExtensionGroup {
                     break;
                 } else if name.starts_with('{') {
                     // nested group
-                    let sub_group = ExtensionGroup::read_group(name, iter, pair.offset)?;
+                    if depth >= MAX_GROUP_DEPTH {
+                        return Err(DxfError::UnexpectedCodePair(
+                            pair,
+                            String::from("groups are nested too deeply"),
+                        ));
+                    }
+                    let sub_group =
+                        ExtensionGroup::read_nested_group(name, iter, pair.offset, depth + 1)?;
                     items.push(ExtensionGroupItem::Group(sub_group));
                 } else {
                     return Err(DxfError::UnexpectedCodePair(
diff --git a/src/x_data.rs b/src/x_data.rs
index effd859..27de788 100644
--- a/src/x_data.rs
+++ b/src/x_data.rs
@@ -2,6 +2,7 @@ use crate::{CodePair, DxfError, DxfResult, Handle, Point, Vector};
 
 use crate::code_pair_put_back::CodePairPutBack;
 use crate::enums::AcadVersion;
+use crate::extension_data::MAX_GROUP_DEPTH;
 
 pub(crate) const XDATA_APPLICATIONNAME: i32 = 1001;
 const XDATA_STRING: i32 = 1000;
@@ -71,7 +72,7 @@ impl XData {
                 iter.put_back(Ok(pair));
                 break;
             }
-            xdata.items.push(XDataItem::read_item(&pair, iter)?);
+            xdata.items.push(XDataItem::read_item(&pair, iter, 0)?);
         }
         Ok(xdata)
     }
@@ -90,10 +91,20 @@ impl XData {
 }
 
 impl XDataItem {
-    fn read_item(pair: &CodePair, iter: &mut CodePairPutBack) -> DxfResult<XDataItem> {
+    fn read_item(
+        pair: &CodePair,
+        iter: &mut CodePairPutBack,
+        depth: usize,
+    ) -> DxfResult<XDataItem> {
         match pair.code {
             XDATA_STRING => Ok(XDataItem::Str(pair.assert_string()?)),
             XDATA_CONTROLGROUP => {
+                if depth >= MAX_GROUP_DEPTH {
+                    return Err(DxfError::UnexpectedCodePair(
+                        pair.clone(),
+                        String::from("groups are nested too deeply"),
+                    ));
+                }
                 let mut items = vec![];
                 loop {
                     let pair = match iter.next() {
@@ -114,7 +125,7 @@ impl XDataItem {
                         break;
                     }
 
-                    items.push(XDataItem::read_item(&pair, iter)?);
+                    items.push(XDataItem::read_item(&pair, iter, depth + 1)?);
                 }
                 Ok(XDataItem::ControlGroup(items))
             }
-- 
2.43.0


From 97ca36115997dc91a8a6dd748ff8599a10b9c6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:48 +0000
Subject: [PATCH 64/71] fix: accept every value of a layer color

---
 src/color.rs            | 2 +-
 src/helper_functions.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color.rs b/src/color.rs
index 0fdcfd2..2e43fb2 100644
--- a/src/color.rs
+++ b/src/color.rs
@@ -77,7 +77,7 @@ impl Color {
         }
     }
     pub(crate) fn writable_color_value(&self, layer: &Layer) -> i16 {
-        let value = self.raw_value().abs();
+        let value = self.raw_value().saturating_abs();
         if layer.is_layer_on {
             value
         } else {
diff --git a/src/helper_functions.rs b/src/helper_functions.rs
index 762d32d..fe0af6e 100644
--- a/src/helper_functions.rs
+++ b/src/helper_functions.rs
@@ -292,7 +292,7 @@ fn parse_i16_test() {
 
 pub(crate) fn read_color_value(layer: &mut Layer, color: i16) -> Color {
     layer.is_layer_on = color >= 0;
-    Color::from_raw_value(color.abs())
+    Color::from_raw_value(color.saturating_abs())
 }
 
 pub(crate) fn read_line<T>(
-- 
2.43.0


From 7c47b76a808fce2a2f5e61037aee87ca2c7aa7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:20 +0000
Subject: [PATCH 65/71] fix: reject handles that are too long

---
 src/code_pair.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/code_pair.rs b/src/code_pair.rs
index c8a387c..0782ea1 100644
--- a/src/code_pair.rs
+++ b/src/code_pair.rs
@@ -101,7 +101,12 @@ impl CodePair {
         while bytes.len() < 8 {
             bytes.insert(0, 0);
         }
-        Ok(Handle(BigEndian::read_u64(&bytes)))
+        let (leading, value) = bytes.split_at(bytes.len() - 8);
+        if leading.iter().any(|b| *b != 0) {
+            // doesn't fit in a handle
+            return Err(DxfError::ParseError(self.offset));
+        }
+        Ok(Handle(BigEndian::read_u64(value)))
     }
 }
 
-- 
2.43.0


From 5b3872cd661a8eb47556a1cc86c30f6017eb79a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:10 +0000
Subject: [PATCH 66/71] fix: limit the size of thumbnails by the size of their
 data

---
 src/thumbnail.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/thumbnail.rs b/src/thumbnail.rs
index 39e0049..aa81a47 100644
--- a/src/thumbnail.rs
+++ b/src/thumbnail.rs
@@ -11,6 +11,10 @@ const BITMAP_HEADER_BITS_PER_PIXEL_OFFSET: usize = 14;
 const BITMAP_HEADER_COMPRESSION_OFFSET: usize = 16;
 const BITMAP_HEADER_PALETTE_COUNT_OFFSET: usize = 32;
 
+// run-length encoded images have at most 255 pixels for every 2 bytes
+const MINIMUM_IMAGE_LIMIT: u64 = 16 * 1024 * 1024;
+const MAXIMUM_EXPANSION: u64 = 1024;
+
 pub(crate) fn read_thumbnail(iter: &mut CodePairPutBack) -> DxfResult<Option<image::DynamicImage>> {
     match read_thumbnail_bytes_from_code_pairs(iter)? {
         Some(mut data) => {
@@ -224,7 +228,16 @@ fn set_thumbnail_offset_for_bitmapv4header_palette_256() {
 }
 
 fn read_thumbnail_from_bytes(data: &[u8]) -> DxfResult<Option<image::DynamicImage>> {
-    let image = image::load_from_memory(data)?;
+    let mut reader =
+        image::ImageReader::with_format(std::io::Cursor::new(data), image::ImageFormat::Bmp);
+
+    // the size in the header might not have anything to do with what's there
+    let mut limits = image::Limits::default();
+    let max_alloc = MINIMUM_IMAGE_LIMIT + data.len() as u64 * MAXIMUM_EXPANSION;
+    limits.max_alloc = Some(limits.max_alloc.unwrap_or(max_alloc).min(max_alloc));
+    reader.limits(limits);
+
+    let image = reader.decode()?;
     Ok(Some(image))
 }
 
-- 
2.43.0


From 56c8277ff708f1dbe92a974b1d9d35bf7451f2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:07 +0000
Subject: [PATCH 67/71] fix: write rotated dimensions as such before R13

---
 src/entity.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index d32b132..3c6e3e9 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1425,7 +1425,17 @@ impl Entity {
         dim: &RotatedDimension,
         version: AcadVersion,
     ) -> bool {
-        dim.dimension_base.add_code_pairs(pairs, version);
+        let mut dimension_base = dim.dimension_base.clone();
+        if version < AcadVersion::R13
+            && !matches!(
+                dimension_base.dimension_type,
+                DimensionType::RotatedHorizontalOrVertical | DimensionType::Aligned
+            )
+        {
+            // there is nothing but the type number to tell the dimensions apart
+            dimension_base.dimension_type = DimensionType::RotatedHorizontalOrVertical;
+        }
+        dimension_base.add_code_pairs(pairs, version);
         if version >= AcadVersion::R13 {
             pairs.push(CodePair::new_str(100, "AcDbAlignedDimension"));
         }
-- 
2.43.0


From b0963d5f2774592119c8e75ca36f1680b79f99d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:15 +0000
Subject: [PATCH 68/71] fix: reject records inside of an extension group

---
 src/extension_data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/extension_data.rs b/src/extension_data.rs
index 676be31..e30c494 100644
--- a/src/extension_data.rs
+++ b/src/extension_data.rs
@@ -46,6 +46,12 @@ impl ExtensionGroup {
         let mut items = vec![];
         loop {
             let pair = match iter.next() {
+                Some(Ok(pair @ CodePair { code: 0, .. })) => {
+                    return Err(DxfError::UnexpectedCodePair(
+                        pair,
+                        String::from("expected an extension end pair"),
+                    ));
+                }
                 Some(Ok(pair)) => pair,
                 Some(Err(e)) => return Err(e),
                 None => return Err(DxfError::UnexpectedEndOfInput),
-- 
2.43.0


From aa90d15b9343945500b0bf58dcb8589a5e573b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:47 +0000
Subject: [PATCH 69/71] fix: do not mistake extension data of ENDBLK for XDATA
 or a handle

---
 src/block.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index e107539..57a7778 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -150,6 +150,19 @@ impl Block {
                                         let x = XData::read_item(pair.assert_string()?, iter)?;
                                         current.x_data.push(x);
                                     }
+                                    Some(Ok(
+                                        pair @ CodePair {
+                                            code: extension_data::EXTENSION_DATA_GROUP,
+                                            ..
+                                        },
+                                    )) => {
+                                        // another instance of the block's extension data
+                                        ExtensionGroup::read_group(
+                                            pair.assert_string()?,
+                                            iter,
+                                            pair.offset,
+                                        )?;
+                                    }
                                     Some(Ok(pair @ CodePair { code: 5, .. }))
                                         if current.handle.is_empty() =>
                                     {
-- 
2.43.0


From 14b717391e197c1075f3476a337ab1791bd90ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:27 +0000
Subject: [PATCH 70/71] fix: keep the two version words of a proxy entity apart

---
 src/entity.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 3c6e3e9..a2af4ca 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -165,15 +165,16 @@ impl ProxyEntity {
         (self.__object_drawing_format & 0xFFFF) as i32
     }
     pub fn set_object_drawing_format_version(&mut self, version: i32) {
-        self.__object_drawing_format |= version as u32 & 0xFFFF;
+        self.__object_drawing_format =
+            (self.__object_drawing_format & 0xFFFF_0000) | (version as u32 & 0xFFFF);
     }
     // upper word
     pub fn object_maintenance_release_version(&self) -> i32 {
-        self.__object_drawing_format as i32 >> 4
+        (self.__object_drawing_format >> 16) as i32
     }
     pub fn set_object_mainenance_release_version(&mut self, version: i32) {
         self.__object_drawing_format =
-            (version << 4) as u32 + (self.__object_drawing_format & 0xFFFF);
+            ((version as u32) << 16) | (self.__object_drawing_format & 0xFFFF);
     }
 }
 
-- 
2.43.0


From 3e1ddc8f88b181b082b82da843427615daf096f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:54 +0000
Subject: [PATCH 71/71] fix: the column count of MTEXT was replaced by the
 number of column heights

---
 src/entity.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index a2af4ca..64be352 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -1235,6 +1235,7 @@ impl Entity {
     ) -> DxfResult<bool> {
         let mut reading_column_data = false;
         let mut read_column_count = false;
+        let mut read_column_height_count = false;
         let mut subclass_marker = None;
         loop {
             let pair = next_pair!(iter);
@@ -1308,11 +1309,15 @@ impl Entity {
                 }
                 50 => {
                     if reading_column_data {
-                        if read_column_count {
+                        if read_column_height_count {
                             mtext.column_heights.push(pair.assert_f64()?);
                         } else {
-                            mtext.column_count = pair.assert_f64()? as i32;
-                            read_column_count = true;
+                            // columns of automatic height have no heights, so this might be 0
+                            let column_height_count = pair.assert_f64()? as i32;
+                            if !read_column_count {
+                                mtext.column_count = column_height_count;
+                            }
+                            read_column_height_count = true;
                         }
                     } else {
                         mtext.rotation_angle = pair.assert_f64()?;
@@ -1354,6 +1359,7 @@ impl Entity {
                 }
                 76 => {
                     mtext.column_count = i32::from(pair.assert_i16()?);
+                    read_column_count = true;
                 }
                 78 => {
                     mtext.is_column_flow_reversed = as_bool(pair.assert_i16()?);
-- 
2.43.0

