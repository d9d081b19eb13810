From e10562dd0914dd5273c84cf99560a0a907d6e3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:08 +0000
Subject: [PATCH 1/4] fix: root fans by direction, not chain side, so reversed
 winding emits the right triangles

---
 src/monotone.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/monotone.rs b/src/monotone.rs
index 2a84809..e5f5de4 100644
--- a/src/monotone.rs
+++ b/src/monotone.rs
@@ -111,7 +111,8 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
                 // and can make the calls in a reversed order
                 let is_backtracking = self.can_triangulate();
                 let mut bodt: BuilderOrDeferredTris<'_, '_, P, FB> = if is_backtracking ^ self.is_left_chain ^ (FB::Builder::WINDING == TriangleWinding::Clockwise) {
-                    if !self.is_left_chain {
+                    // A backtracking fan is rooted at the active vertex, an advancing fan at the penultimate stack vertex
+                    if is_backtracking {
                         std::mem::swap(&mut vi0, &mut vi2);
                     }
                     BuilderOrDeferredTris::Builder(fbs.new_fan(ps.polygon_list(), vi0, vi1, vi2)?)
-- 
2.43.0


From f3d36d093fdfcf91bd4ad5a9623c1f854f87fa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:08 +0000
Subject: [PATCH 2/4] fix: return an error instead of looping forever when a
 monotone cannot be triangulated

---
 src/monotone.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/monotone.rs b/src/monotone.rs
index e5f5de4..53bd4f6 100644
--- a/src/monotone.rs
+++ b/src/monotone.rs
@@ -99,6 +99,9 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
             }
         }
 
+        // The number of vertices remaining at the previous reset, to detect a full pass that could not remove any vertex
+        let mut last_reset_vertices = None;
+
         while self.remaining_vertices() >= 3 {
             if self.can_triangulate() {
                 // The base triangle, with all 3 points specified
@@ -164,6 +167,12 @@ impl<Index: VertexIndex, C: Real> Monotone<Index, C> {
             } else {
                 // In rare cases, pushing vertices and popping whenever backtracking is possible will not be able to triangulate everything.
                 // If we have pushed all vertices and we can't backtrack, reset our position to the initial setup (minus all removed vertices)
+                // If an entire pass did not remove a vertex, no later pass can either
+                let remaining_vertices = self.remaining_vertices();
+                if last_reset_vertices == Some(remaining_vertices) {
+                    return Err(TriangulationError::internal(format!("Unable to triangulate the {remaining_vertices} remaining vertices of a monotone polygon")));
+                }
+                last_reset_vertices = Some(remaining_vertices);
                 self.reset_position();
             }
         }
-- 
2.43.0


From be19b83aa41de5cb9c539d2b457b817347de70c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:24 +0000
Subject: [PATCH 3/4] fix: leave the output untouched when the first delimited
 fan contains the delimiter

---
 src/outputs/formats/delimited_fan.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/outputs/formats/delimited_fan.rs b/src/outputs/formats/delimited_fan.rs
index d45bd59..79473aa 100644
--- a/src/outputs/formats/delimited_fan.rs
+++ b/src/outputs/formats/delimited_fan.rs
@@ -52,6 +52,11 @@ pub struct DelimitedFanBuilder<'p, P: PolygonList<'p> + ?Sized, FS: Fans<Fan=P::
 
 impl<'p, P: PolygonList<'p> + ?Sized, FS: Fans<Fan=P::Index>> DelimitedFanBuilder<'p, P, FS> {
     fn new(mut fans: FS, delimiter: P::Index, _polygon_list: &'p P, vi0: P::Index, vi1: P::Index, vi2: P::Index) -> Result<Self, <Self as FanBuilder<'p, P>>::Error> {
+        // Check before adding anything to fans, because there is no builder yet to clean up when initialization fails
+        if delimiter == vi0 || delimiter == vi1 || delimiter == vi2 {
+            return Err(DelimitedFanError::IndexMatchesDelimiter);
+        }
+
         let initial_vert_count = fans.len();
 
         if fans.len() > 0 {
-- 
2.43.0


From ea14efb8ca4f76b4316331b3ecf4d2653b737e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:46 +0000
Subject: [PATCH 4/4] fix: let a list builder clean up when adding its first
 triangle fails

---
 src/outputs/formats/fan_to_list.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/outputs/formats/fan_to_list.rs b/src/outputs/formats/fan_to_list.rs
index 4c386b8..580f60c 100644
--- a/src/outputs/formats/fan_to_list.rs
+++ b/src/outputs/formats/fan_to_list.rs
@@ -1,6 +1,6 @@
 use std::marker::PhantomData;
 
-use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding};
+use crate::{PolygonList, ListFormat, FanFormat, FanBuilder, ListBuilder, TriangleWinding, TriangulationError};
 
 /// A wrapper which adapts a [ListFormat] to work as a [FanFormat], which is required for [PolygonList::triangulate]
 /// 
@@ -18,7 +18,15 @@ impl<'p, P: PolygonList<'p> + ?Sized, LB: ListFormat<'p, P>> FanFormat<'p, P> fo
 
     fn initialize(self, polygon_list: &'p P, vi0: <P as PolygonList<'p>>::Index, vi1: <P as PolygonList<'p>>::Index, vi2: <P as PolygonList<'p>>::Index) -> Result<Self::Builder, <Self::Builder as FanBuilder<'p, P>>::Error> {
         let mut list_builder = self.0.initialize(polygon_list)?;
-        list_builder.add_triangle(vi0.clone(), vi1, vi2.clone())?;
+        if let Err(error) = list_builder.add_triangle(vi0.clone(), vi1, vi2.clone()) {
+            // The list builder already exists, so it needs the opportunity to clean up
+            let error = TriangulationError::FanBuilder(error);
+            list_builder.fail(&error);
+            return match error {
+                TriangulationError::FanBuilder(error) => Err(error),
+                _ => unreachable!(),
+            };
+        }
         
         let fan_builder = FanToListBuilder::new(list_builder, vi0, vi2);
         Ok(fan_builder)
-- 
2.43.0

