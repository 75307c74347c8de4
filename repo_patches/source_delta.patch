From 7e35ac8393ea9a3430954d1e865a542c17f12a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 01/39] fix: insert_dihedron closes the side that is still open

---
 src/halfedge/primitives/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/halfedge/primitives/mod.rs b/src/halfedge/primitives/mod.rs
index 016fc86..9ca37cb 100644
--- a/src/halfedge/primitives/mod.rs
+++ b/src/halfedge/primitives/mod.rs
@@ -22,7 +22,8 @@ where
 
     fn insert_dihedron(&mut self, vp: impl IntoIterator<Item = T::VP>) -> T::E {
         let first = self.insert_polygon(vp);
-        self.close_hole(self.edge(first).twin_id(), Default::default(), false);
+        // the twin side already belongs to the polygon's face
+        self.close_hole(first, Default::default(), false);
         first
     }
 }
-- 
2.43.0


From d29d6f03332a30888136d4a327917d7858724b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 02/39] fix: flip keeps the links of dangling and isolated
 edges intact

---
 src/halfedge/edge/halfedge.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/halfedge/edge/halfedge.rs b/src/halfedge/edge/halfedge.rs
index 18921e4..95ba34c 100644
--- a/src/halfedge/edge/halfedge.rs
+++ b/src/halfedge/edge/halfedge.rs
@@ -145,6 +145,20 @@ impl<T: HalfEdgeImplMeshType> HalfEdge<T> for HalfEdgeImpl<T> {
         let t_prev_id = twin.prev;
         let t_face_id = twin.face_id();
 
+        // At a dangling end, one of these neighbors is the edge itself or its twin,
+        // which swap their roles.
+        let swap = |id: T::E| {
+            if id == e {
+                twin_id
+            } else if id == twin_id {
+                e
+            } else {
+                id
+            }
+        };
+        let (next_id, prev_id) = (swap(next_id), swap(prev_id));
+        let (t_next_id, t_prev_id) = (swap(t_next_id), swap(t_prev_id));
+
         let edge = mesh.edge_mut(e);
         edge.next = t_next_id;
         edge.prev = t_prev_id;
-- 
2.43.0


From 741f73e190d4ccaead9b0c7fd17cd8b6e2b5dc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 03/39] fix: close_hole and insert_edge refuse loops that
 already have a face before changing the mesh

---
 src/halfedge/mesh/builder/builder.rs  | 6 ++++++
 src/halfedge/mesh/builder/halfedge.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/halfedge/mesh/builder/builder.rs b/src/halfedge/mesh/builder/builder.rs
index 4f10605..a3a5258 100644
--- a/src/halfedge/mesh/builder/builder.rs
+++ b/src/halfedge/mesh/builder/builder.rs
@@ -86,6 +86,12 @@ impl<T: HalfEdgeImplMeshType> MeshBuilder<T> for HalfEdgeMeshImpl<T> {
     }
 
     fn close_hole(&mut self, e: T::E, fp: T::FP, curved: bool) -> T::F {
+        // refuse before inserting the face
+        debug_assert!(
+            self.edge(e).is_boundary_self(),
+            "The loop of edge {} already has a face",
+            e
+        );
         let f = self.faces.push(HalfEdgeFaceImpl::new(e, curved, fp));
         self.edge(e)
             .clone()
diff --git a/src/halfedge/mesh/builder/halfedge.rs b/src/halfedge/mesh/builder/halfedge.rs
index de52dcb..20fecec 100644
--- a/src/halfedge/mesh/builder/halfedge.rs
+++ b/src/halfedge/mesh/builder/halfedge.rs
@@ -198,6 +198,12 @@ impl<T: HalfEdgeImplMeshType> MeshHalfEdgeBuilder<T> for HalfEdgeMeshImpl<T> {
 
         debug_assert!(e_inside.same_face_back(self, w));
         debug_assert!(e_outside.same_face_back(self, v));
+        debug_assert!(
+            e_inside.is_boundary_self() && e_outside.is_boundary_self(),
+            "The loop of edges {} and {} already has a face",
+            inside,
+            outside
+        );
 
         let other_inside = e_outside.next(self);
         let other_outside = e_inside.next(self);
-- 
2.43.0


From 6bb5760f5c4c0a8fdf51279f4cccfa504ad3c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 04/39] fix: element counts and index exhaustion when an
 insertion is abandoned half-way

---
 src/util/deletable.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/util/deletable.rs b/src/util/deletable.rs
index 79a33f7..e3b7e37 100644
--- a/src/util/deletable.rs
+++ b/src/util/deletable.rs
@@ -22,6 +22,8 @@ pub trait Deletable<I> {
 pub struct DeletableVector<T: Deletable<I>, I: IndexType> {
     data: Vec<T>,
     deleted: Vec<I>,
+    /// the number of non-deleted elements; allocated but unset slots don't count
+    live: usize,
 }
 
 impl<T: Deletable<I>, I: IndexType> DeletableVector<T, I> {
@@ -30,6 +32,7 @@ impl<T: Deletable<I>, I: IndexType> DeletableVector<T, I> {
         Self {
             data: Vec::new(),
             deleted: Vec::new(),
+            live: 0,
         }
     }
 
@@ -37,6 +40,7 @@ impl<T: Deletable<I>, I: IndexType> DeletableVector<T, I> {
     pub fn clear(&mut self) {
         self.data.clear();
         self.deleted.clear();
+        self.live = 0;
     }
 
     /// Returns an iterator over the non-deleted elements.
@@ -79,7 +83,7 @@ impl<T: Deletable<I>, I: IndexType> DeletableVector<T, I> {
 
     /// Returns the number of non-deleted elements.
     pub fn len(&self) -> usize {
-        self.data.len() - self.deleted.len()
+        self.live
     }
 
     /// Returns the maximum index of the non-deleted elements.
@@ -96,11 +100,13 @@ impl<T: Deletable<I>, I: IndexType> DeletableVector<T, I> {
         if let Some(index) = self.deleted.pop() {
             v.set_id(index);
             self.data[index.index()] = v;
+            self.live += 1;
             index
         } else {
             let index = I::new(self.data.len());
             v.set_id(index);
             self.data.push(v);
+            self.live += 1;
             index
         }
     }
@@ -118,11 +124,13 @@ impl<T: Deletable<I>, I: IndexType> DeletableVector<T, I> {
         );
         v.set_id(index);
         self.data[index.index()] = v;
+        self.live += 1;
     }
 
     /// Marks the element as deleted and remembers it for reallocation.
     pub fn delete_internal(&mut self, f: I) {
         self.data[f.index()].delete();
+        self.live -= 1;
         self.deleted.push(f);
     }
 
@@ -133,10 +141,13 @@ impl<T: Deletable<I>, I: IndexType> DeletableVector<T, I> {
         if let Some(index) = self.deleted.pop() {
             index
         } else {
+            // refuse before growing when the index type is exhausted
+            let index = I::new(self.data.len());
+            assert!(index != <I as IndexType>::max(), "Index type exhausted");
             let t = T::allocate();
             debug_assert!(t.is_deleted());
             self.data.push(t);
-            I::new(self.data.len() - 1)
+            index
         }
     }
 }
-- 
2.43.0


From f51bcaaf951869b6609004cc8e3672fa11e4ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 05/39] fix: insert_vertices_into_edge works for origins of any
 degree and aborts cleanly

---
 src/halfedge/mesh/builder/builder.rs | 72 ++++++++++++++++++----------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/src/halfedge/mesh/builder/builder.rs b/src/halfedge/mesh/builder/builder.rs
index a3a5258..fe80825 100644
--- a/src/halfedge/mesh/builder/builder.rs
+++ b/src/halfedge/mesh/builder/builder.rs
@@ -2,8 +2,8 @@ use crate::{
     halfedge::{HalfEdgeFaceImpl, HalfEdgeImplMeshType, HalfEdgeMeshImpl},
     math::IndexType,
     mesh::{
-        DefaultEdgePayload, DefaultFacePayload, EdgeBasics, FaceBasics, HalfEdge, HalfEdgeVertex,
-        MeshBasics, MeshBuilder, MeshHalfEdgeBuilder,
+        DefaultEdgePayload, DefaultFacePayload, EdgeBasics, FaceBasics, HalfEdge, HalfEdgeSemiBuilder,
+        HalfEdgeVertex, MeshBasics, MeshBuilder, MeshHalfEdgeBuilder,
     },
 };
 
@@ -127,34 +127,54 @@ impl<T: HalfEdgeImplMeshType> MeshBuilder<T> for HalfEdgeMeshImpl<T> {
         e: T::E,
         ps: I,
     ) -> T::E {
-        let twin_id = self.edge(e).twin_id();
-        let mut current = self.edge(e).prev_id();
-        let mut current_twin = self.edge(twin_id).next_id();
-        let f1 = self.edge(e).face_id();
-        let f2 = self.edge(twin_id).face_id();
-        let mut last_v = self.edge(e).origin_id();
-        let mut first = true;
+        let mut first = self.edge(e).id();
         for (ep1, ep2, vp) in ps {
-            let (v, e1, e2) =
-                self.add_vertex_via_edge(current, self.edge(current).twin_id(), vp, ep1, ep2);
-            current = e1;
-            current_twin = e2;
-            last_v = v;
-            self.edge_mut(current).set_face(f1);
-            self.edge_mut(current_twin).set_face(f2);
-            if first {
-                self.vertex_mut(self.edge(e).origin_id()).set_edge(e1);
-                first = false;
+            // Split off a new edge between the current origin of `e` and the new vertex.
+            // The mesh is valid again before the next item is requested.
+            let edge = self.edge(e);
+            let origin = edge.origin_id();
+            let prev = edge.prev_id();
+            let face = edge.face_id();
+            let twin = edge.twin(self);
+            let twin_id = twin.id();
+            let twin_next = twin.next_id();
+            let twin_face = twin.face_id();
+
+            // if `e` is the only edge at its origin, the new pair of edges turns around there
+            let only = prev == twin_id;
+            let v = self.vertices.allocate();
+            let (e1, e2) = self.insert_edge_no_update_no_check(
+                (
+                    e,
+                    if only { IndexType::max() } else { prev },
+                    origin,
+                    face,
+                    ep1,
+                ),
+                (
+                    if only { IndexType::max() } else { twin_next },
+                    twin_id,
+                    v,
+                    twin_face,
+                    ep2,
+                ),
+            );
+            self.vertices.set(v, T::Vertex::new(e, vp));
+            if !only {
+                self.edge_mut(prev).set_next(e1);
+                self.edge_mut(twin_next).set_prev(e2);
             }
-        }
+            self.edge_mut(e).set_prev(e1);
+            self.edge_mut(e).set_origin(v);
+            self.edge_mut(twin_id).set_next(e2);
+            self.vertex_mut(origin).set_edge(e1);
 
-        self.edge_mut(current).set_next(e);
-        self.edge_mut(e).set_prev(current);
-        self.edge_mut(current_twin).set_prev(twin_id);
-        self.edge_mut(twin_id).set_next(current_twin);
-        self.edge_mut(e).set_origin(last_v);
+            if first == e {
+                first = e1;
+            }
+        }
 
-        return e;
+        first
     }
 
     fn add_vertex(&mut self, vp: T::VP) -> T::V {
-- 
2.43.0


From 880b72a3796b18f01d7331feb05b9ac4c41fb767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 06/39] fix: size_hint of the face edge iterator counts only
 the remaining edges

---
 src/halfedge/edge/iterator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/halfedge/edge/iterator.rs b/src/halfedge/edge/iterator.rs
index fbf1281..df0689c 100644
--- a/src/halfedge/edge/iterator.rs
+++ b/src/halfedge/edge/iterator.rs
@@ -55,7 +55,8 @@ impl<'a, T: HalfEdgeImplMeshType> Iterator for ForwardEdgeIterator<'a, T> {
     #[inline(always)]
     fn size_hint(&self) -> (usize, Option<usize>) {
         let mut curr = self.current.clone();
-        let mut len = 1;
+        // `current` itself is only outstanding until it has been returned
+        let mut len = if self.is_first { 1 } else { 0 };
         while curr.next(self.mesh).id() != self.first {
             len += 1;
             curr = curr.next(self.mesh);
-- 
2.43.0


From 9d6e17e14931c94cc9c4f7ee0330efa3ed44012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 07/39] fix: dodecahedron lofts along the open side of its
 first face

---
 src/primitives/sphere.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index ec2016a..b2501e6 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -80,14 +80,14 @@ where
 
         let mut mesh: Self = Make2dShape::polygon([
             make_vp(one, one, one),    // orange
-            make_vp(zero, phi, iphi),  // green
-            make_vp(-one, one, one),   // orange
-            make_vp(-iphi, zero, phi), // blue
             make_vp(iphi, zero, phi),  // blue
+            make_vp(-iphi, zero, phi), // blue
+            make_vp(-one, one, one),   // orange
+            make_vp(zero, phi, iphi),  // green
         ]);
 
         // TODO: polygon should return something more helpful
-        let start = mesh.shared_edge_id(T::V::new(1), T::V::new(0)).unwrap();
+        let start = mesh.shared_edge_id(T::V::new(4), T::V::new(0)).unwrap();
         let start_middle = mesh.loft_polygon_back(
             start,
             3,
-- 
2.43.0


From 2d179668afe9b9b1e03a41cec964185b8a1398fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 08/39] fix: loop_subdivision handles open meshes and leaves
 the mesh sound when it is refused or fails

---
 src/operations/subdivision.rs | 77 +++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 35 deletions(-)

diff --git a/src/operations/subdivision.rs b/src/operations/subdivision.rs
index 926aa8c..cff58b8 100644
--- a/src/operations/subdivision.rs
+++ b/src/operations/subdivision.rs
@@ -2,6 +2,7 @@ use crate::mesh::{
     DefaultEdgePayload, EdgeBasics, FaceBasics, HalfEdge, HalfEdgeSemiBuilder, MeshTypeHalfEdge,
     VertexInterpolator,
 };
+use std::collections::HashSet;
 
 /// Describes how to subdivide a mesh.
 #[derive(Debug, Clone, Copy)]
@@ -57,51 +58,57 @@ where
         // TODO: See https://github.com/OptimisticPeach/hexasphere
         let fs = self.faces().map(|f| f.id()).collect::<Vec<_>>();
         for face in &fs {
-            // get the edge chain
+            assert!(
+                self.face(*face).num_edges(self) == 3,
+                "loop subdivision requires a triangle mesh"
+            );
+        }
+
+        // Ask for the additional vertex of each edge before changing anything
+        let mut visited = HashSet::new();
+        let mut midpoints = Vec::new();
+        let mut corners = Vec::with_capacity(fs.len());
+        for face in &fs {
             let edges = self.face(*face).edges(self).collect::<Vec<_>>();
             let vs = edges.iter().map(|e| e.origin_id()).collect::<Vec<_>>();
-            assert!(edges.len() == 3);
-
-            // insert an additional vertex for each edge
-            for i in 0..3 {
-                if self
-                    .subdivide_unsafe_try_fixup(edges[i].id(), Default::default())
-                    .is_some()
-                {
-                    // edge is already subdivided
+            corners.push(vs[0]);
+            for (i, e) in edges.iter().enumerate() {
+                if !visited.insert(e.id()) {
+                    // edge was already visited from the other side
                     continue;
                 }
+                visited.insert(e.twin_id());
+                let weight = |j: usize| if j == i || j == (i + 1) % 3 { 1 } else { 0 };
                 let vp = vp_builder.call(
                     self,
                     [
-                        (
-                            if vs[0] == edges[i].origin_id() || vs[0] == edges[i].target_id(self) {
-                                1
-                            } else {
-                                0
-                            },
-                            vs[0],
-                        ),
-                        (
-                            if vs[1] == edges[i].origin_id() || vs[1] == edges[i].target_id(self) {
-                                1
-                            } else {
-                                0
-                            },
-                            vs[1],
-                        ),
-                        (
-                            if vs[2] == edges[i].origin_id() || vs[2] == edges[i].target_id(self) {
-                                1
-                            } else {
-                                0
-                            },
-                            vs[2],
-                        ),
+                        (weight(0), vs[0]),
+                        (weight(1), vs[1]),
+                        (weight(2), vs[2]),
                     ],
                 );
-                self.subdivide_unsafe(edges[i].id(), vp, Default::default());
+                midpoints.push((e.id(), vp));
             }
+        }
+
+        // insert the additional vertices. This also updates the other side of boundary edges.
+        for (e, vp) in midpoints {
+            self.insert_vertices_into_edge(
+                e,
+                std::iter::once((Default::default(), Default::default(), vp)),
+            );
+        }
+
+        for (face, corner) in fs.iter().zip(corners) {
+            // the edges starting at the original corners
+            let edges = self
+                .face(*face)
+                .edges(self)
+                .find(|e| e.origin_id() == corner)
+                .unwrap()
+                .edges_face(self)
+                .step_by(2)
+                .collect::<Vec<_>>();
 
             // remove the original face
             let fp = self.remove_face(*face);
-- 
2.43.0


From 779dc8368da6df78c0eb7f47d621debae4c74b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 09/39] fix: rotation arc between antiparallel vectors

---
 src/extensions/nalgebra/math/rotate.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/extensions/nalgebra/math/rotate.rs b/src/extensions/nalgebra/math/rotate.rs
index f3ecdbd..b9e39d8 100644
--- a/src/extensions/nalgebra/math/rotate.rs
+++ b/src/extensions/nalgebra/math/rotate.rs
@@ -98,14 +98,25 @@ impl<S: Scalar, const D: usize> NdRotate<S, D> {
                 rot: None,
             }
         } else if D == 3 {
+            let from = from.fixed_rows::<3>(0).into_owned();
+            let to = to.fixed_rows::<3>(0).into_owned();
             Self {
                 rot2: None,
                 rot3: Some(
-                    nalgebra::Rotation3::rotation_between(
-                        &from.fixed_rows::<3>(0).into_owned(),
-                        &to.fixed_rows::<3>(0).into_owned(),
-                    )
-                    .expect("Failed to create rotation"),
+                    nalgebra::Rotation3::rotation_between(&from, &to).unwrap_or_else(|| {
+                        // The vectors are antiparallel: turn around any perpendicular axis
+                        let x = VecN::<S, 3>::x();
+                        let axis = from.cross(&x);
+                        let axis = if axis.norm_squared() < from.norm_squared() * S::from(0.5) {
+                            from.cross(&VecN::<S, 3>::y())
+                        } else {
+                            axis
+                        };
+                        nalgebra::Rotation3::from_axis_angle(
+                            &nalgebra::Unit::new_normalize(axis),
+                            S::PI,
+                        )
+                    }),
                 ),
                 rot: None,
             }
-- 
2.43.0


From ccaf70125eb80840866881c13c9c4e819bbda500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 10/39] fix: min-weight quad only uses the diagonal 0-2 where
 it lies inside

---
 src/tesselate/fixed_n.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tesselate/fixed_n.rs b/src/tesselate/fixed_n.rs
index 92e9007..e3f0046 100644
--- a/src/tesselate/fixed_n.rs
+++ b/src/tesselate/fixed_n.rs
@@ -65,11 +65,9 @@ pub fn min_weight_quad<V: IndexType, Vec2: Vector2D, Poly: Polygon<Vec2>>(
     let weight_diagonal_0_2 = vs[0].vec.distance_squared(&vs[2].vec);
     let weight_diagonal_1_3 = vs[1].vec.distance_squared(&vs[3].vec);
 
-    // TODO: Are the convexity checks correct? Or do they check the exact opposite?
-
     if weight_diagonal_0_2 <= weight_diagonal_1_3 {
         let vs1_3_convex =
-            vs[1].vec.convex(vs[2].vec, vs[0].vec) && vs[3].vec.convex(vs[0].vec, vs[2].vec);
+            vs[1].vec.convex(vs[0].vec, vs[2].vec) && vs[3].vec.convex(vs[2].vec, vs[0].vec);
         if vs1_3_convex {
             // insert the diagonal 0-2
             indices.insert_triangle(vs[0].index, vs[1].index, vs[2].index);
-- 
2.43.0


From aff85441b0ee2617e2612279a32aa8fd5389c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 11/39] fix: sweep split connects to the lowest vertex of the
 interval

---
 src/tesselate/sweep/sweep.rs | 44 +++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/tesselate/sweep/sweep.rs b/src/tesselate/sweep/sweep.rs
index 48acda5..d17b045 100644
--- a/src/tesselate/sweep/sweep.rs
+++ b/src/tesselate/sweep/sweep.rs
@@ -126,26 +126,28 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
         let line = self.sls.remove_left(i, &self.vec2s).unwrap();
         assert!(!line.is_end(), "A split vertex must not be an end vertex");
 
-        let stacks = if let Some(mut fixup) = line.fixup {
+        // The diagonal goes to the helper: it is the lowest vertex of the interval that was already
+        // handled and hence always visible from the split vertex.
+        let (left_chain, right_chain) = if let Some(mut fixup) = line.fixup {
             #[cfg(feature = "sweep_debug_print")]
-            println!("fixup split: {}", fixup);
+            println!("fixup split: {:?}", fixup);
 
-            let t = fixup.last_opposite();
-
-            fixup.right(event.here, self.tri, self.vec2s);
-            fixup.finish(self.tri, self.vec2s);
-
-            let mut x = MT::new(t);
-            x.left(event.here, self.tri, self.vec2s);
-            x
-        } else if line.chain.is_right() {
-            let mut x = MT::new(line.helper);
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            let mut chain = line.chain;
+            chain.right(event.here, self.tri, self.vec2s);
+            fixup.left(event.here, self.tri, self.vec2s);
+            (chain, fixup)
         } else {
-            let mut x = MT::new(line.chain.last_opposite());
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            let mut x = MT::new(line.helper);
+            let mut chain = line.chain;
+            if chain.is_right() {
+                chain.right(event.here, self.tri, self.vec2s);
+                x.left(event.here, self.tri, self.vec2s);
+                (chain, x)
+            } else {
+                chain.left(event.here, self.tri, self.vec2s);
+                x.right(event.here, self.tri, self.vec2s);
+                (x, chain)
+            }
         };
 
         self.sls.insert(
@@ -153,11 +155,7 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
                 helper: event.here,
                 left: line.left,
                 right: IntervalBoundaryEdge::new(event.here, event.prev),
-                chain: {
-                    let mut x = line.chain;
-                    x.right(event.here, self.tri, self.vec2s);
-                    x
-                },
+                chain: left_chain,
                 fixup: None,
             },
             self.vec2s,
@@ -168,7 +166,7 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
                 helper: event.here,
                 left: IntervalBoundaryEdge::new(event.here, event.next),
                 right: line.right,
-                chain: stacks,
+                chain: right_chain,
                 fixup: None,
             },
             self.vec2s,
-- 
2.43.0


From 53d9308267d2a15bf171a9130a0a41aa2c88e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 12/39] fix: sweep status compares the tree hit with the linear
 search after the containment test

---
 src/tesselate/sweep/status.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tesselate/sweep/status.rs b/src/tesselate/sweep/status.rs
index 131a7c9..1239bd7 100644
--- a/src/tesselate/sweep/status.rs
+++ b/src/tesselate/sweep/status.rs
@@ -238,6 +238,13 @@ impl<MT: MonotoneTriangulator> SweepLineStatus<MT> {
             .next()
             .map(|sorter| sorter.left);
 
+        // the interval left of the position can also end before the position
+        let x = x.filter(|i| {
+            self.left[*i]
+                .as_ref()
+                .map_or(false, |v| v.contains(pos, vec2s))
+        });
+
         debug_assert!(
             x == self.find_linearly(pos, vec2s),
             "The binary search did not return the same result as the linear search. {:?} != {:?}
@@ -250,14 +257,7 @@ impl<MT: MonotoneTriangulator> SweepLineStatus<MT> {
             self.tree,
         );
 
-        if let Some(i) = x {
-            if let Some(v) = &self.left[i] {
-                if v.contains(pos, vec2s) {
-                    return x;
-                }
-            }
-        }
-        None
+        x
     }
 
     /// Delayed initialization of the b-tree
-- 
2.43.0


From a9f696d96654568b6eeb342c3b68f8de77e52380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 13/39] fix: triangle_touches_boundary considers all three
 edges and ignores chords of other faces

---
 src/halfedge/face/mod.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/halfedge/face/mod.rs b/src/halfedge/face/mod.rs
index d5efd13..7085d56 100644
--- a/src/halfedge/face/mod.rs
+++ b/src/halfedge/face/mod.rs
@@ -3,7 +3,7 @@ use crate::{
     math::IndexType,
     mesh::{
         DefaultFacePayload, EdgeBasics, Face, Face3d, FaceBasics, FacePayload, HalfEdge,
-        MeshBasics, MeshType3D,
+        MeshBasics, MeshType3D, VertexBasics,
     },
     util::Deletable,
 };
@@ -102,24 +102,20 @@ impl<T: HalfEdgeImplMeshType> Face for HalfEdgeFaceImpl<T> {
         v1: T::V,
         v2: T::V,
     ) -> Option<bool> {
-        if let Some(e) = mesh.shared_edge(v0, v1) {
-            // it has a common halfedge with another face. That means, it cannot be part of *this* face.
-            if e.face_id() != self.id() {
-                return Some(false);
+        for (v, w) in [(v0, v1), (v1, v2), (v2, v0)] {
+            for e in mesh.vertex(v).edges_out(mesh) {
+                if e.target_id(mesh) != w {
+                    continue;
+                }
+                if e.face_id() == self.id() {
+                    return Some(true);
+                }
+                // The face lies on the other side of this edge. That means, the triangle cannot be part of *this* face.
+                if e.twin(mesh).face_id() == self.id() {
+                    return Some(false);
+                }
+                // Otherwise, the edge is a chord that belongs to other faces and isn't evidence for anything
             }
-            return Some(!e.is_boundary_self());
-        }
-        if let Some(e) = mesh.shared_edge(v1, v2) {
-            if e.face_id() != self.id() {
-                return Some(false);
-            }
-            return Some(!e.is_boundary_self());
-        }
-        if let Some(e) = mesh.shared_edge(v2, v0) {
-            if e.face_id() != self.id() {
-                return Some(false);
-            }
-            return Some(!e.is_boundary_self());
         }
 
         return None;
-- 
2.43.0


From 87f33c7b64b4be50d155d843261dd006ede5892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:05 +0000
Subject: [PATCH 14/39] fix: dense_vertices remaps the indices of meshes with
 gaps in the vertex ids

---
 src/halfedge/mesh/basics.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/halfedge/mesh/basics.rs b/src/halfedge/mesh/basics.rs
index 12798f7..fb96fa9 100644
--- a/src/halfedge/mesh/basics.rs
+++ b/src/halfedge/mesh/basics.rs
@@ -3,9 +3,7 @@ use std::collections::HashMap;
 use super::{HalfEdgeImplMeshType, HalfEdgeMeshImpl};
 use crate::{
     math::IndexType,
-    mesh::{
-        EdgeBasics, FaceBasics, HalfEdge, MeshBasics, Triangulation, VertexBasics, VertexPayload,
-    },
+    mesh::{EdgeBasics, FaceBasics, HalfEdge, MeshBasics, VertexBasics, VertexPayload},
     util::Deletable,
 };
 
@@ -153,7 +151,9 @@ impl<T: HalfEdgeImplMeshType> MeshBasics<T> for HalfEdgeMeshImpl<T> {
                 id_map.insert(v.id(), T::V::new(vertices.len()));
                 vertices.push(v.payload().clone());
             }
-            Triangulation::new(indices).map_indices(&id_map);
+            for i in indices.iter_mut() {
+                *i = id_map[i];
+            }
         }
 
         vertices
-- 
2.43.0


From f9743054e3fa4e7f99c0bd03eb80af9b610cafae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 15/39] fix: generate_smooth_normals leaves vertices without
 faces alone instead of writing NaN

---
 src/mesh/mesh/normals.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mesh/mesh/normals.rs b/src/mesh/mesh/normals.rs
index c4aeb54..a75dbb0 100644
--- a/src/mesh/mesh/normals.rs
+++ b/src/mesh/mesh/normals.rs
@@ -53,16 +53,18 @@ pub trait WithNormals<
 
         let normals = MeshBasics::vertices(self)
             .map(|v| {
-                v.faces(self)
-                    .map(|f| face_normals[&f.id()])
-                    .stable_mean()
-                    .normalize()
+                let mut around = v.faces(self).map(|f| face_normals[&f.id()]).peekable();
+                // vertices without faces have nothing to average
+                around.peek()?;
+                Some(around.stable_mean().normalize())
             })
             .collect::<Vec<_>>();
 
         self.vertices_mut().enumerate().for_each(|(i, v)| {
             // set the average of face normals for each vertex
-            v.payload_mut().set_normal(normals[i]);
+            if let Some(normal) = normals[i] {
+                v.payload_mut().set_normal(normal);
+            }
         });
 
         self
-- 
2.43.0


From 071c3169430734af17bf2bc7f5f88a75e36cf602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 16/39] fix: trivial isomorphism reads the other mesh's edge
 ends and face loops from the other mesh

---
 src/mesh/mesh/basics.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 346eb3c..5a93f21 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -364,8 +364,8 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         for e in self.edges() {
             let other_e = other.edge(e.id());
             if e.id() != other_e.id()
-                || e.origin(self).id() != other_e.origin(self).id()
-                || e.target(self).id() != other_e.target(self).id()
+                || e.origin(self).id() != other_e.origin(other).id()
+                || e.target(self).id() != other_e.target(other).id()
                 || !compare_edge(e, other_e)
             {
                 return MeshEquivalenceDifference::DifferentEdges(e.id(), other_e.id());
@@ -375,10 +375,10 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         for f in self.faces() {
             let other_f = other.face(f.id());
             if f.id() != other_f.id()
-                || f.num_vertices(self) != other_f.num_vertices(self)
+                || f.num_vertices(self) != other_f.num_vertices(other)
                 || !equal_up_to_rotation(
                     &f.edge_ids(self).collect_vec(),
-                    &other_f.edge_ids(self).collect_vec(),
+                    &other_f.edge_ids(other).collect_vec(),
                 )
                 || !compare_face(f, other_f)
             {
-- 
2.43.0


From 6bd3b499b2d8238c64abceeba54eed2b5c4f2f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 17/39] fix: trivial isomorphism reports ids that are missing
 in the other mesh instead of panicking

---
 src/mesh/mesh/basics.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 5a93f21..2706f24 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -355,13 +355,20 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         }
 
         for v in self.vertices() {
+            if !other.has_vertex(v.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingVertex;
+            }
             let other_v = other.vertex(v.id());
             if v.id() != other_v.id() || !compare_vertex(v, other_v) {
                 return MeshEquivalenceDifference::DifferentVertices(v.id(), other_v.id());
             }
         }
 
+        let other_edges: HashSet<T::E> = other.edge_ids().collect();
         for e in self.edges() {
+            if !other_edges.contains(&e.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingEdge(e.id());
+            }
             let other_e = other.edge(e.id());
             if e.id() != other_e.id()
                 || e.origin(self).id() != other_e.origin(other).id()
@@ -372,7 +379,11 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             }
         }
 
+        let other_faces: HashSet<T::F> = other.face_ids().collect();
         for f in self.faces() {
+            if !other_faces.contains(&f.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingFace(f.id());
+            }
             let other_f = other.face(f.id());
             if f.id() != other_f.id()
                 || f.num_vertices(self) != other_f.num_vertices(other)
-- 
2.43.0


From 859905111d21bdfdf3d51d93d7258d358999e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:54 +0000
Subject: [PATCH 18/39] fix: is_isomorphic_pos matches the vertices by position
 as documented

---
 src/mesh/mesh/basics.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 2706f24..bd8d23a 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -464,12 +464,7 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
     where
         T::VP: HasPosition<D, Vec, S = S>,
     {
-        self.is_trivially_isomorphic_ex(
-            other,
-            |a, b| a.pos().is_about(&b.pos(), eps),
-            |_, _| true,
-            |_, _| true,
-        )
+        self.is_isomorphic_by_pos::<S, D, Vec, T>(other, eps)
     }
 
     /// Same as `is_trivially_isomorphic_pos`, but also checks control points of curved edges.
-- 
2.43.0


From 64ab20aa07429cd6b77b0dcee5ac807ce1fc5495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 19/39] fix: trivial isomorphism compares the edge order around
 each vertex as documented

---
 src/mesh/mesh/basics.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index bd8d23a..0004632 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -379,6 +379,21 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             }
         }
 
+        // the same edges in a different order around a vertex
+        for v in self.vertices() {
+            let wheel = v.edges_out(self).map(|e| e.id()).collect_vec();
+            let other_wheel = other
+                .vertex(v.id())
+                .edges_out(other)
+                .map(|e| e.id())
+                .collect_vec();
+            if !(wheel.is_empty() && other_wheel.is_empty())
+                && !equal_up_to_rotation(&wheel, &other_wheel)
+            {
+                return MeshEquivalenceDifference::DifferentVertices(v.id(), v.id());
+            }
+        }
+
         let other_faces: HashSet<T::F> = other.face_ids().collect();
         for f in self.faces() {
             if !other_faces.contains(&f.id()) {
-- 
2.43.0


From f866ad0de47a3931ce45d09f1d2251d0a15c10a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:59 +0000
Subject: [PATCH 20/39] fix: loft_polygon closes the hem only after going
 around the boundary once

---
 src/operations/loft.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/operations/loft.rs b/src/operations/loft.rs
index 0d2bf86..865f56b 100644
--- a/src/operations/loft.rs
+++ b/src/operations/loft.rs
@@ -179,10 +179,13 @@ where
 
         let mut iter = vp.into_iter();
         let mut input = start;
-        let start_vertex = self.edge(start).target_id(self);
-        if let Some(vp) = iter.next() {
+        let Some(vp) = iter.next() else {
+            return start;
+        };
+        // The edge leading back from the first inserted vertex. When `input` gets there, the hem
+        // went around exactly once. (The boundary can visit the start vertex more often.)
+        let (_, _, first) =
             self.add_vertex_via_edge_default(input, self.edge(start).next_id(), vp);
-        }
 
         let mut ret = start;
         loop {
@@ -208,7 +211,7 @@ where
             }
 
             let Some(vp) = iter.next() else {
-                if start_vertex == self.edge(input).target_id(self) {
+                if input == first {
                     // reached the start again - close the last vertex!
                     self.close_face_default(inside, self.edge(input).prev_id(), false);
                 }
@@ -251,10 +254,13 @@ where
 
         let mut iter = vp.into_iter();
         let mut input = start;
-        let start_vertex = self.edge(start).origin_id();
-        if let Some(vp) = iter.next() {
+        let Some(vp) = iter.next() else {
+            return start;
+        };
+        // The edge leading to the first inserted vertex. When `input` gets there, the hem
+        // went around exactly once. (The boundary can visit the start vertex more often.)
+        let (_, first, _) =
             self.add_vertex_via_edge_default(self.edge(start).prev_id(), input, vp);
-        }
 
         let mut ret = start;
         loop {
@@ -290,7 +296,7 @@ where
             }
 
             let Some(vp) = iter.next() else {
-                if start_vertex == self.edge(input).origin_id() {
+                if input == first {
                     // Reached the start again - close the last face
                     self.close_face_default(input, self.edge(inside).prev_id(), false);
                 }
-- 
2.43.0


From c45763955782b04cea2936846a3a981d29e7820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 21/39] fix: extrude_boundary extrudes every boundary, not only
 those at a representative edge of a face

---
 src/operations/extrude.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/operations/extrude.rs b/src/operations/extrude.rs
index 43fc8a4..61095ed 100644
--- a/src/operations/extrude.rs
+++ b/src/operations/extrude.rs
@@ -24,9 +24,14 @@ where
         T::VP: Transformable<D, Trans = T::Trans, S = T::S>,
         T: EuclideanMeshType<D, Mesh = Self>,
     {
-        let faces = self.face_ids().collect_vec();
-        for f in faces {
-            let e = self.face(f).edge(self).twin_id();
+        // Edges without any face don't bound anything
+        let edges = self
+            .edges()
+            .filter(|e| e.is_boundary_self() && !e.twin(self).is_boundary_self())
+            .map(|e| e.id())
+            .collect_vec();
+        for e in edges {
+            // Each boundary is extruded as a whole at the first of its edges
             if self.edge(e).is_boundary_self() {
                 self.extrude(e, transform);
             }
-- 
2.43.0


From cfe17adf75e3ec1c960a4c92e27c5ca13e6adc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 22/39] fix: insert_antiprism extrudes the outer edge of its
 polygon instead of always panicking

---
 src/primitives/prismatoid.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index 7dfb468..a272490 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -74,15 +74,10 @@ where
     /// of the top polygon will be slightly smaller!
     fn insert_antiprism(&mut self, vp: impl IntoIterator<Item = T::VP>, height: T::S) -> T::E {
         let first = self.insert_polygon(vp);
-        let f = self
-            .edge(first)
-            .face(self)
-            .expect("The polygon must have a face");
-        let normal = f.normal(self).normalize();
-        let e = self.extrude_tri2(
-            self.edge(first).twin_id(),
-            T::Trans::from_translation(-normal * height),
-        );
+        let twin = self.edge(first).twin(self);
+        let f = twin.face(self).expect("The polygon must have a face");
+        let normal = Face3d::normal(f, self).normalize();
+        let e = self.extrude_tri2(first, T::Trans::from_translation(-normal * height));
         e
     }
 
-- 
2.43.0


From 7373caaa057f461b48cfbfe06d76c40f4d6c6f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 23/39] fix: cylinder does not request the unimplemented smooth
 frustum that always panics

---
 src/primitives/prismatoid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index a272490..db0f3cd 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -245,7 +245,8 @@ where
 
     /// Creates a regular cylinder
     fn cylinder(radius: T::S, height: T::S, n: usize) -> T::Mesh {
-        Self::regular_frustum(radius, radius, height, n, true)
+        Self::regular_frustum(radius, radius, height, n, false)
+        // TODO: make it smooth
     }
 
     /// Creates a regular prism with given radius `r`, height `h`, and `n` sides.
-- 
2.43.0


From b333afed878ccf34598aa2d0a4761683183d8d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 24/39] fix: all vertices of a geodesic tetrahedron are at the
 given radius

---
 src/primitives/sphere.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index b2501e6..dc89d60 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -199,7 +199,8 @@ where
     where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
-        let mut mesh = Self::regular_tetrahedron(radius);
+        // the edge length of a regular tetrahedron with this circumscribed radius
+        let mut mesh = Self::regular_tetrahedron(radius * T::S::from_usize(4) / T::S::from_usize(6).sqrt());
         debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
-- 
2.43.0


From f8fd29909a6aa4daa806c70561b9ab2b365bfd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 25/39] fix: all edges of a uniform antiprism have the same
 length

---
 src/primitives/prismatoid.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index db0f3cd..c32cd00 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -269,11 +269,10 @@ where
 
     /// Creates a uniform antiprism with given radius `r` and `n` sides.
     fn uniform_antiprism(r: T::S, n: usize) -> Self {
-        // TODO: isn't this the edge length?
-        Self::regular_antiprism(
-            r,
-            regular_polygon_sidelength(r, n) * T::S::THREE.sqrt() * T::S::HALF,
-            n,
-        )
+        // All edges must be as long as the sides of the polygons. The two polygons are turned by
+        // half a side, so seen from above their vertices are as far apart as in a 2n-gon.
+        let a = regular_polygon_sidelength(r, n);
+        let b = regular_polygon_sidelength(r, 2 * n);
+        Self::regular_antiprism(r, (a * a - b * b).sqrt(), n)
     }
 }
-- 
2.43.0


From 50cebda85b5e6a7c3bd4279a3abcd6e72479313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:55 +0000
Subject: [PATCH 26/39] fix: the vertices of a dodecahedron are at the given
 radius

---
 src/primitives/sphere.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index dc89d60..492091a 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -72,9 +72,10 @@ where
     fn dodecahedron(radius: T::S) -> Self {
         // https://en.wikipedia.org/wiki/Regular_dodecahedron#/media/File:Dodecahedron_vertices.svg
 
-        let phi = radius * T::S::PHI;
-        let iphi = radius / T::S::PHI;
-        let one = radius;
+        // the corners of the inscribed cube are at distance `radius`
+        let one = radius / T::S::THREE.sqrt();
+        let phi = one * T::S::PHI;
+        let iphi = one / T::S::PHI;
         let zero = T::S::ZERO;
         let make_vp = |x, y, z| T::VP::from_pos(T::Vec::from_xyz(x, y, z));
 
-- 
2.43.0


From 680fb0aa66a4f781fea7e81009ea6417c58ba6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:41 +0000
Subject: [PATCH 27/39] fix: converting a mesh with isolated vertices does not
 panic

---
 src/halfedge/mesh/builder/halfedge.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/halfedge/mesh/builder/halfedge.rs b/src/halfedge/mesh/builder/halfedge.rs
index 20fecec..14c5250 100644
--- a/src/halfedge/mesh/builder/halfedge.rs
+++ b/src/halfedge/mesh/builder/halfedge.rs
@@ -356,6 +356,8 @@ impl<T: HalfEdgeImplMeshType> HalfEdgeMeshImpl<T> {
             face_map.insert(face.id(), f);
         }
         let mut edge_map = std::collections::HashMap::new();
+        // isolated vertices don't have an edge
+        edge_map.insert(IndexType::max(), IndexType::max());
         for edge in MeshBasics::edges(mesh) {
             let e = res.halfedges.allocate();
             edge_map.insert(edge.id(), e);
-- 
2.43.0


From 1f4f940df6d90319127e2b2fa2495ecd6bd0e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:41 +0000
Subject: [PATCH 28/39] fix: flatten_curved_edges also removes the curves that
 are within the tolerance of a line

---
 src/mesh/mesh/basics.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 0004632..b113611 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -176,9 +176,6 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             let edge = self.edge(*e);
             if edge.curve_type() != CurvedEdgeType::Linear {
                 let vs = edge.flatten_casteljau(tol, self);
-                if vs.len() == 0 {
-                    continue;
-                }
                 self.insert_vertices_into_edge(
                     *e,
                     vs.iter()
-- 
2.43.0


From 43e7e59ed7f93634f2d26bec30de9eca4226daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:18 +0000
Subject: [PATCH 29/39] fix: flatten_casteljau subdivides s-shaped curves that
 cross the line in their middle

---
 src/mesh/edge/curved.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mesh/edge/curved.rs b/src/mesh/edge/curved.rs
index affa3a4..8a6f242 100644
--- a/src/mesh/edge/curved.rs
+++ b/src/mesh/edge/curved.rs
@@ -98,11 +98,15 @@ pub trait CurvedEdge<const D: usize, T: EuclideanMeshType<D, Edge = Self>>: Edge
             let p0 = curve.point_at(edge, mesh, t0);
             let p1 = curve.point_at(edge, mesh, t1);
             let tm = (t0 + t1) / T::S::TWO;
-            let pm = curve.point_at(edge, mesh, tm);
-            let p_line = p0.lerped(&p1, T::S::HALF);
-            let deviation = pm.distance(&p_line);
 
-            if deviation <= error {
+            // The middle alone is not enough: an s-shaped curve crosses the line there
+            let quarter = T::S::HALF * T::S::HALF;
+            let acceptable = [T::S::HALF, quarter, T::S::ONE - quarter].iter().all(|&s| {
+                let p = curve.point_at(edge, mesh, t0.lerp(t1, s));
+                p.distance(&p0.lerped(&p1, s)) <= error
+            });
+
+            if acceptable {
                 // The segment is acceptable; push p1
                 lines.push(p1);
             } else {
-- 
2.43.0


From ddd45fe6cb984db5efbed23ddb097020ff873f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 30/39] fix: insert_edge_between refuses to connect a vertex
 with itself

---
 src/halfedge/mesh/builder/halfedge.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/halfedge/mesh/builder/halfedge.rs b/src/halfedge/mesh/builder/halfedge.rs
index 14c5250..029cf5b 100644
--- a/src/halfedge/mesh/builder/halfedge.rs
+++ b/src/halfedge/mesh/builder/halfedge.rs
@@ -116,6 +116,11 @@ impl<T: HalfEdgeImplMeshType> MeshHalfEdgeBuilder<T> for HalfEdgeMeshImpl<T> {
             "Second Vertex {} does not exist",
             origin1
         );
+        debug_assert!(
+            origin0 != origin1,
+            "Cannot connect vertex {} with itself",
+            origin0
+        );
         debug_assert!(
             self.shared_edge(origin0, origin1).is_none(),
             "There is already an edge between first vertex {} and second vertex {}",
-- 
2.43.0


From 48e63e4b00943bf97736fab11bd919ed34976c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 31/39] fix: PathBuilder::close draws the closing line of an
 open path instead of always panicking

---
 src/mesh/mesh/path_builder.rs | 41 ++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/mesh/mesh/path_builder.rs b/src/mesh/mesh/path_builder.rs
index 4b1e395..f4001e9 100644
--- a/src/mesh/mesh/path_builder.rs
+++ b/src/mesh/mesh/path_builder.rs
@@ -214,15 +214,6 @@ where
         T::Mesh: MeshHalfEdgeBuilder<T>,
         T::EP: DefaultEdgePayload,
     {
-        self.has_face = true;
-
-        if self.is_closed() {
-            let start_inner = self.start_edges().expect("The path is empty.").0;
-            return self.mesh().close_hole(start_inner, fp, false);
-        }
-
-        self.closed = true;
-
         let Some((current_inner, current_outer)) = self.current_edges() else {
             // The current vertex doesn't have any edges yet.
             assert!(self.start_edges().is_none());
@@ -235,18 +226,22 @@ where
             return IndexType::max();
         };
 
-        let end_of_path = self
-            .mesh()
-            .edge(current_inner)
-            .clone()
-            .edges_face(self.mesh())
-            .find(|e| e.id() == current_outer || e.id() == start_inner)
-            .expect("The path is malformed.");
-
-        if end_of_path.id() == current_outer {
-            // The path is open and needs to be closed.
-            //self.mesh().close
-            self.line_to(self.start_vertex());
+        if !self.is_closed() {
+            let end_of_path = self
+                .mesh()
+                .edge(current_inner)
+                .clone()
+                .edges_face(self.mesh())
+                .find(|e| e.id() == current_outer || e.id() == start_inner)
+                .expect("The path is malformed.");
+
+            if end_of_path.id() == current_outer {
+                // The path is open and needs to be closed.
+                //self.mesh().close
+                self.line_to(self.start_vertex());
+            }
+
+            self.closed = true;
         }
 
         // TODO: is this necessary or not? Generally, is the correction above correct? Or is the winding in the opposite direction?
@@ -258,7 +253,9 @@ where
         .find(|e| e.id() == start_inner)
         .is_some());*/
 
-        self.mesh().close_hole(start_inner, fp, false)
+        let face = self.mesh().close_hole(start_inner, fp, false);
+        self.has_face = true;
+        face
     }
 
     /// Add a vertex or return the index of the start vertex if the position is the same.
-- 
2.43.0


From 7dbd657c26bed02963c67a807ce6514b63bb63e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 32/39] fix: PathBuilder::move_to_new begins another path after
 a closed one as documented

---
 src/mesh/mesh/path_builder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mesh/mesh/path_builder.rs b/src/mesh/mesh/path_builder.rs
index f4001e9..e9f8dbd 100644
--- a/src/mesh/mesh/path_builder.rs
+++ b/src/mesh/mesh/path_builder.rs
@@ -311,14 +311,18 @@ where
         T: EuclideanMeshType<D, Trans = Transform>,
         Transform: TransformTrait<T::S, D, Vec = T::Vec>,
     {
-        assert!(self.start_vertex() == IndexType::max());
-        assert!(self.start_edges().is_none());
-        assert!(self.current_vertex() == IndexType::max());
+        assert!(
+            self.is_closed() || self.current_edges().is_none(),
+            "The current path is neither empty nor closed."
+        );
 
         let v = self.add_transformed_pos(pos);
         self.start_vertex = v;
         self.current_vertex = v;
+        self.start_edges = None;
+        self.current_edges = None;
         self.closed = false;
+        self.has_face = false;
         self
     }
 
-- 
2.43.0


From d91d8b85a2c3bc1466e852ee02897ee10362e1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 33/39] fix: import_svg imports paths with several subpaths
 instead of panicking

---
 src/extensions/svg/svg.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/extensions/svg/svg.rs b/src/extensions/svg/svg.rs
index 0f00d34..b2b731f 100644
--- a/src/extensions/svg/svg.rs
+++ b/src/extensions/svg/svg.rs
@@ -55,7 +55,10 @@ where
     for s in path.data().segments() {
         match s {
             usvg::tiny_skia_path::PathSegment::MoveTo(p) => {
-                assert!(is_first);
+                if !is_first && !pb.has_face() {
+                    // an open subpath is filled as if it was closed
+                    pb.close(Default::default());
+                }
                 pb.move_to_new(v(p));
                 //pb = PathBuilder::<T>::start(mesh, v(p));
             }
-- 
2.43.0


From 1cb664d64ec3c1033952ee857cd650b6a7ec8ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 34/39] fix: the curve that closes a glyph's outline is set on
 the edge in drawing direction

---
 src/mesh/mesh/fonts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/mesh/fonts.rs b/src/mesh/mesh/fonts.rs
index 977ac25..56a8f07 100644
--- a/src/mesh/mesh/fonts.rs
+++ b/src/mesh/mesh/fonts.rs
@@ -136,7 +136,7 @@ impl<'a> Font<'a> {
             if let Some(_p) = cur {
                 // TODO: don't use eq but similarity
                 if first.unwrap() == p1 {
-                    let (_, _, e) = mesh.close_face_vertices(
+                    let (_, e, _) = mesh.close_face_vertices(
                         prev_v,
                         Default::default(),
                         cur_v,
-- 
2.43.0


From eecff3c327085a21ebb8d39da3c4306990031c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 35/39] fix: glyphs advance at the scale they are drawn at

---
 src/mesh/mesh/fonts.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/mesh/mesh/fonts.rs b/src/mesh/mesh/fonts.rs
index 56a8f07..464ab53 100644
--- a/src/mesh/mesh/fonts.rs
+++ b/src/mesh/mesh/fonts.rs
@@ -28,7 +28,10 @@ impl<'a> Font<'a> {
     }
 
     fn font_scale(&self) -> f32 {
-        self.scale //* self.font.pt_to_px_scale(1.0).map(|x| x.x).unwrap_or(1.0)
+        self.font
+            .pt_to_px_scale(self.scale)
+            .map(|x| x.x)
+            .unwrap_or(self.scale)
     }
 
     /// Get the advance of the given character.
@@ -89,13 +92,7 @@ impl<'a> Font<'a> {
             return;
         };
 
-        let scale = T::S::from(
-            self.font
-                .pt_to_px_scale(self.scale)
-                .map(|x| x.x)
-                .unwrap_or(self.scale)
-                / self.font.height_unscaled(),
-        );
+        let scale = T::S::from(self.font_scale() / self.font.height_unscaled());
         let mut first = None;
         let mut cur = None;
         let mut cur_v = IndexType::max();
-- 
2.43.0


From a9d3b70736b3a972925aac8c8fd607eb10ee5a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 36/39] fix: a face whose convex and reflex corners alternate
 is not convex

---
 src/mesh/face/face3d.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index aaef6ef..e51531a 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -26,10 +26,13 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
     fn is_convex(&self, mesh: &T::Mesh) -> bool {
         // TODO: is this correct?
         // TODO: collinear points cause problems
-        self.vertices_crossed(mesh)
-            .circular_tuple_windows::<(_, _)>()
-            .map(|w| w.0.dot(&w.1).is_positive())
-            .all_equal()
+        // All corners must turn the same way as the first one. Comparing only neighboring corners
+        // would also accept faces where convex and reflex corners alternate.
+        let mut crossed = self.vertices_crossed(mesh);
+        match crossed.next() {
+            Some(first) => crossed.all(|c| c.dot(&first).is_positive()),
+            None => true,
+        }
     }
 
     /// Whether the face is planar.
-- 
2.43.0


From be2c2c9fe8658b8d8e6c63b0667f378ddd43a629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 37/39] fix: a triangulation behind other indices is measured
 and verified as a whole

---
 src/mesh/triangulation.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index 2e60803..c122812 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -179,7 +179,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
 
     /// Check for non-degenerate triangles (no zero-area triangles)
     pub fn verify_non_degenerate_triangle<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) {
-        for i in self.start..self.len() {
+        for i in 0..self.len() {
             let area = self.get_triangle_area(i, vec_hm);
             /*assert!(
                 area.abs() > Vec2::S::ZERO,
@@ -228,8 +228,8 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
             );
         }*/
 
-        for i in (self.start..num_vertices).step_by(3) {
-            for j in (self.start..num_vertices).step_by(3) {
+        for i in (0..num_vertices).step_by(3) {
+            for j in (0..num_vertices).step_by(3) {
                 if i == j {
                     continue;
                 }
@@ -292,7 +292,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
     /// Calculate the total edge weight of the triangulation
     pub fn total_edge_weight<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) -> Vec2::S {
         let mut total = Vec2::S::ZERO;
-        for i in self.start..self.len() {
+        for i in 0..self.len() {
             let (i1, i2, i3) = self.get_triangle(i);
             let v0 = vec_hm[&i1];
             let v1 = vec_hm[&i2];
-- 
2.43.0


From f29b0f2aa35a7d1b133487eb2e3ae65c75cd66a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 38/39] fix: the verifier compares areas at the precision of
 the scalar type

---
 src/mesh/triangulation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index c122812..79b45d9 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -314,7 +314,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
         // Check if the area of the polygon is the same as the sum of the areas of the triangles
         assert!(
             (Vec2::S::ONE - area / reference).abs()
-                <= (Vec2::S::ONE + Vec2::S::from_usize(5) * Vec2::S::EPS),
+                <= Vec2::S::EPS.sqrt(),
             "Area of the polygon is not equal to the sum of the areas of the triangles ({} != {})",
             area,
             reference
-- 
2.43.0


From 2c04cf1cd3757f8c246911fed17c37459a4cc508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 39/39] fix: with_scale scales what came before, rotations
 included

The documentation says that everything is scaled, also previous translations;
the translation was, but the scale was put before the previous rotation.
---
 src/extensions/nalgebra/math/transform_n.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/nalgebra/math/transform_n.rs b/src/extensions/nalgebra/math/transform_n.rs
index a4c718c..4db28ee 100644
--- a/src/extensions/nalgebra/math/transform_n.rs
+++ b/src/extensions/nalgebra/math/transform_n.rs
@@ -91,7 +91,7 @@ impl<S: ScalarPlus, const D: usize> TransformTrait<S, D> for NdAffine<S, D> {
 
     fn with_scale(&self, v: Self::Vec) -> Self {
         Self {
-            matrix: self.matrix * SMatrix::<S, D, D>::from_diagonal(&v),
+            matrix: SMatrix::<S, D, D>::from_diagonal(&v) * self.matrix,
             translation: self.translation.component_mul(&v),
         }
     }
-- 
2.43.0

