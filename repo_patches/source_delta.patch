From 63086a73b1db66084ba4431c712b61d4ffbc995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 01/17] fix: decompose a contour at its largest point too

The run of equal points that ends the sorted list was never turned into
anchors, so a contour that touches itself at its lexicographically largest
point was not decomposed.
---
 iOverlay/src/core/divide.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iOverlay/src/core/divide.rs b/iOverlay/src/core/divide.rs
index e744e18..5aefb1c 100644
--- a/iOverlay/src/core/divide.rs
+++ b/iOverlay/src/core/divide.rs
@@ -61,6 +61,10 @@ impl ContourDecomposition for IntContour {
             p0 = idp.point;
         }
 
+        if n > 0 {
+            anchors.extend_from_slice(&id_points[id_points.len() - n - 1..]);
+        }
+
         if anchors.is_empty() {
             return None;
         }
-- 
2.43.0


From 6a7298595d9ae70f709b229278f39e61d900f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 02/17] fix: keep every edge when repeated contour points nest
 or interleave

A point visited three times inside another loop, or two points visited
alternately, left sub paths on the stack that were never closed: whole loops
were missing from the decomposition. A repeated point now closes everything
collected since its previous visit and stays open as a new sub path.
---
 iOverlay/src/core/divide.rs | 49 +++++++++++++------------------------
 1 file changed, 17 insertions(+), 32 deletions(-)

diff --git a/iOverlay/src/core/divide.rs b/iOverlay/src/core/divide.rs
index 5aefb1c..c305459 100644
--- a/iOverlay/src/core/divide.rs
+++ b/iOverlay/src/core/divide.rs
@@ -23,8 +23,8 @@ impl SubPath {
         self.last = point.id;
     }
 
-    fn shift(&mut self, point: IdPoint) {
-        self.last = point.id;
+    fn merge(sub_paths: impl Iterator<Item = SubPath>) -> IntPath {
+        sub_paths.flat_map(|sub_path| sub_path.path).collect()
     }
 }
 
@@ -74,47 +74,32 @@ impl ContourDecomposition for IntContour {
 
         let mut contours = Vec::with_capacity((anchors.len() >> 1) + 1);
 
-        let mut queue = vec![];
+        // open sub paths, each one continues the previous one
+        let mut queue: Vec<SubPath> = vec![];
 
-        let mut i = 0;
-        while i < anchors.len() {
-            let a = anchors[i];
-            let mut sub_path: SubPath = if let Some(sub_path) = queue.pop() {
-                sub_path
-            } else {
-                queue.push(SubPath::start(a));
-                i += 1;
-                continue;
-            };
-
-            if sub_path.node == a.point {
-                sub_path.join(a, self);
-                contours.push(sub_path.path);
-                if let Some(prev) = queue.last_mut() {
-                    prev.shift(a);
-                } else {
-                    queue.push(SubPath::start(a));
-                }
-            } else {
-                sub_path.join(a, self);
-                queue.push(sub_path);
-                queue.push(SubPath::start(a));
+        for &a in anchors.iter() {
+            if let Some(last) = queue.last_mut() {
+                last.join(a, self);
+            }
+            if let Some(pos) = queue.iter().position(|sub_path| sub_path.node == a.point) {
+                contours.push(SubPath::merge(queue.drain(pos..)));
             }
-            i += 1;
+            queue.push(SubPath::start(a));
         }
 
-        let mut sub_path: SubPath = queue.pop().unwrap();
+        let last = queue.last().unwrap().last;
+        let mut path = SubPath::merge(queue.into_iter());
 
-        if sub_path.last < self.len() {
-            sub_path.path.extend_from_slice(&self[sub_path.last..]);
+        if last < self.len() {
+            path.extend_from_slice(&self[last..]);
         }
 
         let i0 = anchors.first().unwrap().id;
         if i0 > 0 {
-            sub_path.path.extend_from_slice(&self[..i0]);
+            path.extend_from_slice(&self[..i0]);
         }
 
-        contours.push(sub_path.path);
+        contours.push(path);
 
         Some(contours)
     }
-- 
2.43.0


From ef53dc3313107e1681cae0b21abbddb8ccc93a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 03/17] fix: forget the points of a split off loop

Their positions stayed in the map, so a later visit of such a point used a
position beyond the end of the path: an arithmetic underflow or a panic.
---
 iOverlay/src/string/split.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iOverlay/src/string/split.rs b/iOverlay/src/string/split.rs
index bf37303..905a414 100644
--- a/iOverlay/src/string/split.rs
+++ b/iOverlay/src/string/split.rs
@@ -17,6 +17,9 @@ impl Split for IntPath {
         for point in self {
             if let Some(&pos) = map.get(&point) {
                 let tail_len = path.len() - pos;
+                for removed in path[pos..].iter() {
+                    map.remove(removed);
+                }
                 if tail_len < 2 {
                     // tail is too small
                     path.truncate(pos);
-- 
2.43.0


From 9df77294bfc916622baa32c9cb19b4e2e732f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 04/17] fix: drop the loops below the minimal area, not those
 above it

A positive minimal area removed large loops and kept small ones, and the
remaining path was not tested at all.
---
 iOverlay/src/string/split.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/string/split.rs b/iOverlay/src/string/split.rs
index 905a414..a9f6c4d 100644
--- a/iOverlay/src/string/split.rs
+++ b/iOverlay/src/string/split.rs
@@ -37,7 +37,7 @@ impl Split for IntPath {
             }
         }
 
-        if path.len() > 2 {
+        if path.len() > 2 && path.validate_area(min_area) {
             result.push(path);
         }
 
@@ -56,7 +56,7 @@ impl ValidateArea for IntPath {
             return true;
         }
         let abs_area = self.unsafe_area().unsigned_abs() as usize >> 1;
-        abs_area < min_area
+        abs_area >= min_area
     }
 }
 
-- 
2.43.0


From 64309c627eff596e8ca4a72fff5a1d859624d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 05/17] fix: keep the last corner of an explicitly closed
 contour

A contour that ends at its first point again passed both collinearity
tests trivially and lost the triangle at its start.
---
 iOverlay/src/segm/build.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/segm/build.rs b/iOverlay/src/segm/build.rs
index 5dbd007..0396c31 100644
--- a/iOverlay/src/segm/build.rs
+++ b/iOverlay/src/segm/build.rs
@@ -56,13 +56,13 @@ fn private_append_iter<I: Iterator<Item=IntPoint>, C: WindingCount>(segments: &m
             segments.push(Segment::with_ab(p1, q0, direct, invert));
             segments.push(Segment::with_ab(q0, q1, direct, invert));
         }
-        (true, true) => {
+        (true, true) if p1 != q0 || Triangle::is_line_point(p0, q0, q1) => {
             // all collinear
             if p0 != q1 {
                 segments.push(Segment::with_ab(p0, q1, direct, invert));
             }
         }
-        (true, false) => {
+        (true, _) => {
             // p0, p1, q0 is on same line
             if p0 != q0 {
                 segments.push(Segment::with_ab(p0, q0, direct, invert));
-- 
2.43.0


From 7ddc871f39c1d4f8986f2a079bee5607e4e35e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:11 +0000
Subject: [PATCH 06/17] fix: split collinear fragments at every end that lies
 inside the other segment

---
 iOverlay/src/split/solver_fragment.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 4ec8b09..90b6d4e 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -203,23 +203,20 @@ impl SplitSolver {
                 let mask = CrossSolver::collinear(&fi.x_segment, &fj.x_segment);
                 if mask == 0 { return false; }
 
-                if !(fi.rect.contains_with_radius(fi.x_segment.a, r) || fj.rect.contains_with_radius(fi.x_segment.a, r)) {
-                    return false;
-                }
-
-                if mask.is_target_a() {
+                // an end is marked in the column where its own fragment holds it
+                if mask.is_target_a() && fi.rect.contains_with_radius(fi.x_segment.a, r) {
                     marks.push(LineMark { index: fj.index, point: fi.x_segment.a });
                 }
 
-                if mask.is_target_b() {
+                if mask.is_target_b() && fi.rect.contains_with_radius(fi.x_segment.b, r) {
                     marks.push(LineMark { index: fj.index, point: fi.x_segment.b });
                 }
 
-                if mask.is_other_a() {
+                if mask.is_other_a() && fj.rect.contains_with_radius(fj.x_segment.a, r) {
                     marks.push(LineMark { index: fi.index, point: fj.x_segment.a });
                 }
 
-                if mask.is_other_b() {
+                if mask.is_other_b() && fj.rect.contains_with_radius(fj.x_segment.b, r) {
                     marks.push(LineMark { index: fi.index, point: fj.x_segment.b });
                 }
             }
-- 
2.43.0


From e6cca30eacd3d093071f5a28dc78d1b630d1908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:26 +0000
Subject: [PATCH 07/17] fix: split a vertical on a column border where segments
 end at it

---
 iOverlay/src/split/solver_fragment.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 90b6d4e..3a6707b 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -33,7 +33,8 @@ impl SplitSolver {
 
             if !buffer.on_border.is_empty() {
                 for (&index, segments) in buffer.on_border.iter_mut() {
-                    if let Some(fragments) = buffer.groups.get(index) {
+                    // segments that end at the border are in the column before it
+                    if let Some(fragments) = buffer.groups.get(index - 1) {
                         let border_x = buffer.layout.pos(index);
                         Self::on_border_split(border_x, fragments, segments, &mut marks);
                     }
-- 
2.43.0


From a77c7b1a8414dcd9141c9971fee735b1e756450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 08/17] fix: split nothing when all edges cancel (tree and
 fragment strategies)

---
 iOverlay/src/split/solver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iOverlay/src/split/solver.rs b/iOverlay/src/split/solver.rs
index 42f87d5..1691356 100644
--- a/iOverlay/src/split/solver.rs
+++ b/iOverlay/src/split/solver.rs
@@ -21,6 +21,10 @@ impl<C: WindingCount> SplitSegments<C> for Vec<Segment<C>> {
         segments.smart_bin_sort_by(&solver, |a, b| a.x_segment.cmp(&b.x_segment));
         segments.merge_if_needed();
 
+        if segments.is_empty() {
+            return segments;
+        }
+
         SplitSolver::new(solver).split(segments)
     }
 }
-- 
2.43.0


From c06ac8bdcf9b15bba82b6325f50fce6c44d7e504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:40 +0000
Subject: [PATCH 09/17] fix: tree and fragment strategies split a pair of
 segments too

---
 iOverlay/src/split/solver_fragment.rs | 2 +-
 iOverlay/src/split/solver_tree.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 3a6707b..a9fec16 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -22,7 +22,7 @@ impl SplitSolver {
 
         let mut snap_radius = snap_radius;
 
-        while need_to_fix && segments.len() > 2 {
+        while need_to_fix && segments.len() > 1 {
 
             buffer.init_fragment_buffer(segments.iter().map(|it| it.x_segment));
             for (i, segment) in segments.iter().enumerate() {
diff --git a/iOverlay/src/split/solver_tree.rs b/iOverlay/src/split/solver_tree.rs
index bb26ebb..e347321 100644
--- a/iOverlay/src/split/solver_tree.rs
+++ b/iOverlay/src/split/solver_tree.rs
@@ -39,7 +39,7 @@ impl SplitSolver {
 
         let mut snap_radius = snap_radius;
 
-        while need_to_fix && segments.len() > 2 {
+        while need_to_fix && segments.len() > 1 {
             need_to_fix = false;
 
             let radius = snap_radius.radius();
-- 
2.43.0


From 9f11d0d4a0a34c461046f698f6f3f49a64ecbb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:26 +0000
Subject: [PATCH 10/17] fix: keep the links of a dropped contour's neighbours
 in extraction

---
 iOverlay/src/core/extract.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/iOverlay/src/core/extract.rs b/iOverlay/src/core/extract.rs
index b5a76b0..f00f7d7 100644
--- a/iOverlay/src/core/extract.rs
+++ b/iOverlay/src/core/extract.rs
@@ -84,7 +84,6 @@ impl OverlayGraph {
             let (is_valid, is_modified) = contour.validate(min_area, simplify_contour);
 
             if !is_valid {
-                link_index += 1;
                 continue;
             }
 
-- 
2.43.0


From bc99441676829a700eab0cbb59df2312b3230258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:31 +0000
Subject: [PATCH 11/17] fix: extract vector shapes from every link, not only
 from the next one

---
 iOverlay/src/vector/extract_vectors.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/iOverlay/src/vector/extract_vectors.rs b/iOverlay/src/vector/extract_vectors.rs
index 8e1bb76..223a7f3 100644
--- a/iOverlay/src/vector/extract_vectors.rs
+++ b/iOverlay/src/vector/extract_vectors.rs
@@ -65,8 +65,6 @@ impl OverlayGraph {
                 let path = self.get_vector_path(start_data, false, visited);
                 shapes.push(vec![path]);
             };
-
-            link_index += 1;
         }
 
         shapes.join(&self.solver, holes, true);
-- 
2.43.0


From d2dcd862e62a4f541f3683f5f1b85a956681b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:41 +0000
Subject: [PATCH 12/17] fix: bind holes of vector shapes to the shape around
 them

---
 iOverlay/src/bind/segment.rs           | 24 ++++++------------------
 iOverlay/src/vector/extract_vectors.rs | 12 ++++++++----
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/iOverlay/src/bind/segment.rs b/iOverlay/src/bind/segment.rs
index fdeeec2..ebbdf86 100644
--- a/iOverlay/src/bind/segment.rs
+++ b/iOverlay/src/bind/segment.rs
@@ -1,5 +1,5 @@
 use crate::geom::v_segment::VSegment;
-use crate::vector::edge::{VectorEdge, VectorPath};
+use crate::vector::edge::VectorPath;
 use i_float::int::point::IntPoint;
 use i_key_sort::index::{BinKey, BinLayout};
 use i_shape::int::path::IntPath;
@@ -119,25 +119,13 @@ impl IdSegments for VectorPath {
         x_max: i32,
         clockwise: bool,
     ) {
-        fn inner<I: Iterator<Item = VectorEdge>>(
-            iter: I,
-            buffer: &mut Vec<IdSegment>,
-            id_data: ContourIndex,
-            x_min: i32,
-            x_max: i32,
-        ) {
-            for vec in iter {
-                if vec.a.x < vec.b.x && x_min < vec.b.x && vec.a.x <= x_max {
-                    buffer.push(IdSegment::new(id_data, vec.a, vec.b));
-                }
+        // only edges with the body above them, as for IntPath
+        for vec in self.iter() {
+            let (a, b) = if clockwise { (vec.b, vec.a) } else { (vec.a, vec.b) };
+            if a.x < b.x && x_min < b.x && a.x <= x_max {
+                buffer.push(IdSegment::new(id_data, a, b));
             }
         }
-
-        if clockwise {
-            inner(self.iter().copied(), buffer, id_data, x_min, x_max);
-        } else {
-            inner(self.iter().rev().copied(), buffer, id_data, x_min, x_max);
-        }
     }
 }
 
diff --git a/iOverlay/src/vector/extract_vectors.rs b/iOverlay/src/vector/extract_vectors.rs
index 223a7f3..40a3367 100644
--- a/iOverlay/src/vector/extract_vectors.rs
+++ b/iOverlay/src/vector/extract_vectors.rs
@@ -1,7 +1,7 @@
 use i_float::int::point::IntPoint;
 
 use crate::bind::segment::{ContourIndex, IdSegment, IdSegments};
-use crate::bind::solver::ShapeBinder;
+use crate::bind::solver::{ShapeBinder, SortByAngle};
 use crate::core::filter::MaskFilter;
 use crate::core::graph::OverlayGraph;
 use crate::core::node::OverlayNode;
@@ -9,7 +9,6 @@ use crate::core::overlay_rule::OverlayRule;
 use crate::core::solver::Solver;
 use crate::geom::v_segment::VSegment;
 use crate::segm::segment::SegmentFill;
-use crate::util::sort::SmartBinSort;
 use crate::vector::edge::{VectorEdge, VectorPath, VectorShape};
 
 impl OverlayGraph {
@@ -153,7 +152,7 @@ impl JoinHoles for Vec<VectorShape> {
     }
 
     fn scan_join(&mut self, solver: &Solver, holes: Vec<VectorPath>, clockwise: bool) {
-        let hole_segments: Vec<_> = holes
+        let mut hole_segments: Vec<_> = holes
             .iter()
             .enumerate()
             .map(|(id, path)| {
@@ -170,6 +169,7 @@ impl JoinHoles for Vec<VectorShape> {
             .collect();
 
         debug_assert!(is_sorted(&hole_segments));
+        hole_segments.add_sort_by_angle();
 
         let x_min = hole_segments[0].v_segment.a.x;
         let x_max = hole_segments[hole_segments.len() - 1].v_segment.a.x;
@@ -179,7 +179,11 @@ impl JoinHoles for Vec<VectorShape> {
             shape[0].append_id_segments(&mut segments, ContourIndex::new_shape(i), x_min, x_max, clockwise);
         }
 
-        segments.smart_bin_sort_by(solver, |a, b| a.v_segment.a.x.cmp(&b.v_segment.a.x));
+        for (i, hole) in holes.iter().enumerate() {
+            hole.append_id_segments(&mut segments, ContourIndex::new_hole(i), x_min, x_max, clockwise);
+        }
+
+        segments.sort_by_a_then_by_angle(solver);
 
         let solution = ShapeBinder::bind(self.len(), hole_segments, segments);
 
-- 
2.43.0


From b074a4953a64f440dbb2e58d002c9757d22dd624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:39 +0000
Subject: [PATCH 13/17] fix: keep the links of a dropped contour's neighbours
 when offsetting

---
 iOverlay/src/mesh/boolean.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/iOverlay/src/mesh/boolean.rs b/iOverlay/src/mesh/boolean.rs
index edbacd9..d402848 100644
--- a/iOverlay/src/mesh/boolean.rs
+++ b/iOverlay/src/mesh/boolean.rs
@@ -138,14 +138,12 @@ impl OverlayGraph {
 
             let mut path = self.get_fill_path(&start_data, direction, &mut bold, visited);
             if !bold {
-                link_index += 1;
                 continue;
             }
 
             let (is_valid, is_modified) = path.validate(min_area, true);
 
             if !is_valid {
-                link_index += 1;
                 continue;
             }
 
-- 
2.43.0


From 9c87d574249a243fb44d87971fc8d29ae05ac0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:39 +0000
Subject: [PATCH 14/17] fix: add no edges without length for caps and sections

---
 iOverlay/src/mesh/outline/section.rs    |  4 +++-
 iOverlay/src/mesh/stroke/builder_cap.rs | 20 ++++++++++++++------
 iOverlay/src/mesh/stroke/section.rs     |  8 ++++++--
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/iOverlay/src/mesh/outline/section.rs b/iOverlay/src/mesh/outline/section.rs
index 5dc018c..60e572d 100644
--- a/iOverlay/src/mesh/outline/section.rs
+++ b/iOverlay/src/mesh/outline/section.rs
@@ -42,6 +42,8 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> SectionToSegment<T, P> for Vec<
     fn add_section(&mut self, section: &Section<P, T>, adapter: &FloatPointAdapter<P, T>) {
         let a_top = adapter.float_to_int(&section.a_top);
         let b_top = adapter.float_to_int(&section.b_top);
-        self.push(Segment::bold_subject_ab(a_top, b_top));
+        if a_top != b_top {
+            self.push(Segment::bold_subject_ab(a_top, b_top));
+        }
     }
 }
\ No newline at end of file
diff --git a/iOverlay/src/mesh/stroke/builder_cap.rs b/iOverlay/src/mesh/stroke/builder_cap.rs
index b4bfe67..b286120 100644
--- a/iOverlay/src/mesh/stroke/builder_cap.rs
+++ b/iOverlay/src/mesh/stroke/builder_cap.rs
@@ -75,12 +75,16 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
                 let r = rotator.rotate(p);
                 let q = FloatPointMath::add(&r, &section.a);
                 let b = adapter.float_to_int(&q);
-                segments.push(Segment::bold_subject_ab(a, b));
-                a = b;
+                if a != b {
+                    segments.push(Segment::bold_subject_ab(a, b));
+                    a = b;
+                }
             }
         }
         let last = adapter.float_to_int(&section.a_bot);
-        segments.push(Segment::bold_subject_ab(a, last));
+        if a != last {
+            segments.push(Segment::bold_subject_ab(a, last));
+        }
     }
 
     pub(super) fn add_to_end(&self, section: &Section<P, T>, adapter: &FloatPointAdapter<P, T>, segments: &mut Vec<Segment<OffsetCountBoolean>>) {
@@ -91,12 +95,16 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
                 let r = rotator.rotate(p);
                 let q = FloatPointMath::add(&r, &section.b);
                 let b = adapter.float_to_int(&q);
-                segments.push(Segment::bold_subject_ab(a, b));
-                a = b;
+                if a != b {
+                    segments.push(Segment::bold_subject_ab(a, b));
+                    a = b;
+                }
             }
         }
         let last = adapter.float_to_int(&section.b_top);
-        segments.push(Segment::bold_subject_ab(a, last));
+        if a != last {
+            segments.push(Segment::bold_subject_ab(a, last));
+        }
     }
 
     #[inline]
diff --git a/iOverlay/src/mesh/stroke/section.rs b/iOverlay/src/mesh/stroke/section.rs
index ddce88d..6540c4e 100644
--- a/iOverlay/src/mesh/stroke/section.rs
+++ b/iOverlay/src/mesh/stroke/section.rs
@@ -54,7 +54,11 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> SectionToSegment<T, P> for Vec<
         let a_bot = adapter.float_to_int(&section.a_bot);
         let b_bot = adapter.float_to_int(&section.b_bot);
 
-        self.push(Segment::bold_subject_ab(b_top, a_top));
-        self.push(Segment::bold_subject_ab(a_bot, b_bot));
+        if a_top != b_top {
+            self.push(Segment::bold_subject_ab(b_top, a_top));
+        }
+        if a_bot != b_bot {
+            self.push(Segment::bold_subject_ab(a_bot, b_bot));
+        }
     }
 }
\ No newline at end of file
-- 
2.43.0


From b8a5fb1cde100820b6fc161b7604c7b4801cb204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:39 +0000
Subject: [PATCH 15/17] fix: drop stroke contours below the minimal area

---
 iOverlay/src/mesh/stroke/offset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/stroke/offset.rs b/iOverlay/src/mesh/stroke/offset.rs
index c277654..bda5b05 100644
--- a/iOverlay/src/mesh/stroke/offset.rs
+++ b/iOverlay/src/mesh/stroke/offset.rs
@@ -101,8 +101,10 @@ where
             builder.build(path, is_closed_path, &adapter, &mut segments);
         }
 
+        let int_min_area = adapter.sqr_float_to_int(filter.min_area);
+
         let shapes = OverlayGraph::offset_graph_with_solver(segments, Default::default())
-            .extract_offset(main_direction, 0);
+            .extract_offset(main_direction, int_min_area);
 
         let mut float = shapes.to_float(&adapter);
 
-- 
2.43.0


From 3ae423d878311617206d4a08a4a0bec5a548c25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:39 +0000
Subject: [PATCH 16/17] fix: stroke nothing for paths of less than two points

---
 iOverlay/src/mesh/stroke/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/mesh/stroke/builder.rs b/iOverlay/src/mesh/stroke/builder.rs
index a4f2d15..f27a4b9 100644
--- a/iOverlay/src/mesh/stroke/builder.rs
+++ b/iOverlay/src/mesh/stroke/builder.rs
@@ -112,9 +112,9 @@ impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> StrokeBui
     #[inline]
     fn capacity(&self, paths_count: usize, points_count: usize, is_closed_path: bool) -> usize {
         if is_closed_path {
-            self.join_builder.capacity() * points_count - 2
+            self.join_builder.capacity() * points_count
         } else {
-            self.join_builder.capacity() * (points_count - 1)
+            self.join_builder.capacity() * points_count.saturating_sub(1)
                 + paths_count
                     * (self.end_cap_builder.capacity() + self.start_cap_builder.capacity())
         }
@@ -139,6 +139,8 @@ impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> Builder<J
         // build segments only from points which are not equal in int space
 
         let n = path.len();
+        if n < 2 { return; }
+
         let mut ip0 = adapter.float_to_int(&path[0]);
         let mut ip = adapter.float_to_int(&path[1]);
         let mut j = 1;
-- 
2.43.0


From a63596d1c58d8b1f4ec4d56af0343a3c335dc7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:51 +0000
Subject: [PATCH 17/17] fix: keep custom caps of a stroke inside of the grid

The room left around a path for its caps was the size of the box around the cap's points, not
their distance from the end of the path: a cap with a single tip, or one that lies off to one
side, was converted outside of the adapter's rect.
---
 iOverlay/src/mesh/stroke/builder_cap.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/iOverlay/src/mesh/stroke/builder_cap.rs b/iOverlay/src/mesh/stroke/builder_cap.rs
index b286120..0500438 100644
--- a/iOverlay/src/mesh/stroke/builder_cap.rs
+++ b/iOverlay/src/mesh/stroke/builder_cap.rs
@@ -3,7 +3,6 @@ use std::marker::PhantomData;
 use i_float::adapter::FloatPointAdapter;
 use i_float::float::compatible::FloatPointCompatible;
 use i_float::float::number::FloatNumber;
-use i_float::float::rect::FloatRect;
 use i_float::float::vector::FloatPointMath;
 use crate::mesh::boolean::OffsetCountBoolean;
 use crate::mesh::stroke::section::Section;
@@ -118,14 +117,13 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
 
     #[inline]
     pub(super) fn additional_offset(&self) -> T {
+        let mut offset = T::from_float(0.0);
         if let Some(points) = &self.points {
-            if let Some(rect) = FloatRect::with_iter(points.iter()) {
-                rect.width() + rect.height()
-            } else {
-                T::from_float(0.0)
+            for p in points.iter() {
+                offset = offset.max(p.x().abs() + p.y().abs());
             }
-        } else {
-            T::from_float(0.0)
         }
+        // add extra 10% to avoid problems with floating point precision.
+        T::from_float(1.1) * offset
     }
 }
\ No newline at end of file
-- 
2.43.0

