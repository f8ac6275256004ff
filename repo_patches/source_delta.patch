From b0bcb4b6044113e8cc767dcb0f944ab9ce6a86ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 01/14] fix: rug::Integer cmp_perp_vector_slope reflected
 instead of rotating the vector

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d98de17..fa9943c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -461,7 +461,7 @@ impl PolygonScalar for rug::Integer {
     PolygonScalar::cmp_slope(p, &[new_x, new_y], q)
   }
   fn cmp_perp_vector_slope(vector: &[Self; 2], p: &[Self; 2], q: &[Self; 2]) -> std::cmp::Ordering {
-    let new_x = rug::Integer::from(&p[0] + &vector[1]);
+    let new_x = rug::Integer::from(&p[0] - &vector[1]);
     let new_y = rug::Integer::from(&p[1] + &vector[0]);
     PolygonScalar::cmp_slope(p, &[new_x, new_y], q)
   }
-- 
2.43.0


From a0b0e5130831faa93fc8f81111bcddc6ef8c0cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 02/14] fix: Point::all_colinear reported true whenever the
 first two points were equal

---
 src/data/point.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/data/point.rs b/src/data/point.rs
index cdc17b0..ce63076 100644
--- a/src/data/point.rs
+++ b/src/data/point.rs
@@ -303,12 +303,13 @@ impl<T: PolygonScalar> Point<T> {
   }
 
   pub fn all_colinear(pts: &[Point<T>]) -> bool {
-    if pts.len() < 3 {
-      return true;
+    // Two equal points don't define a line. Pick two that are different.
+    match pts.iter().find(|pt| *pt != &pts[0]) {
+      None => true,
+      Some(other) => pts
+        .iter()
+        .all(|pt| Point::orient(&pts[0], other, pt).is_colinear()),
     }
-    pts
-      .iter()
-      .all(|pt| Point::orient(&pts[0], &pts[1], pt).is_colinear())
   }
 
   /// Docs?
-- 
2.43.0


From ff7e6a2b1af28549a87c334ff973a4683f93b077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 03/14] fix: treat -0.0 and 0.0 as the same f32/f64 coordinate
 in TotalOrd

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fa9943c..51a0a17 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -347,7 +347,8 @@ macro_rules! floating_precision {
     $(
       impl TotalOrd for $ty {
         fn total_cmp(&self, other: &Self) -> Ordering {
-          <$ty>::total_cmp(self, other)
+          // Adding zero turns -0.0 into 0.0: they're the same coordinate.
+          <$ty>::total_cmp(&(self + 0.0), &(other + 0.0))
         }
       }
 
-- 
2.43.0


From 0fb15cd80939e1a8a5ec77349c86e4910dac6106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 04/14] fix: a zero-length segment was reported as overlapping
 segments it does not touch

---
 src/data/line_segment.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/data/line_segment.rs b/src/data/line_segment.rs
index f0a49a5..b01a850 100644
--- a/src/data/line_segment.rs
+++ b/src/data/line_segment.rs
@@ -299,7 +299,12 @@ where
     //   inner_between(self.min.inner(), other.min.as_ref(), other.max.as_ref()),
     //   inner_between(self.max.inner(), other.min.as_ref(), other.max.as_ref()),
     // );
-    if l1_to_b1 == CoLinear && l1_to_b2 == CoLinear {
+    // If a1 == a2 then everything is colinear with l1 and l2 has to be consulted as well.
+    if l1_to_b1 == CoLinear
+      && l1_to_b2 == CoLinear
+      && l2_to_a1 == CoLinear
+      && l2_to_a2 == CoLinear
+    {
       let c_min = self.min.rightmost(other.min);
       let c_max = self.max.leftmost(other.max);
       let order = c_min.inner().cmp(c_max.inner());
-- 
2.43.0


From fe1c55ccef032084d715b74ccd15f867ebcb6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:52 +0000
Subject: [PATCH 05/14] fix: PolygonConvex::locate reported interior points on
 fan diagonals as OnBoundary

---
 src/data/polygon/convex.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/data/polygon/convex.rs b/src/data/polygon/convex.rs
index 8678c42..2307862 100644
--- a/src/data/polygon/convex.rs
+++ b/src/data/polygon/convex.rs
@@ -58,7 +58,21 @@ where
     let p1 = poly.point(vertices[lower]);
     let p2 = poly.point(vertices[upper]);
     let triangle = TriangleView::new_unchecked([p0, p1, p2]);
-    triangle.locate(pt)
+    match triangle.locate(pt) {
+      PointLocation::OnBoundary => {
+        // The sides of the triangle that meet in 'p0' are diagonals of the polygon
+        // unless this is the first or the last triangle of the fan.
+        let on_edge = Point::orient(p1, p2, pt).is_colinear()
+          || (lower == 1 && Point::orient(p0, p1, pt).is_colinear())
+          || (upper + 1 == vertices.len() && Point::orient(p2, p0, pt).is_colinear());
+        if on_edge {
+          PointLocation::OnBoundary
+        } else {
+          PointLocation::Inside
+        }
+      }
+      location => location,
+    }
   }
 
   /// Validates the following properties:
-- 
2.43.0


From c3a756d20f6eef7cbb0d94c3763931a8d3b51cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:39 +0000
Subject: [PATCH 06/14] fix: gift wrapping never returned when the start point
 was duplicated

---
 src/algorithms/convex_hull/gift_wrapping.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/convex_hull/gift_wrapping.rs b/src/algorithms/convex_hull/gift_wrapping.rs
index c43b60d..beed315 100644
--- a/src/algorithms/convex_hull/gift_wrapping.rs
+++ b/src/algorithms/convex_hull/gift_wrapping.rs
@@ -106,7 +106,8 @@ where
     }
 
     p = q;
-    if p == leftmost {
+    // Compare points rather than indices: The leftmost point may have duplicates.
+    if pts[p] == pts[leftmost] {
       break;
     }
   }
-- 
2.43.0


From ce8586d2666c81f27b40b0888265e086741229dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 07/14] fix: Melkman's convex hull visited vertices in storage
 order instead of boundary order

---
 src/algorithms/convex_hull/melkman.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/convex_hull/melkman.rs b/src/algorithms/convex_hull/melkman.rs
index e2879d9..be304da 100644
--- a/src/algorithms/convex_hull/melkman.rs
+++ b/src/algorithms/convex_hull/melkman.rs
@@ -15,7 +15,7 @@ where
 {
   let mut convex_hull: VecDeque<&Point<T, 2>> = VecDeque::new();
   let mut last_idx = 0;
-  for p in polygon.iter() {
+  for p in polygon.iter_boundary().map(|cursor| cursor.point()) {
     // Creat a deque with the first 3 points
     if convex_hull.len() < 2 {
       convex_hull.push_back(p);
-- 
2.43.0


From 5c9bb9e6794553870c79d41a139b604d9aaff4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 08/14] fix: monotone polygon generation failed when points lay
 on the line between the extremes

---
 src/algorithms/polygonization/monotone.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithms/polygonization/monotone.rs b/src/algorithms/polygonization/monotone.rs
index f59210d..acf46dd 100644
--- a/src/algorithms/polygonization/monotone.rs
+++ b/src/algorithms/polygonization/monotone.rs
@@ -77,9 +77,16 @@ where
 
   let mut polygon_points: VecDeque<Point<T, 2>> = VecDeque::new();
 
+  // Points on the line between the extremes go on the left chain. If there are no points to the
+  // right of that line then the right chain is the line itself and they have to go there instead.
+  let right_chain_is_line = !points
+    .iter()
+    .any(|pt| Orientation::new(&min_point, &max_point, pt) == Orientation::ClockWise);
+
   while let Some(curr) = points.pop() {
     match Orientation::new(&min_point, &max_point, &curr) {
       Orientation::ClockWise => polygon_points.push_front(curr),
+      Orientation::CoLinear if right_chain_is_line => polygon_points.push_front(curr),
       _ => polygon_points.push_back(curr),
     }
   }
-- 
2.43.0


From 7b661c1a8181a6e4ae05e1fcee39b2d2de7d3db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 09/14] fix: visibility polygon panicked when several vertices
 lie in the same direction

---
 src/algorithms/visibility/naive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/visibility/naive.rs b/src/algorithms/visibility/naive.rs
index 55aa6f0..caa3ad4 100644
--- a/src/algorithms/visibility/naive.rs
+++ b/src/algorithms/visibility/naive.rs
@@ -95,7 +95,14 @@ where
 {
   // FIXME: We want to iterate over all vertices, not just boundary vertices.
   let mut vertices: Vec<Cursor<'_, T>> = polygon.iter_boundary().collect();
-  vertices.sort_by(|a, b| point.ccw_cmp_around(a, b));
+  vertices.sort_by(|a, b| {
+    point
+      .ccw_cmp_around(a, b)
+      .then_with(|| point.cmp_distance_to(a, b))
+  });
+  // Rays towards vertices in the same direction are identical and hit the same points. Shoot only
+  // one of them, towards the nearest vertex, or those points would be added more than once.
+  vertices.dedup_by(|a, b| point.ccw_cmp_around(a, b) == Ordering::Equal);
 
   let mut polygon_points = Vec::new();
   for vertex in vertices {
-- 
2.43.0


From ff733ab222fb6e303768ec8a730a2773264896c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 10/14] fix: CursorIter::next_back moved forwards instead of
 backwards

---
 src/data/polygon/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/polygon/iter.rs b/src/data/polygon/iter.rs
index 0186f3a..53d58a2 100644
--- a/src/data/polygon/iter.rs
+++ b/src/data/polygon/iter.rs
@@ -116,7 +116,7 @@ impl<T> DoubleEndedIterator for CursorIter<'_, T> {
       if out == self.cursor_head {
         self.exhausted = true;
       } else {
-        self.cursor_tail.move_next();
+        self.cursor_tail.move_prev();
       }
       Some(out)
     }
-- 
2.43.0


From a5db09db6393a8477ce752d29e56056adb495338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:11 +0000
Subject: [PATCH 11/14] fix: CursorIter reported one remaining vertex after it
 was exhausted

---
 src/data/polygon/iter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/polygon/iter.rs b/src/data/polygon/iter.rs
index 53d58a2..602390c 100644
--- a/src/data/polygon/iter.rs
+++ b/src/data/polygon/iter.rs
@@ -97,6 +97,9 @@ impl<'a, T> Iterator for CursorIter<'a, T> {
 
 impl<T> ExactSizeIterator for CursorIter<'_, T> {
   fn len(&self) -> usize {
+    if self.exhausted {
+      return 0;
+    }
     let pos_head = self.cursor_head.position;
     let pos_tail = self.cursor_tail.position;
     if pos_head.position_id.0 <= pos_tail.position_id.0 {
-- 
2.43.0


From a0f4ea418a44b05750feff48fdce576f7ff8971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 12/14] fix: Cursor::to excluding the cursor itself walked the
 whole boundary

---
 src/data/polygon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/polygon.rs b/src/data/polygon.rs
index af4ccfe..c53c992 100644
--- a/src/data/polygon.rs
+++ b/src/data/polygon.rs
@@ -762,7 +762,7 @@ impl<'a, T> Cursor<'a, T> {
       Bound::Excluded(end) => CursorIter {
         cursor_head: self,
         cursor_tail: end.prev(),
-        exhausted: false,
+        exhausted: self == end,
       },
     }
   }
-- 
2.43.0


From 9c7f5a334226534ba156ebdc11edb6dd1699a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 13/14] fix: iterating the boundary of an empty polygon
 underflowed

---
 src/data/polygon.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/data/polygon.rs b/src/data/polygon.rs
index c53c992..40771ec 100644
--- a/src/data/polygon.rs
+++ b/src/data/polygon.rs
@@ -471,6 +471,13 @@ impl<T> Polygon<T> {
         size: self.rings[0].len(),
       },
     };
+    if self.rings[0].is_empty() {
+      return CursorIter {
+        cursor_head: root_cursor,
+        cursor_tail: root_cursor,
+        exhausted: true,
+      };
+    }
     CursorIter {
       cursor_head: root_cursor,
       cursor_tail: root_cursor.prev(),
-- 
2.43.0


From c2c1fa5782e15bb3962aec4ee7b8f1e52e8291f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:41 +0000
Subject: [PATCH 14/14] fix: an intersection set without vertices underflowed

---
 src/data/intersection_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/intersection_set.rs b/src/data/intersection_set.rs
index a84666d..c9e14de 100644
--- a/src/data/intersection_set.rs
+++ b/src/data/intersection_set.rs
@@ -47,7 +47,7 @@ pub struct IndexIntersectionSet {
 impl IndexIntersectionSet {
   /// O(n^2)
   pub fn new(vertices: usize) -> IndexIntersectionSet {
-    let size = vertices * (vertices - 1);
+    let size = vertices * vertices.saturating_sub(1);
     let by_edge = vec![None; size];
     IndexIntersectionSet {
       vertices,
-- 
2.43.0

