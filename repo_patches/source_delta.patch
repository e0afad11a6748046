From 7eebfc9e4b5bb641f098c58cf6a480339dff893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 01/17] fix: report NaN and infinite coordinates in boolean op
 inputs

The bounding box can't be relied on to propagate NaN (f64::min and f64::max
ignore it), so NaN inputs panicked or were misreported as non-closed paths, as
did infinite control points.
---
 src/lib.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 047f395..09c666c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -84,6 +84,20 @@ impl std::fmt::Display for Error {
 
 impl std::error::Error for Error {}
 
+/// Checks that all coordinates in a path (including control points) are finite.
+///
+/// It isn't enough to check the path's bounding box, because `f64::min` and
+/// `f64::max` ignore NaNs.
+fn check_finite(path: &kurbo::BezPath) -> Result<(), Error> {
+    if path.is_nan() {
+        Err(Error::NaN)
+    } else if !path.is_finite() {
+        Err(Error::Infinity)
+    } else {
+        Ok(())
+    }
+}
+
 /// Computes a boolean operation between two sets, each of which is described as
 /// a collection of closed polylines.
 ///
@@ -96,6 +110,9 @@ pub fn binary_op(
     fill_rule: FillRule,
     op: BinaryOp,
 ) -> Result<topology::Contours, Error> {
+    check_finite(set_a)?;
+    check_finite(set_b)?;
+
     // Find the extremal values, to figure out how much precision we can support.
     let bbox = set_a.bounding_box().union(set_b.bounding_box());
     let min = bbox.min_x().min(bbox.min_y());
@@ -103,7 +120,6 @@ pub fn binary_op(
     if min.is_infinite() || max.is_infinite() {
         return Err(Error::Infinity);
     }
-    // If there was any NaN in the input, it should have propagated to the min and max.
     if min.is_nan() || max.is_nan() {
         return Err(Error::NaN);
     }
@@ -130,6 +146,9 @@ pub fn binary_op_with_eps(
     op: BinaryOp,
     eps: f64,
 ) -> Result<topology::Contours, Error> {
+    check_finite(set_a)?;
+    check_finite(set_b)?;
+
     let top = Topology::from_paths_binary(set_a, set_b, eps)?;
     #[cfg(feature = "debug-svg")]
     {
-- 
2.43.0


From d7db6bc167735b0279e07fc541705447bd6390f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 02/17] =?UTF-8?q?fix:=20don't=20link=20the=20ends=20of=20n?=
 =?UTF-8?q?on-closed=20B=C3=A9zier=20paths?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The first and last segments of a non-closed subpath kept their default links,
so contour_prev and contour_next pointed into other subpaths or past the end.
---
 src/segments.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/segments.rs b/src/segments.rs
index 1fdb66b..20194d9 100644
--- a/src/segments.rs
+++ b/src/segments.rs
@@ -386,6 +386,9 @@ impl Segments {
                         start_point,
                         end_point,
                     });
+                } else {
+                    self.contour_prev[start_idx] = None;
+                    self.contour_next[end_idx] = None;
                 }
             }
         }
-- 
2.43.0


From 1b89b97b3e4af9190a45da876e3a3554c4ac45a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 03/17] fix: contours cut off at the start point or from a hole
 got the wrong parent and kind

---
 src/topology.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index f0d91f7..967e370 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1214,6 +1214,8 @@ impl<W: WindingNumber> Topology<W> {
             // "endpoint" here means "as we walk the contour;" it could be either a first_half
             // or a second_half as far as `HalfOutputSegIdx` is concerned.
             let mut segs = Vec::new();
+            // The slot for the contour made of `segs`.
+            let mut segs_contour_idx = contour_idx;
             last_visit[self.point_idx[start]] = Some(0);
 
             debug_assert!(inside(self.winding_counter_clockwise(start)));
@@ -1252,15 +1254,33 @@ impl<W: WindingNumber> Topology<W> {
                     // seg_idx should point to the end of a segment whose start is at p.
                     debug_assert_eq!(self.point_idx[segs[seg_idx].other_half()], p);
 
-                    let loop_contour_idx = ContourIdx(ret.contours.len());
-                    for &seg in &segs[seg_idx..] {
-                        seg_contour[seg.idx.0] = Some(loop_contour_idx);
+                    let mut loop_contour_idx = ContourIdx(ret.contours.len());
+                    if seg_idx == 0 && segs_contour_idx == contour_idx {
+                        // We've come back to the point where we started, so
+                        // it's the extracted part that contains the segment
+                        // we started at: it gets the reserved slot, and
+                        // the new one is for the rest of the walk.
+                        std::mem::swap(&mut loop_contour_idx, &mut segs_contour_idx);
                     }
+                    // All the contours on this walk that don't contain the
+                    // starting segment are holes in the same component of the
+                    // set. If the starting segment is on a hole, it's a sibling.
+                    let parent = if ret.contours[contour_idx.0].outer {
+                        Some(contour_idx)
+                    } else {
+                        ret.contours[contour_idx.0].parent
+                    };
                     ret.contours.push(Contour {
-                        path: self.segs_to_path(&segs[seg_idx..], &positions),
-                        parent: Some(contour_idx),
-                        outer: !ret.contours[contour_idx.0].outer,
+                        path: BezPath::default(),
+                        parent,
+                        outer: false,
                     });
+
+                    for &seg in &segs[seg_idx..] {
+                        seg_contour[seg.idx.0] = Some(loop_contour_idx);
+                    }
+                    ret.contours[loop_contour_idx.0].path =
+                        self.segs_to_path(&segs[seg_idx..], &positions);
                     segs.truncate(seg_idx);
                     // In principle, we should also be unsetting `last_visit`
                     // for all points in the contour we just removed. I *think*
@@ -1274,9 +1294,9 @@ impl<W: WindingNumber> Topology<W> {
                 next = nbr.other_half();
             }
             for &seg in &segs {
-                seg_contour[seg.idx.0] = Some(contour_idx);
+                seg_contour[seg.idx.0] = Some(segs_contour_idx);
             }
-            ret.contours[contour_idx.0].path = self.segs_to_path(&segs, &positions);
+            ret.contours[segs_contour_idx.0].path = self.segs_to_path(&segs, &positions);
         }
 
         ret
-- 
2.43.0


From 7a5ca85f24498ac5fc84a59a4a2cd8d88f59b70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:42 +0000
Subject: [PATCH 04/17] fix: merge more than two coincident segments

---
 src/topology.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index 967e370..1a773aa 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -847,7 +847,14 @@ impl<W: WindingNumber> Topology<W> {
                 // b and c aren't. Then merging a and d would be bad -- even if they're clockwise
                 // neighbors by going around the way that avoids b and c -- because it would mess up
                 // the winding numbers of b and c.
-                if y0 != y1 && self.scan_west[idx] != Some(cw_nbr.idx) {
+                //
+                // Our sweep-line neighbor might have been merged already, in which case
+                // we're looking for the one on the other side of it.
+                let mut west_nbr = self.scan_west[idx];
+                while let Some(west) = west_nbr.filter(|&west| self.deleted[west]) {
+                    west_nbr = self.scan_west[west];
+                }
+                if y0 != y1 && west_nbr != Some(cw_nbr.idx) {
                     continue;
                 }
                 if y0 != y1 {
-- 
2.43.0


From 35888ee3a76b3b53efe1b20ad01c434f369c9233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 05/17] fix: lay out output curves that start at negative
 heights

last_y started out as 0, so edges that begin at negative y counted as
already handled and were never put into their decided order.
---
 src/position.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index a8b6dd7..8911f23 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -260,7 +260,8 @@ pub(crate) fn compute_positions(
     // until they're needed (by copying in one go, we avoid excess subdivisions). That means
     // we need to separately keep track of how far down we've looked at each output. If
     // we weren't lazy, that would just be the last `y` coordinate in `out`.
-    let mut last_y = OutputSegVec::<f64>::with_size(orig_seg_map.len());
+    // At first we've looked at nothing, not even at curves that start at negative `y`.
+    let mut last_y = OutputSegVec::from_vec(vec![f64::NEG_INFINITY; orig_seg_map.len()]);
     let mut queue = BinaryHeap::<HeapEntry>::new();
     for idx in out.indices() {
         let p = endpoints[idx.first_half()];
-- 
2.43.0


From c79637f7238b5a75ab3abc94f22999b368f6dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 06/17] fix: stop lines at the start of a perturbed interval

Before a group of nearby curves is perturbed, each of them is brought to the
start of the interval. Lines went all the way to the end of their output
segment instead, so that the perturbed pieces ran back over them.
---
 src/position.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 8911f23..ed838c6 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -77,10 +77,10 @@ fn ordered_curves_all_close(
         if bez_end_y(&out.path) < y0 {
             out.copied_idx = Some(out.path.elements().len() - 1);
             let endpoint = endpoints[out_idx.second_half()];
+            let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
             if segs[seg_idx].is_line() {
-                out.path.line_to(endpoint)
+                out.path.line_to(c.p3)
             } else {
-                let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
                 out.path.curve_to(c.p1, c.p2, c.p3);
             }
         }
-- 
2.43.0


From 109a707dc6a9b160b2597b9078e31bed766b36bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:10 +0000
Subject: [PATCH 07/17] fix: stop laying out a group where another curve gets
 close

The common height of a group of close curves went past the height at which
a curve outside the group gets close, if that curve was not yet the
neighbor, was not there yet, or was close before becoming the neighbor.
Members of the group were then laid out a second time from that height, so
their paths ran back.
---
 src/position.rs | 22 ++++++++++++++--------
 src/topology.rs |  8 +++++---
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index ed838c6..193c1cf 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -291,10 +291,6 @@ pub(crate) fn compute_positions(
             let (_, cmp_end_y, cmp_order) = order.iter().find(|(_, end_y, _)| *end_y > y0).unwrap();
 
             if cmp_order == Order::Left {
-                let next_close_y = scan_order
-                    .close_west_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
-                    .unwrap_or(f64::INFINITY);
-                y1 = y1.min(next_close_y.max(cmp_end_y));
                 break;
             } else {
                 y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
@@ -302,6 +298,13 @@ pub(crate) fn compute_positions(
             }
             cur = nbr;
         }
+        // Whether or not there's a neighbor on the other side of `cur` right now, we need
+        // to stop when one gets close.
+        if let Some(next_close_y) =
+            scan_order.close_west_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
+        {
+            y1 = y1.min(next_close_y);
+        }
 
         let mut east_scan = vec![];
         let mut cur = entry.idx;
@@ -310,10 +313,6 @@ pub(crate) fn compute_positions(
             let (_, cmp_end_y, cmp_order) = order.iter().find(|(_, end_y, _)| *end_y > y0).unwrap();
 
             if cmp_order == Order::Left {
-                let next_close_y = scan_order
-                    .close_east_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
-                    .unwrap_or(f64::INFINITY);
-                y1 = y1.min(next_close_y.max(cmp_end_y));
                 break;
             } else {
                 y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
@@ -321,6 +320,13 @@ pub(crate) fn compute_positions(
             }
             cur = nbr;
         }
+        // Whether or not there's a neighbor on the other side of `cur` right now, we need
+        // to stop when one gets close.
+        if let Some(next_close_y) =
+            scan_order.close_east_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
+        {
+            y1 = y1.min(next_close_y);
+        }
 
         let mut neighbors = west_scan;
         neighbors.reverse();
diff --git a/src/topology.rs b/src/topology.rs
index 1a773aa..7cca268 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1697,20 +1697,22 @@ impl HalfScanLineOrder {
         segs: &Segments,
         cmp: &mut ComparisonCache,
     ) -> Option<f64> {
-        for (_, y1, other_seg) in self.iter(seg) {
+        for (y0, y1, other_seg) in self.iter(seg) {
             if y1 <= y {
                 continue;
             }
 
             if let Some(other_seg) = other_seg {
+                // Where they were close before becoming neighbors doesn't matter.
+                let y0 = y0.max(y);
                 let order = cmp.compare_segments(segs, orig_seg[seg], orig_seg[other_seg]);
                 let next_ish = order
                     .iter()
                     .take_while(|(order_y0, _, _)| *order_y0 < y1)
                     .filter(|(_, _, order)| *order == Order::Ish)
-                    .find(|(order_y0, _, _)| *order_y0 >= y);
+                    .find(|(_, order_y1, _)| *order_y1 > y0);
                 if let Some((order_y0, _, _)) = next_ish {
-                    return Some(order_y0);
+                    return Some(order_y0.max(y0));
                 }
             }
         }
-- 
2.43.0


From 63a291385d74c68a36bf0f3dd21f45be4d88242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:11 +0000
Subject: [PATCH 08/17] fix: report crossings after the requested height only

When two curves were already past the middle of the interval in which they
cross, next_touch_after put the crossing at that middle, which is not after
the requested height. The sweep line swaps the two curves right away, finds
the same crossing again for the next neighbours, and with three curves that
nearly coincide never gets past that height.
---
 src/curve/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 4c8b2cb..e0e04ac 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -169,7 +169,14 @@ impl CurveOrder {
 
         let cross_y = (y0 + y1) / 2.0;
         match next_order {
-            Order::Right => Some(CurveInteraction::Cross(cross_y)),
+            // We might be past the middle of the interval already, but we never
+            // report a crossing that isn't after `y`: the caller would see the
+            // same crossing again and again.
+            Order::Right => Some(CurveInteraction::Cross(if cross_y > y {
+                cross_y
+            } else {
+                y1
+            })),
             Order::Left => {
                 if y < y0 {
                     Some(CurveInteraction::Touch(cross_y))
-- 
2.43.0


From bb75a7a4f3ba0363659caf3a4664904f33f7d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:29 +0000
Subject: [PATCH 09/17] fix: end a merge at the copied part of an output
 segment

---
 src/topology.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index 7cca268..9dd68ae 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1084,8 +1084,17 @@ impl<W: WindingNumber> Topology<W> {
         let has_orig_orientation =
             seg.is_first_half() == self.segments.positively_oriented(orig_idx);
 
+        // Only the copied part of the output segment is a piece of the input
+        // segment. The rest was perturbed, so the merge can't go beyond it.
+        let elements = pos.path.elements();
+        let copied = if seg.is_first_half() {
+            elements.get(1)
+        } else {
+            elements.get(elements.len() - 2)
+        };
+
         let start_y = self.point(seg).y;
-        let end_y = self.point(seg.other_half()).y;
+        let end_y = copied?.end_point()?.y;
         let split_from_pred = self.segments.split_from_predecessor[orig_idx];
         let can_merge = if has_orig_orientation {
             let seg_in_input_t = split_from_pred.0;
-- 
2.43.0


From 340c483a4450dbd2de803306ae673bf705f7137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:26 +0000
Subject: [PATCH 10/17] fix: don't merge horizontal output segments of sloped
 inputs

---
 src/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index 9dd68ae..27cf84c 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1065,7 +1065,7 @@ impl<W: WindingNumber> Topology<W> {
         let orig_idx = self.orig_seg[seg.idx];
 
         // We're currently using y positions on the output segment to figure out
-        if self.segments[orig_idx].is_horizontal() {
+        if self.is_horizontal(seg.idx) {
             return None;
         }
 
-- 
2.43.0


From 4b08d989168e61f9967bf65cf1dcb7454f3fd54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:25 +0000
Subject: [PATCH 11/17] fix: weigh horizontal errors fully when a curve turns
 back through a double control point

---
 src/position.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/position.rs b/src/position.rs
index 193c1cf..a73685a 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -129,6 +129,7 @@ fn horizontal_error_weight(c: CubicBez) -> f64 {
 
     if different_signs(tangents[0].x, tangents[1].x)
         || different_signs(tangents[1].x, tangents[2].x)
+        || different_signs(tangents[0].x, tangents[2].x)
     {
         return 1.0;
     }
-- 
2.43.0


From 985f9cd2b22ba4036ef13236d2ff19ac36791da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:24 +0000
Subject: [PATCH 12/17] fix: report the sign of a decreasing linear function
 the right way round

---
 src/curve/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index e0e04ac..a915402 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -593,7 +593,16 @@ impl Quadratic {
                 // (although possibly infinite).
                 debug_assert!(!root1.is_nan() && !root2.is_nan());
 
-                let initial_sign = if root2.is_infinite() { c1 } else { c2 };
+                // If root2 overflowed, c2 is negligible and c1 tells us the
+                // sign: the quadratic has the sign of c1 between root1 and
+                // infinity, and the opposite sign between -infinity and root1.
+                let initial_sign = if root2 == f64::INFINITY {
+                    -c1
+                } else if root2 == f64::NEG_INFINITY {
+                    c1
+                } else {
+                    c2
+                };
 
                 QuadraticSigns {
                     initial_sign,
-- 
2.43.0


From 0e9f318e525dbec21fae58c37672047198d09b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:24 +0000
Subject: [PATCH 13/17] fix: tell the sign of constants, and of quadratics with
 a double root at zero

---
 src/curve/mod.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index a915402..ce49b6d 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -581,12 +581,22 @@ impl Quadratic {
             let root2 = -z / (2.0 * c2);
 
             // If z is zero, it means that c1 and disc are both (exactly!) zero,
-            // and so everything is zero.
+            // and so one of c2 and c0 is zero also.
             if z == 0.0 {
-                QuadraticSigns {
-                    initial_sign: 0.0,
-                    smaller_root: f64::NEG_INFINITY,
-                    bigger_root: f64::NEG_INFINITY,
+                if c2 == 0.0 {
+                    // It's a constant.
+                    QuadraticSigns {
+                        initial_sign: c0,
+                        smaller_root: f64::NEG_INFINITY,
+                        bigger_root: f64::NEG_INFINITY,
+                    }
+                } else {
+                    // There's a double root at zero.
+                    QuadraticSigns {
+                        initial_sign: c2,
+                        smaller_root: 0.0,
+                        bigger_root: 0.0,
+                    }
                 }
             } else {
                 // Here z is non-zero, meaning that root1 and root2 are defined
-- 
2.43.0


From 6c0686a4ce37c667405db34fb182eff324a90b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:47 +0000
Subject: [PATCH 14/17] fix: no roots where the scaled discriminant is negative

---
 src/curve/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index ce49b6d..9aa4554 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -495,6 +495,11 @@ pub(crate) fn monic_quadratic_roots(b: f64, c: f64) -> (f64, f64) {
         // If the discriminant here overflows it must be because c dominates,
         // especially if we do the computation in this weird order:
         let scaled_disc = 1.0 - (c / b / b) * 4.0;
+        if scaled_disc <= 0.0 {
+            // disc overflowed to -infinity, but not when scaled. There are no real
+            // roots; the polynomial is always positive.
+            return (f64::NEG_INFINITY, f64::NEG_INFINITY);
+        }
         if !scaled_disc.is_finite() {
             if c > 0.0 {
                 // disc must have overflowed to -infinity. There are no real roots;
-- 
2.43.0


From a2a6faa398a38829b1879eed0b82409101404a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:07 +0000
Subject: [PATCH 15/17] fix: give equal zeros of both signs the same hash

CheapOrderedFloat compares like f64, so 0.0 and -0.0 are equal, but its Hash
implementation fed the bits of the number to the hasher, which differ.
---
 src/num.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/num.rs b/src/num.rs
index be002d8..d062660 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -91,7 +91,9 @@ impl std::ops::Neg for CheapOrderedFloat {
 
 impl Hash for CheapOrderedFloat {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        self.0.to_bits().hash(state)
+        // Zero and minus zero are equal, so they need to have the same hash. Adding
+        // zero turns minus zero into zero, and doesn't change any other number.
+        (self.0 + 0.0).to_bits().hash(state)
     }
 }
 
-- 
2.43.0


From ae21e5ad8c4b0f1c34812289141f75a7d48d2da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:55 +0000
Subject: [PATCH 16/17] fix: rescan from a segment that continues when others
 end beside it

---
 src/sweep/sweep_line.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index ac7baa7..17adc19 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -526,9 +526,16 @@ impl<'segs> Sweeper<'segs> {
     }
 
     fn scan_for_removal(&mut self, pos: usize) {
-        if pos > 0 {
-            self.intersection_scan_right(pos - 1);
-            self.intersection_scan_left(pos - 1);
+        // Scanning from a segment that ends here does nothing, so look for the
+        // closest one that continues.
+        let mut prev = pos;
+        while prev > 0 {
+            prev -= 1;
+            if self.segments[self.line.seg(prev)].end().y != self.y {
+                self.intersection_scan_right(prev);
+                self.intersection_scan_left(prev);
+                break;
+            }
         }
     }
 
-- 
2.43.0


From c096c7801071122c53ae7559857f59cbf144b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:47 +0000
Subject: [PATCH 17/17] fix: merge output segments only with pieces of the same
 input curve

---
 src/topology.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/topology.rs b/src/topology.rs
index 27cf84c..faea013 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1096,10 +1096,15 @@ impl<W: WindingNumber> Topology<W> {
         let start_y = self.point(seg).y;
         let end_y = copied?.end_point()?.y;
         let split_from_pred = self.segments.split_from_predecessor[orig_idx];
+        // We can only be merged with the other piece of our input segment. That
+        // piece might have no output here, because it was short or because it
+        // was merged into something else.
+        let neighbor = Some(self.orig_seg[self.point_neighbors[seg].clockwise.idx]);
         let can_merge = if has_orig_orientation {
             let seg_in_input_t = split_from_pred.0;
             if (seg_in_input_t > 0.0)
                     && extremal_seg_is_copied
+                    && neighbor == self.segments.contour_prev(orig_idx)
                     // Is this out seg the "first" one of the input seg?
                     && start_y == self.segments.oriented_start(orig_idx).y
             {
@@ -1112,6 +1117,7 @@ impl<W: WindingNumber> Topology<W> {
             let seg_in_input_t = split_from_pred.1;
             if seg_in_input_t < 1.0
                 && extremal_seg_is_copied
+                && neighbor == self.segments.contour_next(orig_idx)
                 && start_y == self.segments.oriented_end(orig_idx).y
             {
                 let t = solve_t_for_y(self.segments[orig_idx].to_kurbo_cubic(), end_y);
-- 
2.43.0

