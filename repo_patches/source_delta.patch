From dcb6be117f146517170b15ef0462ceba5275a133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 01/30] fix: keep the zero-height Ish interval in
 CurveOrder::push at zero height

When a definite order was directly followed by the opposite one, the
whole following interval was marked as Ish, and so a genuine crossing
was moved (or, at the end of the curves, lost).
---
 src/curve/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 4c8b2cb..aae454e 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -112,8 +112,9 @@ impl CurveOrder {
                     // What we do is insert a zero-height "ish" interval. Then
                     // adding y-slop will turn it into a taller interval.
                     debug_assert!(end >= last.end);
+                    let ish_end = last.end;
                     self.cmps.push(CurveOrderEntry {
-                        end,
+                        end: ish_end,
                         order: Order::Ish,
                     });
                     self.cmps.push(CurveOrderEntry { end, order });
-- 
2.43.0


From 0889bb2f4c7068bac15114f4ac849a8e02894170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 02/30] fix: look past exiting segments when scanning for new
 neighbors

After a removal, the closest continuing segment on the left has to be
compared with its new right neighbors. If the segment directly to the
left ended at the current height the scan was a no-op, and an
intersection could be missed.
---
 src/sweep/sweep_line.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index ac7baa7..5055179 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -526,9 +526,15 @@ impl<'segs> Sweeper<'segs> {
     }
 
     fn scan_for_removal(&mut self, pos: usize) {
-        if pos > 0 {
-            self.intersection_scan_right(pos - 1);
-            self.intersection_scan_left(pos - 1);
+        // Segments ending at the current height don't intersect anything any
+        // more, so they can't be witnesses: look past them for the closest
+        // segment that continues.
+        let prev = (0..pos)
+            .rev()
+            .find(|i| self.segments[self.line.seg(*i)].end().y > self.y);
+        if let Some(prev) = prev {
+            self.intersection_scan_right(prev);
+            self.intersection_scan_left(prev);
         }
     }
 
-- 
2.43.0


From 193ed3a166bca2abb5ff8e7c79d2b84e112bc981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 03/30] fix: solve_t_for_y asks for a parameter error that
 shrinks, not grows, with the curve

---
 src/curve/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index aae454e..6eee586 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -353,7 +353,9 @@ pub fn solve_t_for_y(c: CubicBez, y: f64) -> f64 {
     let c0 = c.p0.y - y;
     let cubic = Cubic::new([c0, c1, c2, c3]);
 
-    let eps = 1e-12 * cubic.max_abs_coefficient().max(1.0);
+    // The error accepted by `roots_between` is an error in the parameter `t`, so
+    // the larger the curve is, the more accurately we need to know `t`.
+    let eps = 1e-12 / cubic.max_abs_coefficient().max(1.0);
     let roots = cubic.roots_between(0.0, 1.0, eps);
     if !roots.is_empty() {
         return roots[0];
-- 
2.43.0


From 3050fc1300d45bea41eceb7e5191bd2c44908808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 04/30] fix: merge only the copied part of a partially
 perturbed output segment

---
 src/topology.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index f0d91f7..97036b5 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1078,7 +1078,15 @@ impl<W: WindingNumber> Topology<W> {
             seg.is_first_half() == self.segments.positively_oriented(orig_idx);
 
         let start_y = self.point(seg).y;
-        let end_y = self.point(seg.other_half()).y;
+        // If only part of the output segment was copied from the input, the
+        // merge can only go as far as that part does.
+        let end_y = if seg.is_first_half() {
+            pos.path.get_seg(1).map(|s| s.end().y)
+        } else {
+            let last = pos.path.elements().len() - 1;
+            pos.path.get_seg(last).map(|s| s.start().y)
+        }
+        .unwrap_or(self.point(seg.other_half()).y);
         let split_from_pred = self.segments.split_from_predecessor[orig_idx];
         let can_merge = if has_orig_orientation {
             let seg_in_input_t = split_from_pred.0;
-- 
2.43.0


From 448da921b622215ef56431c9b6e7e0808fcf94a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 05/30] fix: merge output segments only with their neighbor in
 the input contour

---
 src/topology.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index 97036b5..f89fda9 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1112,7 +1112,15 @@ impl<W: WindingNumber> Topology<W> {
                 None
             }
         };
-        if self.is_simple_point(seg) {
+        // Some other segment might have ended up as our neighbor (for example, if
+        // our neighbor in the input was merged with another, coincident, segment).
+        let input_nbr = if has_orig_orientation {
+            self.segments.contour_prev(orig_idx)
+        } else {
+            self.segments.contour_next(orig_idx)
+        };
+        let nbr = self.point_neighbors[seg].clockwise;
+        if self.is_simple_point(seg) && input_nbr == Some(self.orig_seg[nbr.idx]) {
             can_merge
         } else {
             None
-- 
2.43.0


From f72144b5b12a62334145b2baa75536b6b90ee3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 06/30] fix: don't merge an output segment that collapsed to a
 horizontal line

---
 src/topology.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index f89fda9..5a51970 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1058,7 +1058,9 @@ impl<W: WindingNumber> Topology<W> {
         let orig_idx = self.orig_seg[seg.idx];
 
         // We're currently using y positions on the output segment to figure out
-        if self.segments[orig_idx].is_horizontal() {
+        // how much of the input it covers, which doesn't work if it's horizontal.
+        // (Even if the input segment isn't horizontal.)
+        if self.is_horizontal(seg.idx) {
             return None;
         }
 
-- 
2.43.0


From 712129ce975319c5a0b8b93656d48e821a6f2717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 07/30] fix: don't drag a whole curve along when an
 almost-horizontal end of it moves

---
 src/position.rs | 56 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index a8b6dd7..8df0b86 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -75,14 +75,8 @@ fn ordered_curves_all_close(
     for (&seg_idx, &out_idx) in order.iter().zip(output_order) {
         let out = &mut out[out_idx];
         if bez_end_y(&out.path) < y0 {
-            out.copied_idx = Some(out.path.elements().len() - 1);
             let endpoint = endpoints[out_idx.second_half()];
-            if segs[seg_idx].is_line() {
-                out.path.line_to(endpoint)
-            } else {
-                let c = next_subsegment(&segs[seg_idx], &out.path, y0, endpoint);
-                out.path.curve_to(c.p1, c.p2, c.p3);
-            }
+            copy_subsegment(&segs[seg_idx], out, y0, endpoint, accuracy);
         }
     }
 
@@ -225,6 +219,44 @@ fn next_subsegment(seg: &Segment, out: &BezPath, y1: f64, endpoint: kurbo::Point
     c
 }
 
+// Extends `out` to height `y1`, by copying a part of `seg`.
+fn copy_subsegment(
+    seg: &Segment,
+    out: &mut PositionedOutputSeg,
+    y1: f64,
+    endpoint: kurbo::Point,
+    accuracy: f64,
+) {
+    out.copied_idx = Some(out.path.elements().len() - 1);
+    if seg.is_line() {
+        out.path.line_to(endpoint);
+        return;
+    }
+
+    let p0 = bez_end(&out.path);
+    let mut c = next_subsegment(seg, &out.path, y1, endpoint);
+
+    // Where the curve is almost horizontal, a point that's close to it can
+    // be horizontally far from the part of the curve at the same height. In
+    // that case, moving an endpoint of the curve would also move the parts of the
+    // curve that aren't almost horizontal. So instead, we leave the curve where it
+    // is and connect it to the endpoint with a horizontal line.
+    let max_shift = 16.0 * accuracy;
+    let orig = y_subsegment(seg.to_kurbo_cubic(), p0.y, y1);
+    if (orig.p0.x - p0.x).abs() > max_shift {
+        out.path.line_to(orig.p0);
+        out.copied_idx = Some(out.path.elements().len() - 1);
+    }
+    let far_end = (orig.p3.x - c.p3.x).abs() > max_shift;
+    if far_end {
+        c.p3 = orig.p3;
+    }
+    out.path.curve_to(c.p1, c.p2, c.p3);
+    if far_end {
+        out.path.line_to(endpoint);
+    }
+}
+
 /// A positioned output segment, possibly perturbed from the original.
 ///
 /// We perturb output segments in order to strictly enforce ordering.
@@ -364,14 +396,8 @@ pub(crate) fn compute_positions(
         let out = &mut out[out_idx];
         let endpoint = endpoints[out_idx.second_half()];
         if bez_end_y(&out.path) < endpoint.y {
-            let seg_idx = orig_seg_map[out_idx];
-            out.copied_idx = Some(out.path.elements().len() - 1);
-            if segs[seg_idx].is_line() {
-                out.path.line_to(endpoint)
-            } else {
-                let c = next_subsegment(&segs[seg_idx], &out.path, endpoint.y, endpoint);
-                out.path.curve_to(c.p1, c.p2, c.p3);
-            }
+            let seg = &segs[orig_seg_map[out_idx]];
+            copy_subsegment(seg, out, endpoint.y, endpoint, accuracy);
         } else {
             // The quadratic approximations don't respect the fixed endpoints, so tidy them
             // up. Since both the quadratic approximations and the endpoints satisfy
-- 
2.43.0


From 99dbdb03da1828949337ebd87a6321af73a6f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 08/30] fix: don't merge pieces of different input segments
 when a tiny piece was dropped

---
 src/topology.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index 5a51970..c070276 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1114,15 +1114,23 @@ impl<W: WindingNumber> Topology<W> {
                 None
             }
         };
-        // Some other segment might have ended up as our neighbor (for example, if
-        // our neighbor in the input was merged with another, coincident, segment).
+        // The thing that we're merging with really needs to be the adjacent part
+        // of the same input segment. Some other segment might have ended up as our
+        // neighbor, for example if our neighbor in the input was merged with another,
+        // coincident, segment, or if it was so short that it was dropped.
         let input_nbr = if has_orig_orientation {
             self.segments.contour_prev(orig_idx)
         } else {
             self.segments.contour_next(orig_idx)
         };
-        let nbr = self.point_neighbors[seg].clockwise;
-        if self.is_simple_point(seg) && input_nbr == Some(self.orig_seg[nbr.idx]) {
+        let nbr_idx = self.orig_seg[self.point_neighbors[seg].clockwise.idx];
+        let nbr_split_from_pred = self.segments.split_from_predecessor[nbr_idx];
+        let splits_agree = if has_orig_orientation {
+            nbr_split_from_pred.1 == split_from_pred.0
+        } else {
+            nbr_split_from_pred.0 == split_from_pred.1
+        };
+        if self.is_simple_point(seg) && input_nbr == Some(nbr_idx) && splits_agree {
             can_merge
         } else {
             None
-- 
2.43.0


From cc43b018cffc99b27460a3bae8b5d69d0a6d8915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 09/30] fix: segments that aren't on a sweep line don't
 constrain the positions of those that are

---
 src/sweep/sweep_line.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 5055179..203a0f4 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -1240,9 +1240,15 @@ impl SegmentOrder {
 /// each segment an `x` coordinate within its range then you won't paint
 /// yourself into a corner: subsequent points can be positioned with the right
 /// ordering *and* within the designated range.
+///
+/// The entries for which `is_present` returns false are unconstrained, and they
+/// don't constrain the others. They are the segments that don't exist in the sweep
+/// line that we're positioning: the ones that are entering (when positioning the old
+/// sweep line) or exiting (when positioning the new one).
 fn feasible_horizontal_positions<G: Fn(&SegmentOrderEntry) -> SegIdx>(
     entries: &[SegmentOrderEntry],
     entry_seg: G,
+    is_present: impl Fn(&SegmentOrderEntry) -> bool,
     y: f64,
     segments: &Segments,
     eps: f64,
@@ -1254,6 +1260,10 @@ fn feasible_horizontal_positions<G: Fn(&SegmentOrderEntry) -> SegIdx>(
     let mut min = f64::INFINITY;
 
     for entry in entries {
+        if !is_present(entry) {
+            out.push((*entry, f64::NEG_INFINITY, f64::INFINITY));
+            continue;
+        }
         let seg = &segments[entry_seg(entry)];
         max_so_far = max_so_far.max(seg.lower(y, eps));
         // Fill out the minimum allowed positions, with a placeholder for the maximum.
@@ -1267,6 +1277,9 @@ fn feasible_horizontal_positions<G: Fn(&SegmentOrderEntry) -> SegIdx>(
     let mut min_so_far = f64::INFINITY;
 
     for (entry, min_allowed, max_allowed) in out.iter_mut().rev() {
+        if !is_present(entry) {
+            continue;
+        }
         let x = segments[entry_seg(entry)].upper(y, eps);
         min_so_far = min_so_far.min(x);
         *max_allowed = min_so_far.min(max);
@@ -1484,6 +1497,7 @@ impl<'segs> SweepLine<'_, '_, 'segs> {
         feasible_horizontal_positions(
             &buffers.old_line,
             |entry| entry.old_seg(),
+            |entry| entry.old_seg.is_some() || !entry.enter,
             self.state.y,
             segments,
             self.state.eps,
@@ -1509,8 +1523,11 @@ impl<'segs> SweepLine<'_, '_, 'segs> {
             } else {
                 segments[entry.seg].at_y(self.state.y)
             };
-            let x = preferred_x.max(*min_x).max(max_so_far).min(*max_x);
-            max_so_far = x;
+            let mut x = preferred_x;
+            if entry.old_seg.is_some() || !entry.enter {
+                x = x.max(*min_x).max(max_so_far).min(*max_x);
+                max_so_far = x;
+            }
             events.push(OutputEvent {
                 x0: x,
                 connected_above: entry.old_seg.is_some() || !entry.enter,
@@ -1532,6 +1549,7 @@ impl<'segs> SweepLine<'_, '_, 'segs> {
         feasible_horizontal_positions(
             &buffers.old_line,
             |entry| entry.seg,
+            |entry| !entry.will_really_exit(),
             self.state.y,
             segments,
             self.state.eps,
@@ -1548,8 +1566,11 @@ impl<'segs> SweepLine<'_, '_, 'segs> {
             } else {
                 segments[entry.seg].at_y(self.state.y)
             };
-            ev.x1 = preferred_x.max(*min_x).max(max_so_far).min(*max_x);
-            max_so_far = ev.x1;
+            ev.x1 = preferred_x;
+            if !entry.will_really_exit() {
+                ev.x1 = ev.x1.max(*min_x).max(max_so_far).min(*max_x);
+                max_so_far = ev.x1;
+            }
 
             let x1 = ev.x1;
             if entry.old_seg.is_some() {
-- 
2.43.0


From acf840703dd5081515d28b92c869ca8adbaa1431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 10/30] fix: stop a copied line at the height where the
 perturbed part starts

---
 src/position.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index 8df0b86..c20389f 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -229,7 +229,11 @@ fn copy_subsegment(
 ) {
     out.copied_idx = Some(out.path.elements().len() - 1);
     if seg.is_line() {
-        out.path.line_to(endpoint);
+        if y1 < endpoint.y {
+            out.path.line_to((seg.at_y(y1), y1));
+        } else {
+            out.path.line_to(endpoint);
+        }
         return;
     }
 
-- 
2.43.0


From 43cbf29c66235034220c5afe8c0893c74e2879b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 11/30] fix: don't use a wild parabola for a height range
 that's too short to refine

---
 src/position.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/position.rs b/src/position.rs
index c20389f..17992e8 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -157,7 +157,7 @@ fn approximate(
             cubic.p1.y -= y_mid;
             cubic.p2.y -= y_mid;
             cubic.p3.y -= y_mid;
-            let approx = EstParab::from_cubic(cubic);
+            let mut approx = EstParab::from_cubic(cubic);
 
             let factor = horizontal_error_weight(cubic);
 
@@ -170,6 +170,14 @@ fn approximate(
                 continue 'retry;
             }
 
+            if !accurate {
+                // On a tiny height range, the parabola can be arbitrarily wild. Anything
+                // between the endpoints is close enough.
+                approx.c0 = (cubic.p0.x + cubic.p3.x) / 2.0;
+                approx.c1 = (cubic.p3.x - cubic.p0.x) / (y1 - y0);
+                approx.c2 = 0.0;
+            }
+
             out.push(approx);
         }
 
-- 
2.43.0


From 0b8dd3fa880b9553b1b45f36d8cd1bdeb7e66ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 12/30] fix: don't re-cross segments immediately while they're
 still close to each other

---
 src/curve/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 6eee586..b3c26e2 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -170,6 +170,11 @@ impl CurveOrder {
 
         let cross_y = (y0 + y1) / 2.0;
         match next_order {
+            // If we're already past the height where we'd prefer to cross then there's still
+            // no hurry, because the curves are close until `y1`. Crossing them
+            // immediately could lead to an infinite loop, because other segments with
+            // a strict ordering might push this pair back out of order at this same height.
+            Order::Right if cross_y <= y => Some(CurveInteraction::Cross(y1)),
             Order::Right => Some(CurveInteraction::Cross(cross_y)),
             Order::Left => {
                 if y < y0 {
-- 
2.43.0


From 0127be5e8a8d284dfbf5eb5477669b471a64dff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 13/30] fix: reject NaNs and infinities wherever they are in
 the input

Taking minima and maxima of floats ignores NaNs, so a NaN in the input
didn't show up in the bounding box; and binary_op_with_eps didn't check
its input at all.
---
 src/lib.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 047f395..9432135 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -84,6 +84,20 @@ impl std::fmt::Display for Error {
 
 impl std::error::Error for Error {}
 
+/// Checks that a path has only finite coordinates.
+///
+/// Note that we can't use the bounding box for this: taking minima and maxima
+/// of floats ignores NaNs.
+fn check_finite(path: &kurbo::BezPath) -> Result<(), Error> {
+    if path.is_nan() {
+        Err(Error::NaN)
+    } else if !path.is_finite() {
+        Err(Error::Infinity)
+    } else {
+        Ok(())
+    }
+}
+
 /// Computes a boolean operation between two sets, each of which is described as
 /// a collection of closed polylines.
 ///
@@ -96,18 +110,17 @@ pub fn binary_op(
     fill_rule: FillRule,
     op: BinaryOp,
 ) -> Result<topology::Contours, Error> {
+    check_finite(set_a)?;
+    check_finite(set_b)?;
+
     // Find the extremal values, to figure out how much precision we can support.
     let bbox = set_a.bounding_box().union(set_b.bounding_box());
     let min = bbox.min_x().min(bbox.min_y());
     let max = bbox.max_x().max(bbox.max_y());
-    if min.is_infinite() || max.is_infinite() {
+    // Even if the input was finite, computing its extrema could have overflowed.
+    if !min.is_finite() || !max.is_finite() {
         return Err(Error::Infinity);
     }
-    // If there was any NaN in the input, it should have propagated to the min and max.
-    if min.is_nan() || max.is_nan() {
-        return Err(Error::NaN);
-    }
-
     // TODO: we did some analysis for error bounds in the case of polylines.
     // Think more about what makes sense for curves.
     let m_2 = min.abs().max(max.abs());
@@ -130,6 +143,9 @@ pub fn binary_op_with_eps(
     op: BinaryOp,
     eps: f64,
 ) -> Result<topology::Contours, Error> {
+    check_finite(set_a)?;
+    check_finite(set_b)?;
+
     let top = Topology::from_paths_binary(set_a, set_b, eps)?;
     #[cfg(feature = "debug-svg")]
     {
-- 
2.43.0


From 5e4ebe0e629c4b4f5ea0ef71cdfdb92dd1ef2721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 14/30] fix: sign of a decreasing linear function in
 Quadratic::signs

When the quadratic coefficient is zero, the sign before the only root is
the opposite of the linear coefficient's sign.
---
 src/curve/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index b3c26e2..13b4764 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -594,7 +594,16 @@ impl Quadratic {
                 // (although possibly infinite).
                 debug_assert!(!root1.is_nan() && !root2.is_nan());
 
-                let initial_sign = if root2.is_infinite() { c1 } else { c2 };
+                let initial_sign = if c2 != 0.0 {
+                    c2
+                } else if root2 > 0.0 {
+                    // There's only one root, and the function has the sign of `c1` after it.
+                    -c1
+                } else {
+                    // There's only one root, but we're calling it the bigger
+                    // one because `root2` is negative infinity.
+                    c1
+                };
 
                 QuadraticSigns {
                     initial_sign,
-- 
2.43.0


From 922620183dbf1264980d51a74ff2c034a5186e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 15/30] fix: keep the approximation of an almost horizontal
 curve within the curve's extent

A parabola with a big horizontal error is good enough for a curve that's
almost horizontal, but not where it goes past the ends of the curve. Also,
don't stretch it to an endpoint that's horizontally far away.
---
 src/position.rs | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 17992e8..c45f708 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -88,6 +88,7 @@ fn ordered_curves_all_close(
 
         let y_mid = (y0 + next_y0) / 2.0;
 
+        let mut x0_max_so_far = f64::NEG_INFINITY;
         let mut x_mid_max_so_far = f64::NEG_INFINITY;
         let mut x1_max_so_far = f64::NEG_INFINITY;
         for (quad, out_idx) in approxes.iter().zip(output_order) {
@@ -100,12 +101,17 @@ fn ordered_curves_all_close(
                 + quad.c1 * (next_y0 - y_mid)
                 + quad.c2 * (next_y0 - y_mid) * (next_y0 - y_mid);
 
+            let x0 = quad.c0 + quad.c1 * (y0 - y_mid) + quad.c2 * (y0 - y_mid) * (y0 - y_mid);
+
+            x0_max_so_far = x0_max_so_far.max(x0);
             x_mid_max_so_far = x_mid_max_so_far.max(x_mid);
             x1_max_so_far = x1_max_so_far.max(x1);
 
-            out[*out_idx]
-                .path
-                .quad_to((x_mid_max_so_far, y_mid), (x1_max_so_far, next_y0));
+            let path = &mut out[*out_idx].path;
+            if (bez_end(path).x - x0_max_so_far).abs() > max_endpoint_shift(accuracy) {
+                path.line_to((x0_max_so_far, y0));
+            }
+            path.quad_to((x_mid_max_so_far, y_mid), (x1_max_so_far, next_y0));
         }
         approxes.clear();
 
@@ -162,7 +168,8 @@ fn approximate(
             let factor = horizontal_error_weight(cubic);
 
             let too_short = y1 <= y0 + accuracy;
-            let accurate = approx.dmax.max(-approx.dmin) * factor < accuracy;
+            let error = approx.dmax.max(-approx.dmin);
+            let accurate = error * factor < accuracy;
             if !too_short && !accurate {
                 // TODO: can we be smarter about this?
                 y1 = (y0 + y1) / 2.0;
@@ -176,6 +183,16 @@ fn approximate(
                 approx.c0 = (cubic.p0.x + cubic.p3.x) / 2.0;
                 approx.c1 = (cubic.p3.x - cubic.p0.x) / (y1 - y0);
                 approx.c2 = 0.0;
+            } else if error > accuracy {
+                // We tolerate a big horizontal error because the curve is almost
+                // horizontal (and it never turns around). But that only works if
+                // the parabola doesn't go past the ends of the curve.
+                let dy2 = (y1 - y0) * (y1 - y0);
+                let x_avg = approx.c0 + approx.c2 * dy2 / 4.0;
+                let x_ctrl = (approx.c0 - approx.c2 * dy2 / 4.0)
+                    .clamp(cubic.p0.x.min(cubic.p3.x), cubic.p0.x.max(cubic.p3.x));
+                approx.c0 = (x_avg + x_ctrl) / 2.0;
+                approx.c2 = (x_avg - x_ctrl) * 2.0 / dy2;
             }
 
             out.push(approx);
@@ -227,6 +244,17 @@ fn next_subsegment(seg: &Segment, out: &BezPath, y1: f64, endpoint: kurbo::Point
     c
 }
 
+// How far can we horizontally move the endpoint of a curve without looking at the rest of it?
+//
+// Where a curve is almost horizontal, a point that's close to it can be
+// horizontally far from the part of the curve at the same height. In
+// that case, moving an endpoint of the curve would also move the parts of the
+// curve that aren't almost horizontal. So instead, we leave the curve where it
+// is and connect it to the endpoint with a horizontal line.
+fn max_endpoint_shift(accuracy: f64) -> f64 {
+    16.0 * accuracy
+}
+
 // Extends `out` to height `y1`, by copying a part of `seg`.
 fn copy_subsegment(
     seg: &Segment,
@@ -248,12 +276,7 @@ fn copy_subsegment(
     let p0 = bez_end(&out.path);
     let mut c = next_subsegment(seg, &out.path, y1, endpoint);
 
-    // Where the curve is almost horizontal, a point that's close to it can
-    // be horizontally far from the part of the curve at the same height. In
-    // that case, moving an endpoint of the curve would also move the parts of the
-    // curve that aren't almost horizontal. So instead, we leave the curve where it
-    // is and connect it to the endpoint with a horizontal line.
-    let max_shift = 16.0 * accuracy;
+    let max_shift = max_endpoint_shift(accuracy);
     let orig = y_subsegment(seg.to_kurbo_cubic(), p0.y, y1);
     if (orig.p0.x - p0.x).abs() > max_shift {
         out.path.line_to(orig.p0);
@@ -414,6 +437,10 @@ pub(crate) fn compute_positions(
             // The quadratic approximations don't respect the fixed endpoints, so tidy them
             // up. Since both the quadratic approximations and the endpoints satisfy
             // the ordering, this doesn't mess up the ordering.
+            if (bez_end(&out.path).x - endpoint.x).abs() > max_endpoint_shift(accuracy) {
+                out.path.line_to(endpoint);
+                continue;
+            }
             match out.path.elements_mut().last_mut().unwrap() {
                 kurbo::PathEl::MoveTo(p)
                 | kurbo::PathEl::LineTo(p)
-- 
2.43.0


From 1fbd1deb4e60906f4b3808220ca58bbbd8008211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:15 +0000
Subject: [PATCH 16/30] fix: loops split off at repeated points are holes of
 the same piece

---
 src/topology.rs | 49 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/topology.rs b/src/topology.rs
index c070276..86f8dca 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1240,6 +1240,10 @@ impl<W: WindingNumber> Topology<W> {
             // "endpoint" here means "as we walk the contour;" it could be either a first_half
             // or a second_half as far as `HalfOutputSegIdx` is concerned.
             let mut segs = Vec::new();
+            // If the walk visits a point repeatedly, it decomposes into multiple
+            // contours. `main_segs` is the one containing `start`.
+            let mut main_segs = Vec::new();
+            let mut hole_segs = Vec::new();
             last_visit[self.point_idx[start]] = Some(0);
 
             debug_assert!(inside(self.winding_counter_clockwise(start)));
@@ -1278,16 +1282,15 @@ impl<W: WindingNumber> Topology<W> {
                     // seg_idx should point to the end of a segment whose start is at p.
                     debug_assert_eq!(self.point_idx[segs[seg_idx].other_half()], p);
 
-                    let loop_contour_idx = ContourIdx(ret.contours.len());
-                    for &seg in &segs[seg_idx..] {
-                        seg_contour[seg.idx.0] = Some(loop_contour_idx);
+                    // We're walking along the boundary of a single connected
+                    // piece of the set. The loop containing the segment that
+                    // we started from is the one whose parent we figured out by
+                    // scanning; all other loops are holes in that piece.
+                    if seg_idx == 0 && main_segs.is_empty() {
+                        main_segs = std::mem::take(&mut segs);
+                    } else {
+                        hole_segs.push(segs.split_off(seg_idx));
                     }
-                    ret.contours.push(Contour {
-                        path: self.segs_to_path(&segs[seg_idx..], &positions),
-                        parent: Some(contour_idx),
-                        outer: !ret.contours[contour_idx.0].outer,
-                    });
-                    segs.truncate(seg_idx);
                     // In principle, we should also be unsetting `last_visit`
                     // for all points in the contour we just removed. I *think*
                     // we don't need to, because it's impossible for the outer
@@ -1299,10 +1302,34 @@ impl<W: WindingNumber> Topology<W> {
 
                 next = nbr.other_half();
             }
-            for &seg in &segs {
+            if main_segs.is_empty() {
+                main_segs = segs;
+            } else {
+                hole_segs.push(segs);
+            }
+
+            for &seg in &main_segs {
                 seg_contour[seg.idx.0] = Some(contour_idx);
             }
-            ret.contours[contour_idx.0].path = self.segs_to_path(&segs, &positions);
+            ret.contours[contour_idx.0].path = self.segs_to_path(&main_segs, &positions);
+
+            // If we've been walking along holes all the time, they're all siblings.
+            let hole_parent = if ret.contours[contour_idx.0].outer {
+                Some(contour_idx)
+            } else {
+                ret.contours[contour_idx.0].parent
+            };
+            for segs in hole_segs {
+                let hole_idx = ContourIdx(ret.contours.len());
+                for &seg in &segs {
+                    seg_contour[seg.idx.0] = Some(hole_idx);
+                }
+                ret.contours.push(Contour {
+                    path: self.segs_to_path(&segs, &positions),
+                    parent: hole_parent,
+                    outer: false,
+                });
+            }
         }
 
         ret
-- 
2.43.0


From f9908e00b4fca07d4cda50ffd6a0ae79dff07806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:38 +0000
Subject: [PATCH 17/30] fix: rescale short curves, too, before estimating them
 with parabolas

---
 src/curve/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 13b4764..cb5f507 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -1038,8 +1038,9 @@ fn intersect_cubics_rec(
     // If the y coordinates are very off-center, the quadratic coefficients become
     // large and cause instability. So we re-center and then compensate afterwards.
     let y_mid = (y0 + y1) / 2.0;
-    let y_unscale = (y1 - y0).max(1.0);
-    //let y_unscale = 1.0f64;
+    // Likewise for very small y coordinates, if the whole curves are small.
+    let orig_height = (orig_c0.p3.y - orig_c0.p0.y).max(orig_c1.p3.y - orig_c1.p0.y);
+    let y_unscale = (y1 - y0).max(orig_height.min(1.0));
     let y_scale = y_unscale.recip();
     c0.p0.y = (c0.p0.y - y_mid) * y_scale;
     c0.p1.y = (c0.p1.y - y_mid) * y_scale;
-- 
2.43.0


From c255e25466cc50007731d64c38346cc2c2177d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 18/30] fix: compare directions of horizontal pieces in the
 continuity check only on the same sweep line

---
 src/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology.rs b/src/topology.rs
index 86f8dca..e0b9475 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1511,7 +1511,7 @@ impl<W: WindingNumber> Topology<W> {
                 // after segments coming from above and before segments going down, no matter the x positions.
                 let cmp = (p11.y, p12.y).partial_cmp(&(p21.y, p22.y)).unwrap();
                 let cmp = cmp.then((p11.x, p12.x).partial_cmp(&(p21.x, p22.x)).unwrap());
-                if horiz1 && horiz2 {
+                if horiz1 && horiz2 && p11.y == p21.y {
                     // We can create multiple horizontal segments for a segment in the same
                     // sweep line, but currently we don't create any backtracking: all the
                     // horizontal segments we create have the same orientation.
-- 
2.43.0


From 89ac9fd9fe2dba30e6b85663c714e98a1ac38f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 19/30] fix: next_touch_after must not skip a touch that
 follows a close start

---
 src/curve/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index cb5f507..ba35cba 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -166,7 +166,7 @@ impl CurveOrder {
 
         // If this interval is the last one, we'll say there's no touch.
         // It will get handled at the endpoint anyway.
-        let (_, next_y1, next_order) = iter.next()?;
+        let (_, _, next_order) = iter.next()?;
 
         let cross_y = (y0 + y1) / 2.0;
         match next_order {
@@ -180,7 +180,7 @@ impl CurveOrder {
                 if y < y0 {
                     Some(CurveInteraction::Touch(cross_y))
                 } else {
-                    self.next_touch_after(next_y1)
+                    self.next_touch_after(y1)
                 }
             }
             Order::Ish => {
-- 
2.43.0


From f7b4479e0afdabcec8ee01ebf8a77b64d880b813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 20/30] fix: scan from both sides of a removed segment

The crossing of two segments on either side of the removed one is only
found from the left neighbour if that one is involved, but its crossing
height is the middle of a close interval and so may come later.
---
 src/sweep/sweep_line.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 203a0f4..08b2dd4 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -536,6 +536,12 @@ impl<'segs> Sweeper<'segs> {
             self.intersection_scan_right(prev);
             self.intersection_scan_left(prev);
         }
+        let next = (pos..self.line.segs.len())
+            .find(|i| self.segments[self.line.seg(*i)].end().y > self.y);
+        if let Some(next) = next {
+            self.intersection_scan_left(next);
+            self.intersection_scan_right(next);
+        }
     }
 
     fn insert(&mut self, pos: usize, seg: SegmentOrderEntry) {
-- 
2.43.0


From 6ca6922e37a231ec93820b355409cd96a70357f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 21/30] fix: positions that were pushed past one another are
 not in order yet

---
 src/position.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index c45f708..c3ad396 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -51,7 +51,9 @@ fn ordered_curves_all_close(
         let q0 = endpoints[o0.second_half()];
         let q1 = endpoints[o1.second_half()];
 
-        if p0.y == y0 && p1.y == y0 {
+        // The positions so far might have been pushed (slightly) past one another, by
+        // different amounts. In that case we need to put them in order again.
+        if p0.y == y0 && p1.y == y0 && p0.x <= p1.x {
             let c0 = next_subsegment(&segs[s0], &out[o0].path, y1, q0);
             let c1 = next_subsegment(&segs[s1], &out[o1].path, y1, q1);
 
@@ -60,7 +62,7 @@ fn ordered_curves_all_close(
             }
         }
 
-        if q0.y == y1 && q1.y == y1 {
+        if q0.y == y1 && q1.y == y1 && q0.x <= q1.x {
             let c0 = next_subsegment(&segs[s0], &out[o0].path, y1, q0);
             let c1 = next_subsegment(&segs[s1], &out[o1].path, y1, q1);
 
-- 
2.43.0


From e6f19438c41a9808a7532127aecc5a18df04fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:36 +0000
Subject: [PATCH 22/30] fix: stop drawing a group of close curves where another
 curve gets close to it

---
 src/position.rs |  4 ++--
 src/topology.rs | 17 +++++++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index c3ad396..217de72 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -362,7 +362,7 @@ pub(crate) fn compute_positions(
                 let next_close_y = scan_order
                     .close_west_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
                     .unwrap_or(f64::INFINITY);
-                y1 = y1.min(next_close_y.max(cmp_end_y));
+                y1 = y1.min(next_close_y);
                 break;
             } else {
                 y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
@@ -381,7 +381,7 @@ pub(crate) fn compute_positions(
                 let next_close_y = scan_order
                     .close_east_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
                     .unwrap_or(f64::INFINITY);
-                y1 = y1.min(next_close_y.max(cmp_end_y));
+                y1 = y1.min(next_close_y);
                 break;
             } else {
                 y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
diff --git a/src/topology.rs b/src/topology.rs
index e0b9475..567c020 100644
--- a/src/topology.rs
+++ b/src/topology.rs
@@ -1723,7 +1723,7 @@ impl HalfScanLineOrder {
         segs: &Segments,
         cmp: &mut ComparisonCache,
     ) -> Option<f64> {
-        for (_, y1, other_seg) in self.iter(seg) {
+        for (y0, y1, other_seg) in self.iter(seg) {
             if y1 <= y {
                 continue;
             }
@@ -1732,11 +1732,12 @@ impl HalfScanLineOrder {
                 let order = cmp.compare_segments(segs, orig_seg[seg], orig_seg[other_seg]);
                 let next_ish = order
                     .iter()
-                    .take_while(|(order_y0, _, _)| *order_y0 < y1)
-                    .filter(|(_, _, order)| *order == Order::Ish)
-                    .find(|(order_y0, _, _)| *order_y0 >= y);
-                if let Some((order_y0, _, _)) = next_ish {
-                    return Some(order_y0);
+                    .filter(|(_, order_y1, order)| *order == Order::Ish && *order_y1 >= y0)
+                    // They might have become close before they became neighbors.
+                    .map(|(order_y0, _, _)| order_y0.max(y0))
+                    .find(|close_y| *close_y > y && *close_y < y1);
+                if next_ish.is_some() {
+                    return next_ish;
                 }
             }
         }
@@ -1778,7 +1779,7 @@ impl ScanLineOrder {
         self.east_map.neighbor_after(seg, y)
     }
 
-    /// Returns the next height (greater than or equal to `y`) at which `seg` has a close
+    /// Returns the next height (greater than `y`) at which `seg` gets a close
     /// neighbor to the east.
     pub fn close_east_neighbor_height_after(
         &self,
@@ -1792,7 +1793,7 @@ impl ScanLineOrder {
             .close_neighbor_height_after(seg, y, orig_seg, segs, cmp)
     }
 
-    /// Returns the next height (greater than or equal to `y`) at which `seg` has a close
+    /// Returns the next height (greater than `y`) at which `seg` gets a close
     /// neighbor to the west.
     pub fn close_west_neighbor_height_after(
         &self,
-- 
2.43.0


From af376d60c9e6151a064b735b587aa53c7d17f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:04 +0000
Subject: [PATCH 23/30] fix: stop drawing a group of close curves where a first
 neighbor gets close to it

---
 src/position.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 217de72..9b4651d 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -359,10 +359,6 @@ pub(crate) fn compute_positions(
             let (_, cmp_end_y, cmp_order) = order.iter().find(|(_, end_y, _)| *end_y > y0).unwrap();
 
             if cmp_order == Order::Left {
-                let next_close_y = scan_order
-                    .close_west_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
-                    .unwrap_or(f64::INFINITY);
-                y1 = y1.min(next_close_y);
                 break;
             } else {
                 y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
@@ -370,6 +366,12 @@ pub(crate) fn compute_positions(
             }
             cur = nbr;
         }
+        // Stop where something gets close to the west, even if there's nothing there yet.
+        if let Some(next_close_y) =
+            scan_order.close_west_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
+        {
+            y1 = y1.min(next_close_y);
+        }
 
         let mut east_scan = vec![];
         let mut cur = entry.idx;
@@ -378,10 +380,6 @@ pub(crate) fn compute_positions(
             let (_, cmp_end_y, cmp_order) = order.iter().find(|(_, end_y, _)| *end_y > y0).unwrap();
 
             if cmp_order == Order::Left {
-                let next_close_y = scan_order
-                    .close_east_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
-                    .unwrap_or(f64::INFINITY);
-                y1 = y1.min(next_close_y);
                 break;
             } else {
                 y1 = y1.min(cmp_end_y).min(endpoints[nbr.second_half()].y);
@@ -389,6 +387,12 @@ pub(crate) fn compute_positions(
             }
             cur = nbr;
         }
+        // Stop where something gets close to the east, even if there's nothing there yet.
+        if let Some(next_close_y) =
+            scan_order.close_east_neighbor_height_after(cur, y0, orig_seg_map, segs, cmp)
+        {
+            y1 = y1.min(next_close_y);
+        }
 
         let mut neighbors = west_scan;
         neighbors.reverse();
-- 
2.43.0


From c358c289964d706876765e2ce13b73e57ad721b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:46 +0000
Subject: [PATCH 24/30] fix: put approximating parabolas exactly in the middle
 of their height range

The rounded middle height isn't exactly in the middle, and for an almost
horizontal curve that moved the parabola past the ends of the curve.
---
 src/position.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/position.rs b/src/position.rs
index 9b4651d..5be3118 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -89,6 +89,7 @@ fn ordered_curves_all_close(
         let next_y0 = approximate(y0, y1, order, segs, accuracy, &mut approxes);
 
         let y_mid = (y0 + next_y0) / 2.0;
+        let h = (next_y0 - y0) / 2.0;
 
         let mut x0_max_so_far = f64::NEG_INFINITY;
         let mut x_mid_max_so_far = f64::NEG_INFINITY;
@@ -98,12 +99,10 @@ fn ordered_curves_all_close(
             // they're different...
             // let x_mid = quad.c0 + y_mid * quad.c1 + y0 * next_y0 * quad.c2;
             // let x1 = quad.c0 + quad.c1 * next_y0 + quad.c2 * next_y0 * next_y0;
-            let x_mid = quad.c0 + (y0 - y_mid) * (next_y0 - y_mid) * quad.c2;
-            let x1 = quad.c0
-                + quad.c1 * (next_y0 - y_mid)
-                + quad.c2 * (next_y0 - y_mid) * (next_y0 - y_mid);
+            let x_mid = quad.c0 - quad.c2 * h * h;
+            let x1 = quad.c0 + quad.c1 * h + quad.c2 * h * h;
 
-            let x0 = quad.c0 + quad.c1 * (y0 - y_mid) + quad.c2 * (y0 - y_mid) * (y0 - y_mid);
+            let x0 = quad.c0 - quad.c1 * h + quad.c2 * h * h;
 
             x0_max_so_far = x0_max_so_far.max(x0);
             x_mid_max_so_far = x_mid_max_so_far.max(x_mid);
@@ -165,6 +164,11 @@ fn approximate(
             cubic.p1.y -= y_mid;
             cubic.p2.y -= y_mid;
             cubic.p3.y -= y_mid;
+
+            // Because of rounding, `y_mid` might not be exactly in the middle. That makes a
+            // big difference for almost horizontal curves.
+            cubic.p0.y = -(y1 - y0) / 2.0;
+            cubic.p3.y = (y1 - y0) / 2.0;
             let mut approx = EstParab::from_cubic(cubic);
 
             let factor = horizontal_error_weight(cubic);
-- 
2.43.0


From 748ccba6180c84acdd3fb99693e742d7d6fabf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:19 +0000
Subject: [PATCH 25/30] fix: end the contour links of an open path at its ends

They pointed to the preceding path and past the end of the arena, which
made the sweep panic or connect pieces of different paths.
---
 src/segments.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/segments.rs b/src/segments.rs
index 1fdb66b..20194d9 100644
--- a/src/segments.rs
+++ b/src/segments.rs
@@ -386,6 +386,9 @@ impl Segments {
                         start_point,
                         end_point,
                     });
+                } else {
+                    self.contour_prev[start_idx] = None;
+                    self.contour_next[end_idx] = None;
                 }
             }
         }
-- 
2.43.0


From 1593de5a95c48d6ee66239c1e7e29bfaa57145de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:05 +0000
Subject: [PATCH 26/30] fix: signs of constant quadratics and of double roots
 at zero

---
 src/curve/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index ba35cba..99d507a 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -582,10 +582,18 @@ impl Quadratic {
             let root2 = -z / (2.0 * c2);
 
             // If z is zero, it means that c1 and disc are both (exactly!) zero,
-            // and so everything is zero.
-            if z == 0.0 {
+            // and so at least one of c2 and c0 is zero also.
+            if z == 0.0 && c2 != 0.0 {
+                // There's a double root at zero.
                 QuadraticSigns {
-                    initial_sign: 0.0,
+                    initial_sign: c2,
+                    smaller_root: 0.0,
+                    bigger_root: 0.0,
+                }
+            } else if z == 0.0 {
+                // We're a constant.
+                QuadraticSigns {
+                    initial_sign: c0,
                     smaller_root: f64::NEG_INFINITY,
                     bigger_root: f64::NEG_INFINITY,
                 }
-- 
2.43.0


From 6dae2b79254b191f8a72d401ec72566b51e0a718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 27/30] fix: leave nothing in the arena of a path that's
 refused

---
 src/segments.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/segments.rs b/src/segments.rs
index 20194d9..d47d54a 100644
--- a/src/segments.rs
+++ b/src/segments.rs
@@ -318,6 +318,7 @@ impl Segments {
         p: &BezPath,
         must_be_closed: bool,
     ) -> Result<(), NonClosedPath> {
+        let first_len = self.segs.len();
         let mut subpaths = Subpaths {
             inner: p.iter().peekable(),
         };
@@ -382,6 +383,7 @@ impl Segments {
                     self.contour_prev[start_idx] = Some(end_idx);
                     self.contour_next[end_idx] = Some(start_idx);
                 } else if must_be_closed {
+                    self.truncate(first_len);
                     return Err(NonClosedPath {
                         start_point,
                         end_point,
@@ -395,6 +397,16 @@ impl Segments {
         Ok(())
     }
 
+    /// Forget all segments from `len` on, which mustn't be in `enter` or `exit` yet.
+    fn truncate(&mut self, len: usize) {
+        self.segs.inner.truncate(len);
+        self.orientation.inner.truncate(len);
+        self.split_from_predecessor.inner.truncate(len);
+        self.input_segs.inner.truncate(len);
+        self.contour_prev.inner.truncate(len);
+        self.contour_next.inner.truncate(len);
+    }
+
     fn add_polyline_without_updating_enter_exit<P: Into<Point>>(
         &mut self,
         ps: impl IntoIterator<Item = P>,
-- 
2.43.0


From 40e5b18990b3770ec10be07dfc57a665f14ad4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:14 +0000
Subject: [PATCH 28/30] fix: put the drawn curves in order at negative heights
 too

The sweep of compute_positions skipped every stretch that starts above the
recorded last position of a curve, and that record started at zero: curves
drawn at negative heights were copied without being put in order.
---
 src/position.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/position.rs b/src/position.rs
index 5be3118..f1170b3 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -338,6 +338,7 @@ pub(crate) fn compute_positions(
     for idx in out.indices() {
         let p = endpoints[idx.first_half()];
         let q = endpoints[idx.second_half()];
+        last_y[idx] = p.y;
         if p.y == q.y {
             out[idx].path.move_to(p);
             out[idx].path.line_to(q);
-- 
2.43.0


From 00d7914cbf7fda8986257ce618689f1742216680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:07 +0000
Subject: [PATCH 29/30] fix: look for positions within the distance up to which
 the comparison decides

The comparison only orders curves that are 1.5 eps apart, but the ranges of
feasible positions were one eps wide, so they could exclude each other. Then
a steep curve was moved far along an almost horizontal one.
---
 src/sweep/sweep_line.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sweep/sweep_line.rs b/src/sweep/sweep_line.rs
index 08b2dd4..6d59def 100644
--- a/src/sweep/sweep_line.rs
+++ b/src/sweep/sweep_line.rs
@@ -1271,7 +1271,7 @@ fn feasible_horizontal_positions<G: Fn(&SegmentOrderEntry) -> SegIdx>(
             continue;
         }
         let seg = &segments[entry_seg(entry)];
-        max_so_far = max_so_far.max(seg.lower(y, eps));
+        max_so_far = max_so_far.max(seg.lower(y, 1.5 * eps));
         // Fill out the minimum allowed positions, with a placeholder for the maximum.
         out.push((*entry, max_so_far, 0.0));
 
@@ -1286,7 +1286,7 @@ fn feasible_horizontal_positions<G: Fn(&SegmentOrderEntry) -> SegIdx>(
         if !is_present(entry) {
             continue;
         }
-        let x = segments[entry_seg(entry)].upper(y, eps);
+        let x = segments[entry_seg(entry)].upper(y, 1.5 * eps);
         min_so_far = min_so_far.min(x);
         *max_allowed = min_so_far.min(max);
         *min_allowed = min_allowed.max(min);
-- 
2.43.0


From bbbc3a4e069efcb9fcd1e0a04fb89ca1b31f3c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:07 +0000
Subject: [PATCH 30/30] fix: go back to a straight segment after it was pushed
 far away

This was already done for curves. Straight segments were continued from
wherever they were pushed to, so they could be far off all the way.
---
 src/position.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/position.rs b/src/position.rs
index f1170b3..db5cdc8 100644
--- a/src/position.rs
+++ b/src/position.rs
@@ -271,6 +271,13 @@ fn copy_subsegment(
 ) {
     out.copied_idx = Some(out.path.elements().len() - 1);
     if seg.is_line() {
+        // If the previous part was pushed far away, go back first.
+        let p0 = bez_end(&out.path);
+        let x0 = seg.at_y(p0.y);
+        if out.path.elements().len() > 1 && (x0 - p0.x).abs() > max_endpoint_shift(accuracy) {
+            out.path.line_to((x0, p0.y));
+            out.copied_idx = Some(out.path.elements().len() - 1);
+        }
         if y1 < endpoint.y {
             out.path.line_to((seg.at_y(y1), y1));
         } else {
-- 
2.43.0

