From 6b0ed17a7dbffa8806dc3dc223b0d57f7c8b0c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:18 +0000
Subject: [PATCH 01/23] fix: cross product of 32-bit coordinate differences
 overflowed 64 bits

---
 workspace/boostvoronoi_core/src/predicate.rs | 34 +++-----------------
 1 file changed, 5 insertions(+), 29 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate.rs b/workspace/boostvoronoi_core/src/predicate.rs
index e260225..54d779f 100644
--- a/workspace/boostvoronoi_core/src/predicate.rs
+++ b/workspace/boostvoronoi_core/src/predicate.rs
@@ -56,35 +56,11 @@ pub(crate) fn is_vertical<I: InputType>(point1: Point<I>, point2: Point<I>) -> b
 /// with epsilon relative error equal to 1EPS.
 #[inline]
 fn robust_cross_product<I: InputType, F: OutputType>(s_a1: I, s_b1: I, s_a2: I, s_b2: I) -> F {
-    // Why can't *all* integers implement is_negative()? E.g u64 would just always return false.
-    // It would make it easier to implement generic code
-    let u_a1 = if s_a1 < I::zero() { -s_a1 } else { s_a1 };
-    let u_b1 = if s_b1 < I::zero() { -s_b1 } else { s_b1 };
-    let u_a2 = if s_a2 < I::zero() { -s_a2 } else { s_a2 };
-    let u_b2 = if s_b2 < I::zero() { -s_b2 } else { s_b2 };
-
-    let l = u_a1 * u_b2;
-    let r = u_b1 * u_a2;
-
-    if (s_a1 < I::zero()) ^ (s_b2 < I::zero()) {
-        return if (s_a2 < I::zero()) ^ (s_b1 < I::zero()) {
-            if l > r {
-                -cast::<I, F>(l - r)
-            } else {
-                cast::<I, F>(r - l)
-            }
-        } else {
-            -cast::<I, F>(l + r)
-        };
-    }
-    if (s_a2 < I::zero()) ^ (s_b1 < I::zero()) {
-        return cast::<I, F>(l + r);
-    }
-    if l < r {
-        -cast::<I, F>(r - l)
-    } else {
-        cast::<I, F>(l - r)
-    }
+    // Differences of 32-bit coordinates need 33 bits, so neither the products nor
+    // their sum are guaranteed to fit in 64 bits.
+    let l = cast::<I, i128>(s_a1) * cast::<I, i128>(s_b2);
+    let r = cast::<I, i128>(s_b1) * cast::<I, i128>(s_a2);
+    cast::<i128, F>(l - r)
 }
 
 pub(crate) mod orientation_predicate {
-- 
2.43.0


From ef35a67f1cbd668c39ca47f7e02e253a6c7ecd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 02/23] fix: pps circle events tangent to the very end of a
 segment were dropped by rounding

---
 .../src/predicate/lazy_circle_formation.rs            | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
index d616568..39ed9ea 100644
--- a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
+++ b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
@@ -261,13 +261,16 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
             cast::<I, f64>(site3.point1().x) - cast::<I, f64>(site3.point0().x),
             cast::<I, f64>(site3.point1().y) - cast::<I, f64>(site3.point0().y),
         );
+        let v_3_sqr_len = v_3.0 * v_3.0 + v_3.1 * v_3.1;
         #[allow(clippy::suspicious_operation_groupings)]
-        let dot = (v_3_c.0 * v_3.0 + v_3_c.1 * v_3.1) / (v_3.0 * v_3.0 + v_3.1 * v_3.1);
+        let dot = (v_3_c.0 * v_3.0 + v_3_c.1 * v_3.1) / v_3_sqr_len;
         tln!("pps dot:{:.12}", dot);
 
-        // allow the dot to be [0..1] + some ULP fuzz
-        let rv =
-            (-0.0..=1.0).contains(&dot) || approx::ulps_eq!(0.0, dot) || approx::ulps_eq!(1.0, dot);
+        // allow the dot to be [0..1] + some ULP fuzz. The center is only known to within some
+        // ULPs of its own coordinates, and those can be a lot larger than the segment is long.
+        let fuzz = ULPSX2 as f64 * f64::EPSILON * (c_event.x().abs() + c_event.y().abs())
+            / v_3_sqr_len.sqrt();
+        let rv = (-fuzz..=1.0 + fuzz).contains(&dot);
 
         #[cfg(feature = "ce_corruption_check")]
         if !rv {
-- 
2.43.0


From d37037dca5f23d6d92e9f9dc257eafd3a1d161a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 03/23] fix: the same pps circle was queued twice when a
 segment is on both sides of two points

---
 .../src/predicate/lazy_circle_formation.rs    | 45 ++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
index 39ed9ea..43f5274 100644
--- a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
+++ b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
@@ -309,11 +309,54 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
             println!("dot:{:?}", dot);
             println!("ignoring this CE\n");
         }
-        return rv.then_some(c_event);
+        return (rv && pps_contact_order(point1, point2, site3, segment_index, &c_event))
+            .then_some(c_event);
     };
     Some(c_event)
 }
 
+/// Tests that the circle touches `site1`, `site2` and `site3` in that order, when it is followed
+/// clockwise from its rightmost point (which is where the sweep line leaves it).
+/// When the beach line has the same segment on both sides of the two points, this is what tells
+/// the event that makes `site2` disappear from the one, on the very same circle, that does not.
+/// A contact that can't be told from the rightmost point is accepted on either side of it.
+fn pps_contact_order<I: InputType, F: OutputType>(
+    point1: Point<I>,
+    point2: Point<I>,
+    site3: &VSE::SiteEvent<I, F>,
+    segment_index: SiteIndex,
+    c_event: &CircleEvent,
+) -> bool {
+    let (cx, cy) = (c_event.x(), c_event.y());
+    let (x0, y0) = (cast::<I, f64>(site3.x0()), cast::<I, f64>(site3.y0()));
+    let (dx, dy) = (
+        cast::<I, f64>(site3.x1()) - x0,
+        cast::<I, f64>(site3.y1()) - y0,
+    );
+    let t = ((cx - x0) * dx + (cy - y0) * dy) / (dx * dx + dy * dy);
+    // the contact on the segment, and the point next to it, as seen from the rightmost point
+    let touch = (x0 + t * dx - c_event.lower_x(), y0 + t * dy - cy);
+    let point = match segment_index {
+        SiteIndex::One => point1,
+        SiteIndex::Two => return true,
+        SiteIndex::Three => point2,
+    };
+    let point = (
+        cast::<I, f64>(point.x) - c_event.lower_x(),
+        cast::<I, f64>(point.y) - cy,
+    );
+    let cross = touch.0 * point.1 - touch.1 * point.0;
+    let fuzz = ULPSX2 as f64
+        * f64::EPSILON
+        * (cx.abs() + cy.abs() + c_event.lower_x().abs())
+        * (touch.0.abs() + touch.1.abs() + point.0.abs() + point.1.abs());
+    if segment_index == SiteIndex::One {
+        cross <= fuzz
+    } else {
+        cross >= -fuzz
+    }
+}
+
 /// Lazy evaluation of point, segment, segment circle events
 #[allow(unused_parens)]
 pub(crate) fn pss<I: InputType, F: OutputType>(
-- 
2.43.0


From 680d82cabafc9f88ed28cc9c861f2b62deb9b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 04/23] fix: beach line order of two points closer to each
 other than the rounding of their distances

---
 workspace/boostvoronoi_core/src/predicate.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate.rs b/workspace/boostvoronoi_core/src/predicate.rs
index 54d779f..fe97831 100644
--- a/workspace/boostvoronoi_core/src/predicate.rs
+++ b/workspace/boostvoronoi_core/src/predicate.rs
@@ -355,11 +355,20 @@ pub(crate) mod distance_predicate {
             }
         }
 
-        let dist1 = distance_to_point_arc(left_site, new_point);
-        let dist2 = distance_to_point_arc(right_site, new_point);
-
-        // The undefined ulp range is equal to 3EPS + 3EPS <= 6ULP.
-        dist1 < dist2
+        // distance_to_point_arc(left_site) < distance_to_point_arc(right_site), but exact: 97 bits.
+        // Arcs of points that are close to each other, compared to their distance to new_point,
+        // are closer to each other than the rounding error of those distances.
+        let (dx1, dy1, dx2, dy2) = (
+            cast::<I, i64>(left_point.x) - cast::<I, i64>(new_point.x),
+            cast::<I, i64>(left_point.y) - cast::<I, i64>(new_point.y),
+            cast::<I, i64>(right_point.x) - cast::<I, i64>(new_point.x),
+            cast::<I, i64>(right_point.y) - cast::<I, i64>(new_point.y),
+        );
+        if dx1 < 0 && dx2 < 0 {
+            let (dx1, dy1, dx2, dy2) = (dx1 as i128, dy1 as i128, dx2 as i128, dy2 as i128);
+            return (dx1 * dx1 + dy1 * dy1) * dx2 < (dx2 * dx2 + dy2 * dy2) * dx1;
+        }
+        distance_to_point_arc(left_site, new_point) < distance_to_point_arc(right_site, new_point)
     }
 
     pub(crate) fn ps<I: InputType, F: OutputType>(
-- 
2.43.0


From 4d71787ae33b9eaaf2ca21d0649fb241c34f30f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 05/23] fix: sss circle with a denominator that cancels to zero
 panicked in debug builds

---
 .../boostvoronoi_core/src/predicate/lazy_circle_formation.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
index 43f5274..b721f24 100644
--- a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
+++ b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
@@ -796,6 +796,11 @@ pub(crate) fn sss<I: InputType, F: OutputType>(
 
     let denom_dif = denom.dif();
     //tln!("  denom_dif:{:?}", denom_dif);
+    if denom_dif.fpv() == 0.0 {
+        // nothing is left of denom but rounding errors
+        exact_circle_formation::sss(site1, site2, site3, &mut c_event, true, true, true);
+        return Some(c_event);
+    }
     let c_x_dif = c_x.dif() / denom_dif;
     let c_y_dif = c_y.dif() / denom_dif;
     let lower_x_dif = lower_x.dif() / denom_dif;
-- 
2.43.0


From 2dbe23c681864c8b328c90f3747f5faa7f0167b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 06/23] fix: the contact order of a pps circle was lost in
 rounding next to a long segment

---
 .../src/predicate/lazy_circle_formation.rs    | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
index b721f24..59dd244 100644
--- a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
+++ b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
@@ -327,20 +327,27 @@ fn pps_contact_order<I: InputType, F: OutputType>(
     segment_index: SiteIndex,
     c_event: &CircleEvent,
 ) -> bool {
-    let (cx, cy) = (c_event.x(), c_event.y());
-    let (x0, y0) = (cast::<I, f64>(site3.x0()), cast::<I, f64>(site3.y0()));
-    let (dx, dy) = (
-        cast::<I, f64>(site3.x1()) - x0,
-        cast::<I, f64>(site3.y1()) - y0,
-    );
-    let t = ((cx - x0) * dx + (cy - y0) * dy) / (dx * dx + dy * dy);
-    // the contact on the segment, and the point next to it, as seen from the rightmost point
-    let touch = (x0 + t * dx - c_event.lower_x(), y0 + t * dy - cy);
     let point = match segment_index {
         SiteIndex::One => point1,
         SiteIndex::Two => return true,
         SiteIndex::Three => point2,
     };
+    let (cx, cy) = (c_event.x(), c_event.y());
+    // the unit normal of the segment, directed from the points to it
+    let (mut nx, mut ny) = (
+        cast::<I, f64>(site3.y1()) - cast::<I, f64>(site3.y0()),
+        cast::<I, f64>(site3.x0()) - cast::<I, f64>(site3.x1()),
+    );
+    let len = (nx * nx + ny * ny).sqrt();
+    (nx, ny) = (nx / len, ny / len);
+    if [point1, point2].iter().any(|p| {
+        orientation_predicate::eval_p::<I>(site3.point0(), site3.point1(), *p) == Orientation::Right
+    }) {
+        (nx, ny) = (-nx, -ny);
+    }
+    // the contact on the segment, and the point next to it, as seen from the rightmost point
+    let r = c_event.lower_x() - cx;
+    let touch = (r * (nx - 1.0), r * ny);
     let point = (
         cast::<I, f64>(point.x) - c_event.lower_x(),
         cast::<I, f64>(point.y) - cy,
-- 
2.43.0


From c507bf66a34b08f96ad50405b8aa6ac83870dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 07/23] fix: beach line order of a segment and a point or
 segment closer to each other than the rounding of their distances

---
 workspace/boostvoronoi_core/src/predicate.rs | 39 ++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/workspace/boostvoronoi_core/src/predicate.rs b/workspace/boostvoronoi_core/src/predicate.rs
index fe97831..a46d9e6 100644
--- a/workspace/boostvoronoi_core/src/predicate.rs
+++ b/workspace/boostvoronoi_core/src/predicate.rs
@@ -291,7 +291,9 @@ pub(crate) mod distance_predicate {
     use crate::ctypes::ulp_comparison;
     use crate::geometry::Point;
     use crate::predicate::{orientation_predicate, robust_cross_product};
+    use crate::robust_sqrt_expr;
     use crate::{cast, site_event::SiteEvent, InputType, OutputType};
+    use boostvoronoi_ext::extended_int as EI;
     use std::cmp;
 
     /// Represents the result of the epsilon robust predicate. If the
@@ -382,10 +384,22 @@ pub(crate) mod distance_predicate {
             return fast_res == KPredicateResult::LESS;
         }
 
+        let site_point = left_site.point0();
         let dist1 = distance_to_point_arc(left_site, new_point);
         let dist2 = distance_to_segment_arc(right_site, new_point);
 
         // The undefined ulp range is equal to 3EPS + 7EPS <= 10ULP.
+        if ulp_comparison(dist1, dist2, 16) == cmp::Ordering::Equal && site_point.x < new_point.x {
+            // sqr / (2 * dx) < c / (b + s) <=> 0 < sqr * s + sqr * b - 2 * dx * c
+            let ei = |v: i64| EI::ExtendedInt::from(v);
+            let dx = ei(cast::<I, i64>(site_point.x) - cast::<I, i64>(new_point.x));
+            let dy = ei(cast::<I, i64>(site_point.y) - cast::<I, i64>(new_point.y));
+            let (c, b, sqr_s) = exact_distance_to_segment_arc(right_site, new_point);
+            let sqr = &dx * &dx + &dy * &dy;
+            let rest = &sqr * &b - &dx * &c * &ei(2);
+            let dif = robust_sqrt_expr::eval2(&[sqr, rest], &[sqr_s, ei(1)]);
+            return reverse_order ^ dif.is_pos();
+        }
         reverse_order ^ (dist1 < dist2)
     }
 
@@ -407,6 +421,14 @@ pub(crate) mod distance_predicate {
         let dist2 = distance_to_segment_arc(right_site, new_point);
 
         // The undefined ulp range is equal to 7EPS + 7EPS <= 14ULP.
+        if ulp_comparison(dist1, dist2, 16) == cmp::Ordering::Equal {
+            // c1 / (b1 + s1) < c2 / (b2 + s2) <=> c1 * s2 - c2 * s1 + c1 * b2 - c2 * b1 < 0
+            let (c1, b1, sqr_s1) = exact_distance_to_segment_arc(left_site, new_point);
+            let (c2, b2, sqr_s2) = exact_distance_to_segment_arc(right_site, new_point);
+            let rest = &c1 * &b2 - &c2 * &b1;
+            let one = EI::ExtendedInt::from(1_i64);
+            return robust_sqrt_expr::eval3(&[c1, -c2, rest], &[sqr_s2, sqr_s1, one]).is_neg();
+        }
         dist1 < dist2
     }
 
@@ -450,6 +472,23 @@ pub(crate) mod distance_predicate {
         }
     }
 
+    /// The distance to the segment arc as c / (b + sqrt(sqr_s)): returns exact (c, b, sqr_s).
+    fn exact_distance_to_segment_arc<I: InputType, F: OutputType>(
+        site: &SiteEvent<I, F>,
+        point: Point<I>,
+    ) -> (EI::ExtendedInt, EI::ExtendedInt, EI::ExtendedInt) {
+        let dif = |p: I, q: I| EI::ExtendedInt::from(cast::<I, i64>(p) - cast::<I, i64>(q));
+        let (p0, p1) = (site.point0(), site.point1());
+        if site.is_vertical() {
+            let one = || EI::ExtendedInt::from(1_i64);
+            return (dif(p0.x, point.x), one(), one());
+        }
+        let (a, b) = (dif(p1.x, p0.x), dif(p1.y, p0.y));
+        let c = &a * &dif(point.y, p0.y) - &b * &dif(point.x, p0.x);
+        let sqr_s = &a * &a + &b * &b;
+        (c, b, sqr_s)
+    }
+
     fn fast_ps<I: InputType, F: OutputType>(
         left_site: &SiteEvent<I, F>,
         right_site: &SiteEvent<I, F>,
-- 
2.43.0


From 716ed70a0b2c056c93c0a08b672f25c4043feb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:59 +0000
Subject: [PATCH 08/23] monitor hooks: record of the sweep, access to the sqrt
 evaluators (cfg boostvoronoi_monitor)

---
 workspace/boostvoronoi_core/src/builder.rs |  13 +++
 workspace/boostvoronoi_core/src/lib.rs     |   4 +
 workspace/boostvoronoi_core/src/monitor.rs | 117 +++++++++++++++++++++
 3 files changed, 134 insertions(+)
 create mode 100644 workspace/boostvoronoi_core/src/monitor.rs

diff --git a/workspace/boostvoronoi_core/src/builder.rs b/workspace/boostvoronoi_core/src/builder.rs
index 31647c1..11f9ac0 100644
--- a/workspace/boostvoronoi_core/src/builder.rs
+++ b/workspace/boostvoronoi_core/src/builder.rs
@@ -475,6 +475,9 @@ impl<I: InputType, F: OutputType> Builder<I, F> {
         while *site_event_iterator_ != last_index {
             // site_event is a copy of the the event site_event_iterator_ is indexing
             let mut site_event = self.site_events_[*site_event_iterator_];
+            #[allow(unexpected_cfgs)]
+            #[cfg(boostvoronoi_monitor)]
+            crate::monitor::site(&site_event);
             let mut left_it = right_it.clone();
 
             // Do further processing depending on the above node position.
@@ -622,6 +625,9 @@ impl<I: InputType, F: OutputType> Builder<I, F> {
             ))
         })?;
         tln!("processing:{:?}", circle_event);
+        #[allow(unexpected_cfgs)]
+        #[cfg(boostvoronoi_monitor)]
+        crate::monitor::circle(&circle_event);
 
         if !self
             .circle_events_
@@ -949,6 +955,9 @@ impl<I: InputType, F: OutputType> Builder<I, F> {
             // new circle event in the circle event queue.
             tln!("added circle event:{:?}", c_event);
 
+            #[allow(unexpected_cfgs)]
+            #[cfg(boostvoronoi_monitor)]
+            crate::monitor::planned([&site1, &site2, &site3], Some(&c_event));
             let circle_event_id = self.circle_events_.associate_and_push(c_event);
             let bn = self.beach_line_.get_node(&bisector_node)?;
             if let Some(mut bd) = bn.1.get() {
@@ -966,6 +975,10 @@ impl<I: InputType, F: OutputType> Builder<I, F> {
                     bisector_node.0
                 )));
             }
+        } else {
+            #[allow(unexpected_cfgs)]
+            #[cfg(boostvoronoi_monitor)]
+            crate::monitor::planned([&site1, &site2, &site3], None);
         }
         Ok(())
     }
diff --git a/workspace/boostvoronoi_core/src/lib.rs b/workspace/boostvoronoi_core/src/lib.rs
index fe13c8f..d102ff9 100644
--- a/workspace/boostvoronoi_core/src/lib.rs
+++ b/workspace/boostvoronoi_core/src/lib.rs
@@ -40,6 +40,10 @@ mod end_point;
 
 pub mod file_reader;
 pub mod geometry;
+#[allow(unexpected_cfgs)]
+#[cfg(boostvoronoi_monitor)]
+#[doc(hidden)]
+pub mod monitor;
 pub(crate) mod predicate;
 pub(crate) mod robust_sqrt_expr;
 mod site_event;
diff --git a/workspace/boostvoronoi_core/src/monitor.rs b/workspace/boostvoronoi_core/src/monitor.rs
new file mode 100644
index 0000000..171f628
--- /dev/null
+++ b/workspace/boostvoronoi_core/src/monitor.rs
@@ -0,0 +1,117 @@
+//! Access for run-time monitors: a record of what the sweep does, and entry points to the
+//! evaluators of robust_sqrt_expr. Only compiled with `--cfg boostvoronoi_monitor`.
+
+use crate::circle_event::CircleEvent;
+use crate::robust_sqrt_expr as RSE;
+use crate::site_event::SiteEvent;
+use crate::{InputType, OutputType};
+use boostvoronoi_ext::extended_exp_fpt::ExtendedExponentFpt;
+use boostvoronoi_ext::extended_int::ExtendedInt;
+use std::cell::RefCell;
+
+/// point0 and point1 of a site as the sweep uses it, and whether it is a segment
+#[derive(Copy, Clone, Debug, PartialEq)]
+pub struct SiteRecord {
+    pub p0: [i64; 2],
+    pub p1: [i64; 2],
+    pub segment: bool,
+    pub sorted_index: usize,
+}
+
+#[derive(Copy, Clone, Debug, PartialEq)]
+pub struct CircleRecord {
+    pub id: usize,
+    pub x: f64,
+    pub y: f64,
+    pub lower_x: f64,
+    pub site_point: bool,
+}
+
+#[derive(Copy, Clone, Debug, PartialEq)]
+pub enum Event {
+    /// a site event is handled
+    Site(SiteRecord),
+    /// three neighbouring arcs were looked at; None: no circle event was planned for them
+    Planned([SiteRecord; 3], Option<CircleRecord>),
+    /// a circle event is handled
+    Circle(CircleRecord),
+}
+
+thread_local! {
+    static LOG: RefCell<Option<Vec<Event>>> = const { RefCell::new(None) };
+}
+
+/// starts recording on this thread
+pub fn start() {
+    LOG.with(|l| *l.borrow_mut() = Some(Vec::new()));
+}
+
+/// stops recording, returns what was recorded
+pub fn take() -> Vec<Event> {
+    LOG.with(|l| l.borrow_mut().take()).unwrap_or_default()
+}
+
+fn record(e: impl FnOnce() -> Event) {
+    LOG.with(|l| {
+        if let Some(l) = l.borrow_mut().as_mut() {
+            l.push(e())
+        }
+    });
+}
+
+fn site_record<I: InputType, F: OutputType>(s: &SiteEvent<I, F>) -> SiteRecord {
+    let c = |v: I| num_traits::cast::<I, i64>(v).unwrap();
+    SiteRecord {
+        p0: [c(s.point0().x), c(s.point0().y)],
+        p1: [c(s.point1().x), c(s.point1().y)],
+        segment: s.is_segment(),
+        sorted_index: s.sorted_index(),
+    }
+}
+
+fn circle_record(c: &CircleEvent) -> CircleRecord {
+    CircleRecord {
+        id: c.get_index().map_or(usize::MAX, |i| i.0),
+        x: c.x(),
+        y: c.y(),
+        lower_x: c.lower_x(),
+        site_point: c.is_site_point(),
+    }
+}
+
+pub(crate) fn site<I: InputType, F: OutputType>(s: &SiteEvent<I, F>) {
+    record(|| Event::Site(site_record(s)));
+}
+
+pub(crate) fn planned<I: InputType, F: OutputType>(
+    s: [&SiteEvent<I, F>; 3],
+    c: Option<&CircleEvent>,
+) {
+    record(|| Event::Planned(s.map(|s| site_record(s)), c.map(circle_record)));
+}
+
+pub(crate) fn circle(c: &CircleEvent) {
+    record(|| Event::Circle(circle_record(c)));
+}
+
+type Xf = ExtendedExponentFpt<f64>;
+
+/// sum of a\[i\] * sqrt(b\[i\]) over all (1 to 4) terms
+pub fn eval(a: &[ExtendedInt], b: &[ExtendedInt]) -> Xf {
+    match a.len() {
+        1 => RSE::eval1(a, b),
+        2 => RSE::eval2(a, b),
+        3 => RSE::eval3(a, b),
+        _ => RSE::eval4(a, b),
+    }
+}
+
+/// a\[0\] * sqrt(b\[0\]) + a\[1\] * sqrt(b\[1\]) + a\[2\] + a\[3\] * sqrt(b\[3\]) where b\[3\] = b\[0\] * b\[1\]
+pub fn eval_pss3(a: &[ExtendedInt], b: &[ExtendedInt]) -> Xf {
+    RSE::sqrt_expr_evaluator_pss3(a, b)
+}
+
+/// a\[3\] + a\[0\] * sqrt(b\[0\]) + a\[1\] * sqrt(b\[1\]) + a\[2\] * sqrt(b\[3\] * (sqrt(b\[0\] * b\[1\]) + b\[2\]))
+pub fn eval_pss4(a: &[ExtendedInt], b: &[ExtendedInt]) -> Xf {
+    RSE::sqrt_expr_evaluator_pss4(a, b)
+}
-- 
2.43.0


From d1a7d4909a18721f9fa827ffbfac7fad1ab86a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:14 +0000
Subject: [PATCH 09/23] fix: differences of big integers kept leading zero
 words, their value and later results were wrong

---
 workspace/boostvoronoi_ext/src/extended_int.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_int.rs b/workspace/boostvoronoi_ext/src/extended_int.rs
index 8299d28..9f1ffcf 100644
--- a/workspace/boostvoronoi_ext/src/extended_int.rs
+++ b/workspace/boostvoronoi_ext/src/extended_int.rs
@@ -269,7 +269,6 @@ impl ExtendedInt {
             }
             sz2 = sz1;
         }
-        self.count_ = (sz1 - 1) as i32;
         let mut flag = false;
 
         for _i in self.chunks_.len()..sz1 {
@@ -284,15 +283,11 @@ impl ExtendedInt {
             self.chunks_[i] = c1_i - if flag { Wrapping(1) } else { Wrapping(0) };
             flag = (c1_i.0 == 0) && flag;
         }
-        if self.chunks_[self.count_ as usize].0 != 0 {
-            self.count_ += 1;
-            if (self.count_ as usize) > self.chunks_.len() {
-                self.chunks_.push(Wrapping(0));
-            }
-        }
-        if (self.count_ as usize) < self.chunks_.len() {
+        // more than one of the leading words may have cancelled
+        while self.chunks_.last() == Some(&Wrapping(0)) {
             let _ = self.chunks_.pop();
         }
+        self.count_ = self.chunks_.len() as i32;
     }
 
     fn mul_other(&mut self, e1: &Self, e2: &Self) {
-- 
2.43.0


From 75abca9c49ea946934382ab6caf531e4747ee809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 10/23] fix: the big integer of i64::MIN overflowed,
 Zero::is_zero was unimplemented

---
 workspace/boostvoronoi_ext/src/extended_int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_int.rs b/workspace/boostvoronoi_ext/src/extended_int.rs
index 9f1ffcf..c24e118 100644
--- a/workspace/boostvoronoi_ext/src/extended_int.rs
+++ b/workspace/boostvoronoi_ext/src/extended_int.rs
@@ -59,7 +59,7 @@ impl<I: InputType> From<I> for ExtendedInt {
                 }
             }
             cmp::Ordering::Less => {
-                let mut c: u64 = (-that) as u64;
+                let mut c: u64 = that.unsigned_abs();
                 rv.chunks_.push(Wrapping((c & 0xFFFFFFFF) as u32));
                 c >>= 32;
                 if c != 0 {
@@ -92,7 +92,7 @@ impl Zero for ExtendedInt {
     }
     #[inline]
     fn is_zero(&self) -> bool {
-        unimplemented!()
+        self.count_ == 0
     }
 }
 
-- 
2.43.0


From a06e9b02e9cd270848c8862080ee6222bf811fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 11/23] fix: adding or subtracting a zero with a large exponent
 dropped the other operand

---
 .../boostvoronoi_ext/src/extended_exp_fpt.rs   | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
index 3e29d9e..3a4b157 100644
--- a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
@@ -273,12 +273,15 @@ impl ops::Add for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(c.d(), 3000000000_f64);
     /// ```
     fn add(self, that: Self) -> Self {
+        // the exponent of a zero says nothing about its size
+        if that.val_ == 0.0
+            || self.val_ != 0.0 && self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64
+        {
+            return self;
+        }
         if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
             return that;
         }
-        if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            return self;
-        }
         if self.exp_ >= that.exp_ {
             let exp_dif = self.exp_ - that.exp_;
             let val = libm::ldexp(self.val_, exp_dif) + that.val_;
@@ -313,12 +316,15 @@ impl ops::Sub for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(c.d(), 1000000000_f64-(-3000000000.0));
     /// ```
     fn sub(self, that: Self) -> Self {
+        // the exponent of a zero says nothing about its size
+        if that.val_ == 0.0
+            || self.val_ != 0.0 && self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64
+        {
+            return self;
+        }
         if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
             return Self::new(-that.val_, that.exp_);
         }
-        if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            return self;
-        }
         if self.exp_ >= that.exp_ {
             let exp_dif = self.exp_ - that.exp_;
             let val = libm::ldexp(self.val_, exp_dif) - that.val_;
-- 
2.43.0


From 51275f11728960918c96b94f5eb10a0f3973105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 12/23] fix: += and -= on a zero number counted the operand
 twice, *= and /= let the mantissa run out of range

---
 .../boostvoronoi_ext/src/extended_exp_fpt.rs  | 45 ++-----------------
 1 file changed, 4 insertions(+), 41 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
index 3a4b157..7cb8f07 100644
--- a/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/extended_exp_fpt.rs
@@ -460,25 +460,7 @@ impl ops::AddAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), 3000000000_f64);
     /// ```
     fn add_assign(&mut self, that: Self) {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            self.val_ = that.val_;
-            self.exp_ = that.exp_;
-        }
-        if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            // do nothing
-            return;
-        }
-        if self.exp_ >= that.exp_ {
-            let exp_dif = self.exp_ - that.exp_;
-            let val = libm::ldexp(self.val_, exp_dif) + that.val_;
-            self.val_ = val;
-            self.exp_ = that.exp_;
-        } else {
-            let exp_dif = that.exp_ - self.exp_;
-            let val = libm::ldexp(that.val_, exp_dif) + self.val_;
-            self.val_ = val;
-            //self.exp_ = self.exp;
-        }
+        *self = *self + that;
     }
 }
 
@@ -503,24 +485,7 @@ impl ops::SubAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), 1000000000_f64-(-3000000000.0));
     /// ```
     fn sub_assign(&mut self, that: Self) {
-        if self.val_ == 0.0 || that.exp_ > self.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            self.val_ = -that.val_;
-            self.exp_ = that.exp_;
-        }
-        if that.val_ == 0.0 || self.exp_ > that.exp_ + MAX_SIGNIFICANT_EXP_DIF_F64 {
-            return;
-        }
-        if self.exp_ >= that.exp_ {
-            let exp_dif = self.exp_ - that.exp_;
-            let val = libm::ldexp(self.val_, exp_dif) - that.val_;
-            self.val_ = val;
-            self.exp_ = that.exp_;
-        } else {
-            let exp_dif = that.exp_ - self.exp_;
-            let val = libm::ldexp(-that.val_, exp_dif) + self.val_;
-            self.val_ = val;
-            //self.exp_ = self.exp_;
-        }
+        *self = *self - that;
     }
 }
 
@@ -543,8 +508,7 @@ impl ops::MulAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), 1000000000_f64*2000000000_f64);
     /// ```
     fn mul_assign(&mut self, that: Self) {
-        self.val_ *= that.val_;
-        self.exp_ += that.exp_;
+        *self = *self * that;
     }
 }
 
@@ -567,8 +531,7 @@ impl ops::DivAssign for ExtendedExponentFpt<f64> {
     /// approx::assert_ulps_eq!(a.d(), -1f64);
     /// ```
     fn div_assign(&mut self, that: Self) {
-        self.val_ /= that.val_;
-        self.exp_ -= that.exp_;
+        *self = *self / that;
     }
 }
 
-- 
2.43.0


From 61ebd84eed1be4f2a60060074e84152f5bb3bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 13/23] fix: two-part sums from negative values, or multiplied
 or divided by them or by each other, had a wrong value or sign

---
 workspace/boostvoronoi_ext/src/robust_fpt.rs | 21 ++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/workspace/boostvoronoi_ext/src/robust_fpt.rs b/workspace/boostvoronoi_ext/src/robust_fpt.rs
index b96162c..c3a1a77 100644
--- a/workspace/boostvoronoi_ext/src/robust_fpt.rs
+++ b/workspace/boostvoronoi_ext/src/robust_fpt.rs
@@ -454,7 +454,7 @@ impl From<f64> for RobustDif {
         } else {
             Self {
                 positive_sum_: RobustFpt::default(),
-                negative_sum_: RobustFpt::from(value),
+                negative_sum_: RobustFpt::from(-value),
             }
         }
     }
@@ -624,8 +624,10 @@ impl ops::Mul<RobustDif> for RobustDif {
 
     fn mul(self, rhs: RobustDif) -> Self {
         Self {
-            positive_sum_: self.positive_sum_ * rhs.positive_sum_,
-            negative_sum_: self.negative_sum_ * rhs.negative_sum_,
+            positive_sum_: self.positive_sum_ * rhs.positive_sum_
+                + self.negative_sum_ * rhs.negative_sum_,
+            negative_sum_: self.positive_sum_ * rhs.negative_sum_
+                + self.negative_sum_ * rhs.positive_sum_,
         }
     }
 }
@@ -642,8 +644,8 @@ impl ops::Mul<f64> for RobustDif {
             }
         } else {
             Self {
-                positive_sum_: self.negative_sum_ * rhs,
-                negative_sum_: self.positive_sum_ * rhs,
+                positive_sum_: self.negative_sum_ * -rhs,
+                negative_sum_: self.positive_sum_ * -rhs,
             }
         }
     }
@@ -692,8 +694,7 @@ impl ops::MulAssign<RobustFpt> for RobustDif {
 
 impl ops::MulAssign<RobustDif> for RobustDif {
     fn mul_assign(&mut self, rhs: RobustDif) {
-        self.positive_sum_ = self.positive_sum_ * rhs.positive_sum_;
-        self.negative_sum_ = self.negative_sum_ * rhs.negative_sum_;
+        *self = *self * rhs;
     }
 }
 
@@ -707,7 +708,11 @@ impl fmt::Debug for RobustDif {
 }
 
 impl ops::DivAssign<RobustFpt> for RobustDif {
-    fn div_assign(&mut self, rhs: RobustFpt) {
+    fn div_assign(&mut self, mut rhs: RobustFpt) {
+        if rhs.is_neg() {
+            rhs = -rhs;
+            self.swap();
+        }
         self.positive_sum_ /= rhs;
         self.negative_sum_ /= rhs;
     }
-- 
2.43.0


From 80bc2c88a9d441e0ee69cf0c9efe5f2934c39578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 14/23] monitor hooks: queueing and cancelling of circle events
 (cfg boostvoronoi_monitor)

---
 workspace/boostvoronoi_core/src/circle_event.rs |  8 ++++++++
 workspace/boostvoronoi_core/src/monitor.rs      | 12 ++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/workspace/boostvoronoi_core/src/circle_event.rs b/workspace/boostvoronoi_core/src/circle_event.rs
index 6b240a1..de45cc8 100644
--- a/workspace/boostvoronoi_core/src/circle_event.rs
+++ b/workspace/boostvoronoi_core/src/circle_event.rs
@@ -426,6 +426,9 @@ impl CircleEventQueue {
         let circle_event_id = self.c_list_next_free_index_;
         // set the correct index on the circle event
         ce.set_index(circle_event_id);
+        #[allow(unexpected_cfgs)]
+        #[cfg(boostvoronoi_monitor)]
+        crate::monitor::queued(circle_event_id.0);
         let rc_ce = Rc::new(ce);
         let _ = self.ce_by_id_.insert(circle_event_id.0, Rc::clone(&rc_ce));
 
@@ -440,6 +443,11 @@ impl CircleEventQueue {
     }
 
     pub(crate) fn deactivate(&mut self, circle_event_id: Option<CircleEventIndex>) {
+        #[allow(unexpected_cfgs)]
+        #[cfg(boostvoronoi_monitor)]
+        if let Some(circle_event_id) = circle_event_id {
+            crate::monitor::cancelled(circle_event_id.0);
+        }
         #[cfg(not(feature = "console_debug"))]
         if let Some(circle_event_id) = circle_event_id {
             self.inactive_circle_ids_.set_grow(circle_event_id.0, true);
diff --git a/workspace/boostvoronoi_core/src/monitor.rs b/workspace/boostvoronoi_core/src/monitor.rs
index 171f628..1241091 100644
--- a/workspace/boostvoronoi_core/src/monitor.rs
+++ b/workspace/boostvoronoi_core/src/monitor.rs
@@ -33,6 +33,10 @@ pub enum Event {
     Site(SiteRecord),
     /// three neighbouring arcs were looked at; None: no circle event was planned for them
     Planned([SiteRecord; 3], Option<CircleRecord>),
+    /// the circle event planned last got this id
+    Queued(usize),
+    /// this circle event is not to be handled
+    Cancelled(usize),
     /// a circle event is handled
     Circle(CircleRecord),
 }
@@ -90,6 +94,14 @@ pub(crate) fn planned<I: InputType, F: OutputType>(
     record(|| Event::Planned(s.map(|s| site_record(s)), c.map(circle_record)));
 }
 
+pub(crate) fn queued(id: usize) {
+    record(|| Event::Queued(id));
+}
+
+pub(crate) fn cancelled(id: usize) {
+    record(|| Event::Cancelled(id));
+}
+
 pub(crate) fn circle(c: &CircleEvent) {
     record(|| Event::Circle(circle_record(c)));
 }
-- 
2.43.0


From 38a8804133cf655eeb27ff691e2f043d30187f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 15/23] fix: asking for an edge that does not exist panicked in
 debug builds

---
 workspace/boostvoronoi_core/src/diagram.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index 081fc40..f5ae6dc 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -1084,16 +1084,7 @@ impl<F: OutputType> Diagram<F> {
 
     #[inline]
     pub(crate) fn edge_get_(&self, edge_id: Option<EdgeIndex>) -> Option<&EdgeType> {
-        let rv = self.edges_.get(edge_id?.0);
-        debug_assert!({
-            if rv.is_none() {
-                dbg!(edge_id.unwrap().0);
-                // todo: remove this panic and raise error?
-                panic!();
-            };
-            true
-        });
-        rv
+        self.edges_.get(edge_id?.0)
     }
 
     /// Overwrites the content of dest with the content of source.
-- 
2.43.0


From 573a59436c8ee9e985f0c5206b8eca5d02e88151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 16/23] fix: accessors of edges and vertices that do not exist
 reported success

---
 workspace/boostvoronoi_core/src/diagram.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index f5ae6dc..4b62839 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -1045,6 +1045,7 @@ impl<F: OutputType> Diagram<F> {
         vertex_id: VertexIndex,
         color: ColorType,
     ) -> Result<(), BvError> {
+        let _ = self.vertex_get(vertex_id)?;
         self.vertex_set_color_(Some(vertex_id), color);
         Ok(())
     }
@@ -1129,8 +1130,8 @@ impl<F: OutputType> Diagram<F> {
 
     #[inline]
     /// Sets the color field with new value
-    // todo: raise proper error when id not found
     pub fn edge_set_color(&self, edge_id: EdgeIndex, color: ColorType) -> Result<(), BvError> {
+        let _ = self.get_edge(edge_id)?;
         self.edge_set_color_(Some(edge_id), color);
         Ok(())
     }
@@ -1150,8 +1151,8 @@ impl<F: OutputType> Diagram<F> {
 
     #[inline]
     /// OR the previous color field value with this new color value
-    // Todo: add error on edge index problems
     pub fn edge_or_color(&self, edge_id: EdgeIndex, color: ColorType) -> Result<(), BvError> {
+        let _ = self.get_edge(edge_id)?;
         self.edge_or_color_(Some(edge_id), color);
         Ok(())
     }
@@ -1238,7 +1239,7 @@ impl<F: OutputType> Diagram<F> {
     /// Returns false if the edge is infinite (ray, line).
     #[inline]
     pub(crate) fn edge_is_finite_(&self, edge_id: Option<EdgeIndex>) -> Option<bool> {
-        let _ = edge_id?;
+        let _ = self.edge_get_(edge_id)?;
         Some(self.edge_get_vertex0_(edge_id).is_some() && self.edge_get_vertex1_(edge_id).is_some())
     }
 
@@ -1337,8 +1338,8 @@ impl<F: OutputType> Diagram<F> {
     }
 
     #[inline]
-    // todo: add error when edge is not found
     pub fn edge_get_vertex0(&self, edge_id: EdgeIndex) -> Result<Option<VertexIndex>, BvError> {
+        let _ = self.get_edge(edge_id)?;
         Ok(self.edge_get_vertex0_(Some(edge_id)))
     }
 
@@ -1350,8 +1351,8 @@ impl<F: OutputType> Diagram<F> {
     }
 
     #[inline]
-    // todo: add error when edge is not found
     pub fn edge_get_vertex1(&self, edge_id: EdgeIndex) -> Result<Option<VertexIndex>, BvError> {
+        let _ = self.get_edge(edge_id)?;
         Ok(self.edge_get_vertex1_(Some(edge_id)))
     }
 
-- 
2.43.0


From c3f9836ac6974ee5952e8da50db715d740cd2720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 17/23] fix: color_exterior_edges overflowed the stack

---
 workspace/boostvoronoi_core/src/diagram.rs | 62 ++++++++++++----------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index 4b62839..5b1d321 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -782,6 +782,10 @@ impl<F: OutputType> Diagram<F> {
     /// Iterates over all edges, colors each edge as exterior if it has an unbroken primary edge
     /// link connection to an infinite edge.
     pub fn color_exterior_edges(&self, external_color: ColorType) {
+        if external_color << ColorBits::RESERVED_BITS__SHIFT.0 == 0 {
+            // no bit that an edge can keep, there would be no telling the colored edges from the others
+            return;
+        }
         for it in self.edges().iter() {
             let edge_id = Some(it.get().id());
             if !self.edge_is_finite_(edge_id).unwrap() {
@@ -793,35 +797,37 @@ impl<F: OutputType> Diagram<F> {
     /// Mark all edges connected to an 'infinite' edge via primary edges as 'external'
     /// You should only call this on edges that you know are infinite. i.e. lacks one or two vertexes
     fn recurse_color_exterior(&self, edge_id: Option<EdgeIndex>, external_color: ColorType) {
-        if edge_id.is_none() || (self.edge_get_color_(edge_id).unwrap() & external_color) != 0 {
-            // This edge has already been colored, break recursion
-            return;
-        }
-        // Color edge as EXTERNAL
-        self.edge_or_color_(edge_id, external_color);
+        // The exterior can be as deep as the diagram is large, so the edges wait here and not on the call stack
+        let mut pending = vec![edge_id];
+        while let Some(edge_id) = pending.pop() {
+            if edge_id.is_none() || (self.edge_get_color_(edge_id).unwrap() & external_color) != 0 {
+                // This edge has already been colored, go no further
+                continue;
+            }
+            // Color edge as EXTERNAL
+            self.edge_or_color_(edge_id, external_color);
 
-        let v1 = self.edge_get_vertex1_(edge_id);
-        if self.edge_get_vertex0_(edge_id).is_some() && v1.is_none() {
-            // this edge leads to nowhere, break recursion
-            return;
-        }
-        // Color twin edge as EXTERNAL
-        self.edge_or_color_(self.edge_get_twin_(edge_id), external_color);
-        if v1.is_none()
-            || self.vertex_is_site_point_(v1).unwrap_or(true)
-            || !self
-                .get_edge_(edge_id)
-                .map_or(false, |x| x.get().is_primary())
-        {
-            // stop recursion if this edge does not have a vertex1 (e.g is infinite)
-            // or if this edge isn't a primary edge.
-            return;
-        }
-        self.vertex_set_color_(v1, external_color);
-        let incident_edge = self.vertex_get_incident_edge(v1);
-        for e in self.edge_rot_next_iterator(incident_edge) {
-            // mark all surrounding edges as EXTERNAL, but only recurse on primary edges
-            self.recurse_color_exterior(Some(e), external_color);
+            let v1 = self.edge_get_vertex1_(edge_id);
+            if self.edge_get_vertex0_(edge_id).is_some() && v1.is_none() {
+                // this edge leads to nowhere, go no further
+                continue;
+            }
+            // Color twin edge as EXTERNAL
+            self.edge_or_color_(self.edge_get_twin_(edge_id), external_color);
+            if v1.is_none()
+                || self.vertex_is_site_point_(v1).unwrap_or(true)
+                || !self
+                    .get_edge_(edge_id)
+                    .map_or(false, |x| x.get().is_primary())
+            {
+                // stop if this edge does not have a vertex1 (e.g is infinite)
+                // or if this edge isn't a primary edge.
+                continue;
+            }
+            self.vertex_set_color_(v1, external_color);
+            let incident_edge = self.vertex_get_incident_edge(v1);
+            // mark all surrounding edges as EXTERNAL, but only continue on primary edges
+            pending.extend(self.edge_rot_next_iterator(incident_edge).map(Some));
         }
     }
 
-- 
2.43.0


From ea99c1a053af68bb0016d78f371c32d3c0de8429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 18/23] fix: the build of some self-intersecting input never
 ended

---
 workspace/boostvoronoi_core/src/builder.rs |  2 +-
 workspace/boostvoronoi_core/src/diagram.rs | 26 +++++++++++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/builder.rs b/workspace/boostvoronoi_core/src/builder.rs
index 11f9ac0..1407de7 100644
--- a/workspace/boostvoronoi_core/src/builder.rs
+++ b/workspace/boostvoronoi_core/src/builder.rs
@@ -227,7 +227,7 @@ impl<I: InputType, F: OutputType> Builder<I, F> {
         self.beach_line_.clear();
 
         // Finish the diagram construction.
-        output.finish();
+        output.finish()?;
         Ok(output)
     }
 
diff --git a/workspace/boostvoronoi_core/src/diagram.rs b/workspace/boostvoronoi_core/src/diagram.rs
index 5b1d321..8b1487b 100644
--- a/workspace/boostvoronoi_core/src/diagram.rs
+++ b/workspace/boostvoronoi_core/src/diagram.rs
@@ -1568,7 +1568,15 @@ impl<F: OutputType> Diagram<F> {
 
     /// Make sure the diagram is consistent. Removes degenerate edges, connects incident
     /// edges etc. etc
-    pub(crate) fn finish(&mut self) {
+    /// # Errors
+    /// Will return a BvError::SelfIntersecting if the edges around some cell or vertex do not form a cycle
+    pub(crate) fn finish(&mut self) -> Result<(), BvError> {
+        let broken_cycle = |what: &str, id: usize| {
+            BvError::SelfIntersecting(format!(
+                "The edges around {} {} do not form a cycle",
+                what, id
+            ))
+        };
         // Remove degenerate edges.
         #[cfg(feature = "console_debug")]
         self.debug_print_edges("b4 degenerate");
@@ -1673,7 +1681,12 @@ impl<F: OutputType> Diagram<F> {
                         self.vertex_copy_(last_vertex.unwrap().0, it.0);
                         let v = last_vertex;
                         let mut e = self.vertex_get_incident_edge(last_vertex);
+                        let mut steps = 0;
                         loop {
+                            steps += 1;
+                            if steps > self.edges_.len() {
+                                return Err(broken_cycle("vertex", it.0));
+                            }
                             //e->vertex0(v);
                             self.edge_set_vertex0_(e, v);
                             // e = e->rot_next();
@@ -1733,12 +1746,17 @@ impl<F: OutputType> Diagram<F> {
                 // it is possible in the CW direction.
                 let mut left_edge = self.cell_get_incident_edge_(Some(CellIndex(cell_it)));
                 let terminal_edge = left_edge;
+                let mut steps = 0;
                 while let Some(new_left_edge) = self.edge_get_prev_(left_edge) {
                     left_edge = Some(new_left_edge);
                     // Terminate if this is not a boundary cell.
                     if left_edge == terminal_edge {
                         break;
                     }
+                    steps += 1;
+                    if steps > self.edges_.len() {
+                        return Err(broken_cycle("cell", cell_it));
+                    }
                 }
 
                 if self.edge_get_prev_(left_edge).is_some() {
@@ -1746,14 +1764,20 @@ impl<F: OutputType> Diagram<F> {
                 }
 
                 let mut right_edge = self.cell_get_incident_edge_(Some(CellIndex(cell_it)));
+                let mut steps = 0;
                 while let Some(new_right_edge) = self.edge_get_next_(right_edge) {
                     right_edge = Some(new_right_edge);
+                    steps += 1;
+                    if steps > self.edges_.len() {
+                        return Err(broken_cycle("cell", cell_it));
+                    }
                 }
 
                 self.edge_set_prev_(left_edge, right_edge);
                 self.edge_set_next_(right_edge, left_edge);
             }
         }
+        Ok(())
     }
 
     /// prints cells and vertices to the console
-- 
2.43.0


From c9eed1cd5b1e689a3c0affce8eec9c3a8ba0746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 19/23] fix: the file reader never ended when its source kept
 failing

---
 workspace/boostvoronoi_core/src/file_reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/workspace/boostvoronoi_core/src/file_reader.rs b/workspace/boostvoronoi_core/src/file_reader.rs
index 4c555cb..5e70232 100644
--- a/workspace/boostvoronoi_core/src/file_reader.rs
+++ b/workspace/boostvoronoi_core/src/file_reader.rs
@@ -123,6 +123,10 @@ pub fn read_boost_input_buffer<I: crate::InputType, F: std::io::Read>(
 
     // Read the file line by line using the lines() iterator from std::io::BufRead.
     for (index, line) in reader.lines().enumerate() {
+        if let Err(error) = line {
+            // a source may keep on failing
+            return Err(error.into());
+        }
         if let Ok(line) = line {
             //println!("got {:?}, state:{:?}", line, state);
             if let Some(data) = line_to_data::<I>(&line) {
-- 
2.43.0


From 6a5629c4ef654a254455a291cd012d2b772b29bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 20/23] fix: discretize never ended, lost an end or left the
 arc, by overflow and rounding

---
 .../boostvoronoi_core/src/visual_utils.rs     | 38 +++++++++----------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/visual_utils.rs b/workspace/boostvoronoi_core/src/visual_utils.rs
index 69cd74b..85ee7a9 100644
--- a/workspace/boostvoronoi_core/src/visual_utils.rs
+++ b/workspace/boostvoronoi_core/src/visual_utils.rs
@@ -60,14 +60,18 @@ impl VoronoiVisualUtils {
             affine.transform_ix(segment.end.x) - affine.transform_ix(segment.start.x);
         let segm_vec_y: F =
             affine.transform_iy(segment.end.y) - affine.transform_iy(segment.start.y);
-        let sqr_segment_length = segm_vec_x * segm_vec_x + segm_vec_y * segm_vec_y;
+        // A direction of unit length: scaled by the length of the segment the coordinates (and
+        // their squares) would not fit F.
+        let segment_length = segm_vec_x.hypot(segm_vec_y);
+        let segm_vec_x = segm_vec_x / segment_length;
+        let segm_vec_y = segm_vec_y / segment_length;
 
         // Compute x-coordinates of the endpoints of the edge
         // in the transformed space.
         let projection_start =
-            sqr_segment_length * Self::point_projection(affine, &discretization[0], segment);
+            segment_length * Self::point_projection(affine, &discretization[0], segment);
         let projection_end =
-            sqr_segment_length * Self::point_projection(affine, &discretization[1], segment);
+            segment_length * Self::point_projection(affine, &discretization[1], segment);
 
         // Compute parabola parameters in the transformed space.
         // Parabola has next representation:
@@ -86,35 +90,29 @@ impl VoronoiVisualUtils {
         let mut cur_x = projection_start;
         let mut cur_y = Self::parabola_y::<F>(cur_x, rot_x, rot_y);
 
-        // Adjust max_dist parameter in the transformed space.
-        let max_dist_transformed = max_dist * max_dist * sqr_segment_length;
         while !point_stack.is_empty() {
             let new_x = point_stack[point_stack.len() - 1]; // was .top();
             let new_y = Self::parabola_y::<F>(new_x, rot_x, rot_y);
 
             // Compute coordinates of the point of the parabola that is
             // furthest from the current line segment.
-            let mid_x = (new_y - cur_y) / (new_x - cur_x) * rot_y + rot_x;
+            let mid_x = (cur_x + new_x) / (F::one() + F::one());
             let mid_y = Self::parabola_y::<F>(mid_x, rot_x, rot_y);
 
             // Compute maximum distance between the given parabolic arc
             // and line segment that discretize it.
-            let mut dist = (new_y - cur_y) * (mid_x - cur_x) - (new_x - cur_x) * (mid_y - cur_y);
-            #[allow(clippy::suspicious_operation_groupings)]
-            {
-                dist = dist * dist
-                    / ((new_y - cur_y) * (new_y - cur_y) + (new_x - cur_x) * (new_x - cur_x));
-            }
-            if dist.is_nan() {
-                break;
-            }
-            if dist <= max_dist_transformed {
+            let chord = (new_y - cur_y).hypot(new_x - cur_x);
+            let dist = ((new_y - cur_y) / chord * (mid_x - cur_x)
+                - (new_x - cur_x) / chord * (mid_y - cur_y))
+                .abs();
+            // dist is not a number when the next point is where the current one is
+            if dist.is_nan() || dist <= max_dist {
                 // Distance between parabola and line segment is less than max_dist.
                 let _ = point_stack.pop();
-                let inter_x = (segm_vec_x * new_x - segm_vec_y * new_y) / sqr_segment_length
-                    + affine.transform_ix(segment.start.x);
-                let inter_y = (segm_vec_x * new_y + segm_vec_y * new_x) / sqr_segment_length
-                    + affine.transform_iy(segment.start.y);
+                let inter_x =
+                    segm_vec_x * new_x - segm_vec_y * new_y + affine.transform_ix(segment.start.x);
+                let inter_y =
+                    segm_vec_x * new_y + segm_vec_y * new_x + affine.transform_iy(segment.start.y);
                 discretization.push([inter_x, inter_y]);
                 cur_x = new_x;
                 cur_y = new_y;
-- 
2.43.0


From 738a16feb21dd17d89d1004f0b9a6d8192f27c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:27 +0000
Subject: [PATCH 21/23] fix: with console_debug and no debug assertions no
 build ever ended

---
 workspace/boostvoronoi_core/src/circle_event.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/workspace/boostvoronoi_core/src/circle_event.rs b/workspace/boostvoronoi_core/src/circle_event.rs
index de45cc8..b75f52f 100644
--- a/workspace/boostvoronoi_core/src/circle_event.rs
+++ b/workspace/boostvoronoi_core/src/circle_event.rs
@@ -336,10 +336,9 @@ impl CircleEventQueue {
     #[inline(always)]
     fn pop_first(&mut self) -> Option<Rc<CircleEvent>> {
         if let Some(item) = self.ce_by_order_.iter().next().cloned() {
+            let _removed = self.ce_by_order_.remove(&item);
             #[cfg(feature = "console_debug")]
-            debug_assert!(self.ce_by_order_.remove(&item));
-            #[cfg(not(feature = "console_debug"))]
-            let _ = self.ce_by_order_.remove(&item);
+            debug_assert!(_removed);
             Some(item)
         } else {
             None
-- 
2.43.0


From de7cd0597857c08636c5583067c25e8bc951fc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 22/23] fix: pps circle events tangent to the end of a segment
 and centered near the origin were dropped by rounding

---
 .../boostvoronoi_core/src/predicate/lazy_circle_formation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
index 59dd244..5ab905c 100644
--- a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
+++ b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
@@ -268,7 +268,10 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
 
         // allow the dot to be [0..1] + some ULP fuzz. The center is only known to within some
         // ULPs of its own coordinates, and those can be a lot larger than the segment is long.
-        let fuzz = ULPSX2 as f64 * f64::EPSILON * (c_event.x().abs() + c_event.y().abs())
+        // The dot itself is rounded too, which is what counts for a center close to the origin.
+        let fuzz = ULPSX2 as f64
+            * f64::EPSILON
+            * (c_event.x().abs() + c_event.y().abs() + v_3_c.0.abs() + v_3_c.1.abs())
             / v_3_sqr_len.sqrt();
         let rv = (-fuzz..=1.0 + fuzz).contains(&dot);
 
-- 
2.43.0


From b866e8a435750b8e153db2da07fde67bcd71d678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:33 +0000
Subject: [PATCH 23/23] fix: the feature ce_corruption_check did not compile
 without geo

---
 .../boostvoronoi_core/src/predicate/lazy_circle_formation.rs    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
index 5ab905c..dea57aa 100644
--- a/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
+++ b/workspace/boostvoronoi_core/src/predicate/lazy_circle_formation.rs
@@ -275,7 +275,7 @@ pub(crate) fn pps<I: InputType, F: OutputType>(
             / v_3_sqr_len.sqrt();
         let rv = (-fuzz..=1.0 + fuzz).contains(&dot);
 
-        #[cfg(feature = "ce_corruption_check")]
+        #[cfg(all(feature = "geo", feature = "ce_corruption_check"))]
         if !rv {
             println!("\n->LazyCircleFormationFunctor::pps(site1:{:?}, site2:{:?}, site3:{:?}, segment_index:{:?})", point1, point2, site3, segment_index);
 
-- 
2.43.0

