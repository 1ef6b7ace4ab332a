From ad695288350a0da6fd15ca9ef1a157c5f1070b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 01/48] fix: degree elevation of multi-span curves (control
 point count, segment bounds, knot removal step)

---
 src/curve/nurbs_curve.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 0db13b7..cf272bc 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1110,7 +1110,15 @@ where
 
         //intermediate values
         let mut bezalfs = vec![vec![T::zero(); new_degree + 1]; new_degree + degree_inc + 1];
-        let new_control_point_count = control_points.len() + degree_inc + 3;
+
+        // each non-empty knot span gains `degree_inc` control points
+        let (start, end) = self.knots_domain();
+        let span_count = knots
+            .multiplicity()
+            .iter()
+            .filter(|m| start <= *m.knot() && *m.knot() < end)
+            .count();
+        let new_control_point_count = control_points.len() + degree_inc * span_count;
         let mut bpts = vec![OPoint::origin(); new_control_point_count];
         let mut e_bpts = vec![OPoint::origin(); new_control_point_count];
         let mut next_bpts = vec![OPoint::origin(); new_control_point_count];
@@ -1133,14 +1141,14 @@ where
         for i in 1..=ph2 {
             let inv = T::one() / binom.get(ph, i);
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = inv * binom.get(new_degree, j) * binom.get(degree_inc, i - j);
             }
         }
 
         for i in (ph2 + 1)..ph {
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = bezalfs[ph - i][new_degree - j];
             }
         }
@@ -1170,22 +1178,11 @@ where
             let oldr = r;
             r = new_degree as isize - mul as isize;
             let lbz = if oldr > 0 {
-                (T::from_isize(oldr + 2).unwrap() / T::from_f64(2.).unwrap())
-                    .floor()
-                    .to_usize()
-                    .unwrap()
+                (oldr as usize + 2) / 2
             } else {
                 1
             };
-            let rbz = if r > 0 {
-                (T::from_usize(ph).unwrap()
-                    - T::from_isize(r + 1).unwrap() / T::from_f64(2.).unwrap())
-                .floor()
-                .to_usize()
-                .unwrap()
-            } else {
-                ph
-            };
+            let rbz = if r > 0 { ph - (r as usize + 1) / 2 } else { ph };
             if r > 0 {
                 let numer = ub - ua;
                 let mut alfs = vec![T::zero(); new_degree];
@@ -1209,7 +1206,7 @@ where
             for i in lbz..=ph {
                 e_bpts[i] = OPoint::origin();
                 let mpi = new_degree.min(i);
-                for j in 0.max(i - degree_inc)..=mpi {
+                for j in i.saturating_sub(degree_inc)..=mpi {
                     e_bpts[i].coords = &e_bpts[i].coords + &bpts[j].coords * bezalfs[i][j];
                 }
             }
@@ -1233,9 +1230,9 @@ where
                             if (j as isize) - tr <= (kind as isize - ph as isize + oldr) {
                                 let gam = (ub - u_h[j - utr]) / den;
                                 e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - gam);
+                            } else {
+                                e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                             }
-                        } else {
-                            e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                         }
                         i += 1;
                         j -= 1;
-- 
2.43.0


From d7d0d91cc702947149226cb4aa441a19d4c9ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 02/48] fix: knot insertion interpolates weights of rational
 curves

---
 src/curve/nurbs_curve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index cf272bc..15b2131 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1324,7 +1324,10 @@ where
                 &self.control_points[i0] - &self.control_points[i0 - 1]
             };
             let mut p = delta_control_point * (T::one() - a);
-            p[D::dim() - 1] = T::zero();
+            if i0 == 0 {
+                // there is no preceding control point, keep the weight
+                p[D::dim() - 1] = T::zero();
+            }
             self.control_points[i0].coords -= p;
         }
 
-- 
2.43.0


From dc16764847617f5b13a54e563ade76b4009605ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 03/48] fix: clamp unclamped curves at the ends of their domain

---
 src/curve/nurbs_curve.rs | 67 ++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 40 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 15b2131..8f2a3f2 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -450,33 +450,11 @@ where
         D: DimNameSub<U1>,
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
     {
-        let mult = self.knots.multiplicity();
-        let start = mult.first().unwrap().multiplicity();
-        let end = mult.last().unwrap().multiplicity();
-
         let segments = self.try_decompose_bezier_segments()?;
 
-        // If the start/end parts of the knot vector are not duplicated,
-        // the Bezier segments will not be generated correctly,
-        // so reduce the number of segments by the amount that falls below the required duplication degree.
-        let required_multiplicity = self.degree + 1;
-        let i = required_multiplicity.saturating_sub(start);
-        let j = if end < required_multiplicity {
-            segments.len() - (required_multiplicity - end)
-        } else {
-            segments.len()
-        };
-        let segments = &segments[i..j];
-
         let (_, u) = self.knots_domain();
         let gauss = GaussLegendre::new(16 + self.degree)?;
 
-        if segments.len() <= 1 {
-            // If the curve is a single Bezier segment, compute the length directly
-            let l = compute_bezier_segment_length(self, u, &gauss);
-            return Ok(l);
-        }
-
         let length = segments
             .iter()
             .map(|s| compute_bezier_segment_length(s, u, &gauss))
@@ -1716,30 +1694,39 @@ where
     }
 
     /// Try to clamp knots of the curve
-    /// Multiplex the start/end part of the knot vector so that the knot has `degree + 1` overlap
+    /// Multiplex the start/end knots of the domain so that they have `degree + 1` overlap,
+    /// and drop the parts of the curve definition outside of the domain
     pub fn try_clamp(&mut self) -> anyhow::Result<()> {
+        if self.is_clamped() {
+            return Ok(());
+        }
+
         let degree = self.degree();
+        let (start, end) = self.knots_domain();
+
+        for knot in [start, end] {
+            let count = self.knots.iter().filter(|k| **k == knot).count();
+            for _ in count..degree {
+                self.try_add_knot(knot)?;
+            }
+        }
 
-        let start = self.knots.first();
-        let end = self.knots.last();
-        let multiplicity = self.knots.multiplicity();
-        let start_knot_count = multiplicity
+        let knots = self.knots.as_slice();
+        let first = knots
             .iter()
-            .find(|m| *m.knot() == start)
-            .ok_or(anyhow::anyhow!("Start knot not found"))?
-            .multiplicity();
-        let end_knot_count = multiplicity
+            .rposition(|k| *k == start)
+            .ok_or(anyhow::anyhow!("Start knot not found"))?;
+        let last = knots
             .iter()
-            .find(|m| *m.knot() == end)
-            .ok_or(anyhow::anyhow!("End knot not found"))?
-            .multiplicity();
+            .position(|k| *k == end)
+            .ok_or(anyhow::anyhow!("End knot not found"))?;
 
-        for _ in start_knot_count..=degree {
-            self.try_add_knot(start)?;
-        }
-        for _ in end_knot_count..=degree {
-            self.try_add_knot(end)?;
-        }
+        let clamped = std::iter::once(start)
+            .chain(knots[first + 1 - degree..last + degree].iter().cloned())
+            .chain(std::iter::once(end))
+            .collect();
+        self.control_points = self.control_points[first - degree..last].to_vec();
+        self.knots = clamped;
 
         Ok(())
     }
-- 
2.43.0


From 8bd5961c5963d1ae4f6554fb1574b1e28ffea1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 04/48] fix: knot refinement accepts unsorted knots

---
 src/curve/nurbs_curve.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 8f2a3f2..6ad58dd 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1559,6 +1559,9 @@ where
             return Ok(());
         }
 
+        let mut knots_to_insert = knots_to_insert;
+        knots_to_insert.sort_by(|a, b| a.partial_cmp(b).unwrap());
+
         let degree = self.degree;
         let control_points = &self.control_points;
 
-- 
2.43.0


From a21aebedf96398703e4508dcc524f5c6633020ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 05/48] fix: splitting curves and surfaces at existing knots

---
 src/split/mod.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/split/mod.rs b/src/split/mod.rs
index 8fde919..cf86543 100644
--- a/src/split/mod.rs
+++ b/src/split/mod.rs
@@ -3,6 +3,7 @@ use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, Dim
 
 use crate::{
     curve::NurbsCurve,
+    knot::KnotVector,
     misc::{transpose_control_points, FloatingPoint},
     surface::{NurbsSurface, UVDirection},
 };
@@ -42,12 +43,10 @@ where
     /// ```
     fn try_split(&self, u: T) -> anyhow::Result<(Self, Self)> {
         let u = self.knots().clamp(self.degree(), u);
-        let knots_to_insert = (0..=self.degree()).map(|_| u).collect_vec();
+        let (knots_to_insert, s) = knots_to_split(self.knots(), self.degree(), u);
         let mut cloned = self.clone();
         cloned.try_refine_knot(knots_to_insert)?;
 
-        let n = self.knots().len() - self.degree() - 2;
-        let s = self.knots().find_knot_span_index(n, self.degree(), u);
         let knots0 = cloned.knots().as_slice()[0..=(s + self.degree() + 1)].to_vec();
         let knots1 = cloned.knots().as_slice()[s + 1..].to_vec();
         let cpts0 = cloned.control_points()[0..=s].to_vec();
@@ -59,6 +58,25 @@ where
     }
 }
 
+/// Knots to insert in order to split at the parameter `u`,
+/// and the index of the last control point before the split
+fn knots_to_split<T: FloatingPoint>(
+    knots: &KnotVector<T>,
+    degree: usize,
+    u: T,
+) -> (Vec<T>, usize) {
+    let (start, end) = knots.domain(degree);
+    if start < u && u < end {
+        // `u` may already be a knot, then only the missing copies are required
+        let before = knots.iter().filter(|k| **k < u).count();
+        let multiplicity = knots.iter().filter(|k| **k == u).count();
+        (vec![u; (degree + 1).saturating_sub(multiplicity)], before - 1)
+    } else {
+        let n = knots.len() - degree - 2;
+        (vec![u; degree + 1], knots.find_knot_span_index(n, degree, u))
+    }
+}
+
 /// Option for splitting a surface
 #[derive(Clone, Debug)]
 pub struct SplitSurfaceOption<T: FloatingPoint> {
@@ -98,10 +116,8 @@ where
             }
         };
 
-        let knots_to_insert = (0..=degree).map(|_| option.parameter).collect_vec();
-
-        let n = knots.len() - degree - 2;
-        let s = knots.find_knot_span_index(n, degree, option.parameter);
+        let parameter = knots.clamp(degree, option.parameter);
+        let (knots_to_insert, s) = knots_to_split(knots, degree, parameter);
 
         let curves = points
             .iter()
-- 
2.43.0


From 67f5fa671d6b4b551b539a2c7f8220501449775d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 06/48] fix: knot removal starts from the last copy of the knot
 and removes repeated copies

---
 src/curve/nurbs_curve.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 6ad58dd..bfbdca5 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1346,8 +1346,8 @@ where
         let r = self
             .knots
             .iter()
-            .position(|k| *k == knot)
-            .ok_or(anyhow::anyhow!("Knot not found"))?; // index of the knot
+            .rposition(|k| *k == knot)
+            .ok_or(anyhow::anyhow!("Knot not found"))?; // last index of the knot
 
         let multiplicities = self.knots.multiplicity();
         let mult = multiplicities
@@ -1358,15 +1358,15 @@ where
         let p = self.degree();
         let ord = p + 1;
 
-        if r <= p {
+        if r < p + s {
             return Err(anyhow::anyhow!(
                 "Knot is too close to the start of the curve"
             ));
         }
         let mut first = r - p;
 
-        if r <= s {
-            return Err(anyhow::anyhow!("Knot is not removable"));
+        if r > n {
+            return Err(anyhow::anyhow!("Knot is too close to the end of the curve"));
         }
         let mut last = r - s;
 
@@ -1418,7 +1418,7 @@ where
             }
 
             // check if knot removable
-            let remove = if j >= i && (j - i) < t {
+            let remove = if j < i + t {
                 let left = &temp[ii - 1];
                 let right = &temp[jj + 1];
                 (left - right).norm() <= tolerance
-- 
2.43.0


From d68182eda8f0628ce20c2d04fcaedc493f121dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 07/48] fix: degree elevation of unclamped curves

---
 src/curve/nurbs_curve.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index bfbdca5..dcf50fc 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1080,6 +1080,13 @@ where
             return Ok(self.clone());
         }
 
+        // the algorithm walks the bezier segments of a clamped curve
+        if !self.is_clamped() {
+            let mut clamped = self.clone();
+            clamped.try_clamp()?;
+            return clamped.try_elevate_degree(target_degree);
+        }
+
         let n = self.knots.len() - self.degree - 2;
         let new_degree = self.degree;
         let knots = &self.knots;
-- 
2.43.0


From a6487054b5e506cd9c65333af1e9ae05670015b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 08/48] fix: elliptic arcs use the tangents of the ellipse

---
 src/curve/nurbs_curve.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index dcf50fc..18d27bb 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -934,7 +934,9 @@ where
         let mut p0 = center
             + &x_axis * x_radius * start_angle.cos()
             + &y_axis * y_radius * start_angle.sin();
-        let mut t0 = &y_axis * start_angle.cos() - &x_axis * start_angle.sin();
+        let mut t0 = (&y_axis * y_radius * start_angle.cos()
+            - &x_axis * x_radius * start_angle.sin())
+        .normalize();
 
         let n = 2 * arcs + 1;
         let degree = 2;
@@ -949,9 +951,10 @@ where
 
             let p2 = center + &x_axis * x_radius * angle.cos() + &y_axis * y_radius * angle.sin();
 
-            let t2 = &y_axis * angle.cos() - &x_axis * angle.sin();
-            let ray = Ray::new(p0.clone(), t0.normalize());
-            let other = Ray::new(p2.clone(), t2.normalize());
+            let t2 = (&y_axis * y_radius * angle.cos() - &x_axis * x_radius * angle.sin())
+                .normalize();
+            let ray = Ray::new(p0.clone(), t0.clone());
+            let other = Ray::new(p2.clone(), t2.clone());
             let intersection = ray
                 .find_intersection(&other)
                 .ok_or(anyhow::anyhow!("No intersection"))?;
-- 
2.43.0


From 9f5671efcb957799ec32355e389d24de263acaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 09/48] fix: division by length starts at the domain start and
 accepts the whole length

---
 src/curve/nurbs_curve.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 18d27bb..c626ba7 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -557,13 +557,16 @@ where
         let total = lengthes.iter().fold(T::zero(), |a, b| a + *b);
 
         anyhow::ensure!(
-            total > length,
+            total >= length,
             "The curve is too short to divide by the given length total:{}, given length:{}",
             total,
             length
         );
 
-        let mut samples = vec![CurveLengthParameter::new(self.knots.first(), T::zero())];
+        let mut samples = vec![CurveLengthParameter::new(
+            self.knots_domain().0,
+            T::zero(),
+        )];
 
         let mut i = 0;
         let mut lc = length;
-- 
2.43.0


From c7baa5313e3ce0a33f3c04f65d207adaa2cf4542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 10/48] fix: parameter at length terminates when the tolerance
 is below the resolution

---
 src/curve/nurbs_curve.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index c626ba7..6d9a9fd 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1946,6 +1946,10 @@ where
     // binary search
     while (end.1 - start.1) > tolerance {
         let middle_parameter = (start.0 + end.0) * inv;
+        if middle_parameter <= start.0 || end.0 <= middle_parameter {
+            // the parameter cannot be resolved any further
+            break;
+        }
         let mid = (
             middle_parameter,
             compute_bezier_segment_length(s, middle_parameter, gauss),
-- 
2.43.0


From 859075d8642a76b102ff4eeca3aafcf188e12a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 11/48] fix: closedness tolerance follows the magnitude of the
 curve

---
 src/curve/nurbs_curve.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 6d9a9fd..1de380f 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1549,10 +1549,14 @@ where
         D: DimNameSub<U1>,
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
     {
-        let eps = T::default_epsilon() * T::from_usize(10).unwrap();
+        // rounding errors grow with the magnitude of the coordinates
+        let pts = self.dehomogenized_control_points();
+        let scale = pts
+            .iter()
+            .fold(T::one(), |acc, p| acc.max(p.coords.amax()));
+        let eps = T::default_epsilon() * T::from_usize(10).unwrap() * scale;
         match self.knots.is_clamped(self.degree) {
             true => {
-                let pts = self.dehomogenized_control_points();
                 let delta = &pts[0] - &pts[self.control_points.len() - 1];
                 delta.norm() < eps
             }
-- 
2.43.0


From 20c57707ea5615f282bc490f60847ad15479593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 12/48] fix: compound curve connects spans at both ends, joins
 span domains and keeps them joined when inverted

---
 src/region/compound_curve.rs | 72 +++++++++++++++++++++---------------
 src/split/mod.rs             |  1 -
 2 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 003e82b..9f96439 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -13,6 +13,21 @@ use crate::{
 
 use super::curve_direction::CurveDirection;
 
+/// Shift the knot vectors of the spans so that their domains join one after another from `start`.
+fn align_knots<T: FloatingPoint, D: DimName>(spans: &mut [NurbsCurve<T, D>], start: T)
+where
+    DefaultAllocator: Allocator<D>,
+{
+    let mut knot_offset = start;
+    spans.iter_mut().for_each(|curve| {
+        let (start, _) = curve.knots_domain();
+        curve.knots_mut().iter_mut().for_each(|v| {
+            *v = *v - start + knot_offset;
+        });
+        knot_offset = curve.knots_domain().1;
+    });
+}
+
 /// A struct representing a compound curve.
 #[derive(Clone, Debug, PartialEq)]
 pub struct CompoundCurve<T: FloatingPoint, D: DimName>
@@ -40,31 +55,31 @@ where
         let mut curves = spans.clone();
         let mut connected = vec![curves.remove(0)];
         while !curves.is_empty() {
-            let current = connected.len() - 1;
-            let last = &connected[current];
-            let found = curves.iter().enumerate().find_map(|(i, c)| {
-                CurveDirection::new(last, c, epsilon).map(|direction| (i, direction))
+            // The next span either follows the tail of the path or precedes its head.
+            let first = &connected[0];
+            let last = &connected[connected.len() - 1];
+            let tail = curves.iter().enumerate().find_map(|(i, c)| {
+                CurveDirection::new(last, c, epsilon)
+                    .filter(|d| matches!(d, CurveDirection::Forward | CurveDirection::Facing))
+                    .map(|direction| (i, direction))
+            });
+            let found = tail.or_else(|| {
+                curves.iter().enumerate().find_map(|(i, c)| {
+                    CurveDirection::new(first, c, epsilon)
+                        .filter(|d| {
+                            matches!(d, CurveDirection::Backward | CurveDirection::Opposite)
+                        })
+                        .map(|direction| (i, direction))
+                })
             });
             match found {
                 Some((index, direction)) => {
                     let next = curves.remove(index);
                     match direction {
-                        CurveDirection::Forward => {
-                            connected.push(next);
-                        }
-                        CurveDirection::Backward => {
-                            connected.insert(current, next);
-                        }
-                        CurveDirection::Facing => {
-                            connected.push(next.inverse());
-                        }
-                        CurveDirection::Opposite => {
-                            if current == 0 {
-                                connected.insert(current, next.inverse());
-                            } else {
-                                println!("Cannot handle opposite direction");
-                            }
-                        }
+                        CurveDirection::Forward => connected.push(next),
+                        CurveDirection::Backward => connected.insert(0, next),
+                        CurveDirection::Facing => connected.push(next.inverse()),
+                        CurveDirection::Opposite => connected.insert(0, next.inverse()),
                     }
                 }
                 None => {
@@ -76,14 +91,7 @@ where
 
         // Align knot vectors
         // The first knot vector starts at 0, the rest are aligned to the previous knot vector
-        let mut knot_offset = T::zero();
-        connected.iter_mut().for_each(|curve| {
-            let start = curve.knots().first();
-            curve.knots_mut().iter_mut().for_each(|v| {
-                *v = *v - start + knot_offset;
-            });
-            knot_offset = curve.knots().last();
-        });
+        align_knots(&mut connected, T::zero());
 
         Self { spans: connected }
     }
@@ -152,8 +160,10 @@ where
         let eps = T::default_epsilon() * T::from_usize(10).unwrap();
         match (start, end) {
             (Some(start), Some(end)) => {
+                // rounding errors grow with the magnitude of the coordinates
+                let scale = T::one().max(start.coords.amax()).max(end.coords.amax());
                 let delta = start - end;
-                delta.norm() < eps
+                delta.norm() < eps * scale
             }
             _ => false,
         }
@@ -269,8 +279,12 @@ where
     DefaultAllocator: Allocator<D>,
 {
     fn invert(&mut self) {
+        let start = self.spans.first().map(|span| span.knots_domain().0);
         self.spans.iter_mut().for_each(|span| span.invert());
         self.spans.reverse();
+        if let Some(start) = start {
+            align_knots(&mut self.spans, start);
+        }
     }
 }
 
diff --git a/src/split/mod.rs b/src/split/mod.rs
index cf86543..821b764 100644
--- a/src/split/mod.rs
+++ b/src/split/mod.rs
@@ -1,4 +1,3 @@
-use itertools::Itertools;
 use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, U1};
 
 use crate::{
-- 
2.43.0


From c3c57cb067994deecc8222888c493748a6dfb72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 13/48] fix: trimming a compound curve at span boundaries

---
 src/trim/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/trim/mod.rs b/src/trim/mod.rs
index 797b2d0..7c6912e 100644
--- a/src/trim/mod.rs
+++ b/src/trim/mod.rs
@@ -55,9 +55,11 @@ where
                 let (d0, d1) = curve.knots_domain();
 
                 // use epsilon to avoid to trim at the terminal (start / end) of the curve
-                let curve_domain = (d0 + eps)..=(d1 - eps);
+                // the resolution of the parameter grows with its magnitude
+                let eps = eps * T::one().max(d0.abs()).max(d1.abs());
+                let is_inside = |t: T| d0 + eps < t && t < d1 - eps;
 
-                match (curve_domain.contains(&min), curve_domain.contains(&max)) {
+                match (is_inside(min), is_inside(max)) {
                     (true, true) => {
                         if inside {
                             curve.try_trim_range((min, max))
@@ -90,7 +92,9 @@ where
                         )
                     }
                     (false, false) => {
-                        let contains = range.contains(&d0);
+                        // the range covers the whole span or nothing of it
+                        let center = (d0 + d1) * T::from_f64(0.5).unwrap();
+                        let contains = range.contains(&center);
                         match (inside, contains) {
                             (true, true) => Ok(vec![curve.clone()]),
                             (true, false) => Ok(vec![]),
-- 
2.43.0


From af4c5ddc6892600a117a56996fa9b6c027e96ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 14/48] fix: inverting a trimmed surface keeps the trimming
 curves in place

---
 src/surface/trimmed_surface.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/surface/trimmed_surface.rs b/src/surface/trimmed_surface.rs
index 755dcde..c7a89e6 100644
--- a/src/surface/trimmed_surface.rs
+++ b/src/surface/trimmed_surface.rs
@@ -1,7 +1,7 @@
 use std::cmp::Ordering;
 
 use argmin::core::ArgminFloat;
-use nalgebra::{ComplexField, Matrix4, Point3, Vector3, U3};
+use nalgebra::{ComplexField, Matrix3, Matrix4, Point3, Vector3, U3};
 
 use crate::{
     curve::{NurbsCurve2D, NurbsCurve3D},
@@ -191,10 +191,29 @@ impl<T: FloatingPoint> Invertible for TrimmedSurface<T> {
     /// Reverse the direction of the surface
     fn invert(&mut self) {
         self.surface.invert();
-        if let Some(curve) = self.exterior.as_mut() {
-            curve.invert();
-        }
-        self.interiors.iter_mut().for_each(|curve| curve.invert());
+
+        // Inverting the surface mirrors its parameter space in both directions,
+        // so the trimming curves have to follow to stay at the same place.
+        let (u, v) = (self.surface.u_knots(), self.surface.v_knots());
+        let (u, v) = (u.first() + u.last(), v.first() + v.last());
+        let mirror = Matrix3::new(
+            -T::one(),
+            T::zero(),
+            u,
+            T::zero(),
+            -T::one(),
+            v,
+            T::zero(),
+            T::zero(),
+            T::one(),
+        );
+        self.exterior
+            .iter_mut()
+            .chain(self.interiors.iter_mut())
+            .for_each(|curve| {
+                curve.transform(&mirror);
+                curve.invert();
+            });
     }
 }
 
-- 
2.43.0


From 789bf7e09b4c930b5e0b2e634eca7e48aa0f378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:09 +0000
Subject: [PATCH 15/48] fix: sampled surface derivatives of any order and mixed
 degrees

---
 src/surface/nurbs_surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 0b380f7..a833d92 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -330,7 +330,7 @@ where
         } else {
             self.v_degree
         };
-        let mut skl = vec![vec![OVector::<T, D>::zeros(); du + 1]; dv + 1];
+        let mut skl = vec![vec![OVector::<T, D>::zeros(); derivs + 1]; derivs + 1];
 
         for k in 0..=du {
             let mut temp = vec![];
-- 
2.43.0


From d37c43bef32ed76db0c51edf9e34f11a1614f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 16/48] fix: isocurves at repeated knots and at the ends of
 unclamped domains

---
 src/surface/nurbs_surface.rs | 46 ++++++++++++++----------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index a833d92..bcb335d 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -752,26 +752,16 @@ where
             UVDirection::V => (self.v_knots.clone(), self.v_degree),
         };
 
-        let mult = knots.multiplicity();
-        let knots_to_insert = mult
+        // snap to the existing knot at the parameter if there is one
+        let t = knots
             .iter()
-            .enumerate()
-            .find_map(|(i, m)| {
-                if (t - *m.knot()).abs() < T::default_epsilon() {
-                    Some(i)
-                } else {
-                    None
-                }
-            })
-            .and_then(|knot_index| {
-                let m = mult[knot_index].multiplicity();
-                if degree + 1 >= m {
-                    Some((degree + 1) - m)
-                } else {
-                    None
-                }
-            })
-            .unwrap_or(degree + 1);
+            .find(|knot| (t - **knot).abs() < T::default_epsilon())
+            .copied()
+            .unwrap_or(t);
+
+        // the isocurve is a row of the control points where the multiplicity is the degree
+        let multiplicity = knots.iter().filter(|knot| **knot == t).count();
+        let knots_to_insert = degree.saturating_sub(multiplicity);
 
         let refined = if knots_to_insert > 0 {
             let mut refined = self.clone();
@@ -781,16 +771,16 @@ where
             Cow::Borrowed(self)
         };
 
-        let span = if (t - knots.first()).abs() < T::default_epsilon() {
-            0
-        } else if (t - knots.last()).abs() < T::default_epsilon() {
-            match direction {
-                UVDirection::U => refined.control_points.len() - 1,
-                UVDirection::V => refined.control_points[0].len() - 1,
-            }
-        } else {
-            knots.find_knot_span_index(knots.len() - degree - 2, degree, t)
+        let (refined_knots, rows) = match direction {
+            UVDirection::U => (&refined.u_knots, refined.control_points.len()),
+            UVDirection::V => (&refined.v_knots, refined.control_points[0].len()),
         };
+        let span = refined_knots
+            .iter()
+            .rposition(|knot| *knot == t)
+            .and_then(|last| last.checked_sub(degree))
+            .map(|span| span.min(rows - 1))
+            .ok_or(anyhow::anyhow!("The parameter is out of the domain"))?;
 
         match direction {
             UVDirection::U => NurbsCurve::try_new(
-- 
2.43.0


From 16ab9cf0d2fcf57ea97d77bb30aa7d7e8daad920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 17/48] fix: revolution about axes of any length, in both
 senses and for points on the axis

---
 src/surface/nurbs_surface.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index bcb335d..20afeaf 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1147,16 +1147,27 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
         let prof_points = profile.dehomogenized_control_points();
         let prof_weights = profile.weights();
 
+        let axis = &axis.normalize();
+        // distance below which a point is on the axis, rounding errors grow with the magnitude
+        let eps = prof_points
+            .iter()
+            .fold(T::one().max(center.coords.amax()), |acc, p| {
+                acc.max(p.coords.amax())
+            })
+            * T::default_epsilon()
+            * T::from_f64(10.0).unwrap();
+
+        let sweep = theta.abs();
         let two = T::from_f64(2.0).unwrap();
-        let (narcs, mut u_knots) = if theta <= T::pi() / two {
+        let (narcs, mut u_knots) = if sweep <= T::pi() / two {
             (1, vec![T::zero(); 6])
-        } else if theta <= T::pi() {
+        } else if sweep <= T::pi() {
             let mut knots = vec![T::zero(); 6 + 2];
             let half = T::from_f64(0.5).unwrap();
             knots[3] = half;
             knots[4] = half;
             (2, knots)
-        } else if theta <= T::from_f64(3.0).unwrap() * T::pi() / two {
+        } else if sweep <= T::from_f64(3.0).unwrap() * T::pi() / two {
             let mut knots = vec![T::zero(); 6 + 2 * 2];
             let frac_three = T::from_f64(1.0 / 3.0).unwrap();
             let two_frac_three = T::from_f64(2.0 / 3.0).unwrap();
@@ -1212,7 +1223,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
             // perpendicular vector to x & axis
             let mut y = axis.cross(&x);
 
-            if r > T::default_epsilon() {
+            if r > eps {
                 x *= T::one() / r;
                 y *= T::one() / r;
             }
@@ -1227,7 +1238,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
             let mut t0 = y;
             let mut index = 0;
             for i in 1..=narcs {
-                let p2 = if r <= T::default_epsilon() {
+                let p2 = if r <= eps {
                     o
                 } else {
                     o + x * cosines[i] * r + y * sines[i] * r
@@ -1242,7 +1253,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
                 let t2 = y * cosines[i] - x * sines[i];
 
                 let l = index + 1;
-                if r <= T::default_epsilon() {
+                if r <= eps {
                     control_points[l][j].x = o.x;
                     control_points[l][j].y = o.y;
                     control_points[l][j].z = o.z;
-- 
2.43.0


From b3e5afe7e2652524b28238bd81f921b339140f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 18/48] fix: lofting shares parameters between columns, unifies
 knots up to rounding and clamps unclamped curves

---
 src/curve/nurbs_curve.rs     | 26 ++++++++++++---
 src/surface/nurbs_surface.rs | 64 ++++++++++++++++++++++++++----------
 2 files changed, 67 insertions(+), 23 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 1de380f..48dbb80 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -2023,13 +2023,14 @@ pub fn try_interpolate_control_points<T: FloatingPoint>(
     degree: usize,
     homogeneous: bool,
 ) -> anyhow::Result<(Vec<DVector<T>>, KnotVector<T>)> {
-    let n = points.len();
-    if n < degree + 1 {
-        anyhow::bail!("Too few control points for curve");
-    }
+    let us = chord_length_parameters(points);
+    try_interpolate_control_points_at(points, &us, degree, homogeneous)
+}
 
+/// Normalized parameters of the points by their accumulated chord lengths
+pub(crate) fn chord_length_parameters<T: FloatingPoint>(points: &[DVector<T>]) -> Vec<T> {
     let mut us: Vec<T> = vec![T::zero()];
-    for i in 1..n {
+    for i in 1..points.len() {
         let sub = &points[i] - &points[i - 1];
         let chord = sub.norm();
         let last = us[i - 1];
@@ -2042,6 +2043,21 @@ pub fn try_interpolate_control_points<T: FloatingPoint>(
         us[i] /= max;
     }
 
+    us
+}
+
+/// Interpolate the points at the given normalized parameters
+pub(crate) fn try_interpolate_control_points_at<T: FloatingPoint>(
+    points: &[DVector<T>],
+    us: &[T],
+    degree: usize,
+    homogeneous: bool,
+) -> anyhow::Result<(Vec<DVector<T>>, KnotVector<T>)> {
+    let n = points.len();
+    if n < degree + 1 {
+        anyhow::bail!("Too few control points for curve");
+    }
+
     let mut knots_start = vec![T::zero(); degree + 1];
 
     let start = 1;
diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 20afeaf..a872e84 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -11,8 +11,9 @@ use simba::scalar::SupersetOf;
 
 use crate::{
     curve::{
+        chord_length_parameters,
         nurbs_curve::{dehomogenize, NurbsCurve, NurbsCurve3D},
-        try_interpolate_control_points,
+        try_interpolate_control_points_at,
     },
     misc::{
         binomial::Binomial, transformable::Transformable, transpose_control_points, FloatingPoint,
@@ -682,21 +683,36 @@ where
 
         let knots_u = unified_curves[0].knots().clone();
 
-        // Interpolate each column of control points to get the nurbs curve aligned with the v direction
-        let v_curves: anyhow::Result<Vec<_>> = (0..unified_curves[0].control_points().len())
+        let columns = (0..unified_curves[0].control_points().len())
             .map(|i| {
-                let points = unified_curves
+                unified_curves
                     .iter()
-                    .map(|c| c.control_points()[i].clone())
-                    .collect_vec();
-                let (control_points, knots) = try_interpolate_control_points(
-                    &points
-                        .iter()
-                        .map(|p| DVector::from_vec(p.iter().copied().collect()))
-                        .collect_vec(),
-                    degree_v,
-                    false,
-                )?;
+                    .map(|c| {
+                        DVector::from_vec(c.control_points()[i].iter().copied().collect::<Vec<_>>())
+                    })
+                    .collect_vec()
+            })
+            .collect_vec();
+
+        // All columns have to share the parameters & the knots of the v direction,
+        // so average the parameters of the columns
+        let parameters = columns
+            .iter()
+            .map(|points| chord_length_parameters(points))
+            .filter(|us| us.iter().all(|u| u.is_finite()))
+            .collect_vec();
+        anyhow::ensure!(!parameters.is_empty(), "All curves are the same");
+        let count = T::from_usize(parameters.len()).unwrap();
+        let parameters = (0..unified_curves.len())
+            .map(|i| parameters.iter().fold(T::zero(), |acc, us| acc + us[i]) / count)
+            .collect_vec();
+
+        // Interpolate each column of control points to get the nurbs curve aligned with the v direction
+        let v_curves: anyhow::Result<Vec<_>> = columns
+            .iter()
+            .map(|points| {
+                let (control_points, knots) =
+                    try_interpolate_control_points_at(points, &parameters, degree_v, false)?;
                 NurbsCurve::try_new(
                     degree_v,
                     control_points
@@ -1338,6 +1354,11 @@ where
         })
         .collect::<anyhow::Result<Vec<NurbsCurve<T, D>>>>()?;
 
+    // the knots can be aligned only if they start and end at the domain
+    for curve in curves.iter_mut() {
+        curve.try_clamp()?;
+    }
+
     let knot_intervals = curves
         .iter()
         .map(|c| {
@@ -1367,10 +1388,17 @@ where
         c.knots_mut().iter_mut().for_each(|x| *x *= scale);
     });
 
-    //merge all of the knot vectors
-    let merged_knots = curves
-        .iter()
-        .fold(vec![], |a, c| sorted_set_union(c.knots().as_slice(), &a));
+    //merge all of the knot vectors, regarding knots as the same up to rounding errors
+    let tolerance = max_knot_span * T::default_epsilon() * T::from_usize(64).unwrap();
+    let mut merged_knots = vec![];
+    for curve in curves.iter_mut() {
+        curve.knots_mut().iter_mut().for_each(|x| {
+            if let Some(same) = merged_knots.iter().find(|m: &&T| (*x - **m).abs() < tolerance) {
+                *x = *same;
+            }
+        });
+        merged_knots = sorted_set_union(curve.knots().as_slice(), &merged_knots);
+    }
 
     //knot refinement on each curve
     for curve in curves.iter_mut() {
-- 
2.43.0


From 72ea139f664258ab495305c3b1f5f5cc39e14e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 19/48] fix: closest point on a curve: wrap parameters of
 closed curves inside the domain and never step away from the point

---
 .../curve_closest_parameter_newton.rs         | 86 ++++++++++++++-----
 .../curve_closest_parameter_problem.rs        | 18 +++-
 src/curve/nurbs_curve.rs                      |  3 +-
 3 files changed, 82 insertions(+), 25 deletions(-)

diff --git a/src/closest_parameter/curve_closest_parameter_newton.rs b/src/closest_parameter/curve_closest_parameter_newton.rs
index 1b4b7de..9e67297 100644
--- a/src/closest_parameter/curve_closest_parameter_newton.rs
+++ b/src/closest_parameter/curve_closest_parameter_newton.rs
@@ -12,13 +12,12 @@ pub struct CurveClosestParameterNewton<F, P> {
     closed: bool,
 }
 
-impl<F, P> CurveClosestParameterNewton<F, P>
+impl<F> CurveClosestParameterNewton<F, F>
 where
     F: ArgminFloat,
-    P: Clone,
 {
     /// Construct a new instance of [`Newton`]
-    pub fn new(domain: (P, P), closed: bool) -> Self {
+    pub fn new(domain: (F, F), closed: bool) -> Self {
         CurveClosestParameterNewton {
             gamma: float!(1.0),
             knot_domain: domain,
@@ -40,15 +39,48 @@ where
         self.gamma = gamma;
         Ok(self)
     }
+
+    /// Constrain the parameter to the domain
+    fn constrain(&self, param: F) -> F {
+        let (start, end) = self.knot_domain;
+        let param = if !self.closed {
+            param
+        } else if param < start {
+            end - (start - param)
+        } else if param > end {
+            start + (param - end)
+        } else {
+            param
+        };
+        param.max(start).min(end)
+    }
 }
 
 impl<O, F> Solver<O, IterState<F, F, (), F, (), F>> for CurveClosestParameterNewton<F, F>
 where
-    O: Gradient<Param = F, Gradient = F> + Hessian<Param = F, Hessian = F>,
+    O: CostFunction<Param = F, Output = F>
+        + Gradient<Param = F, Gradient = F>
+        + Hessian<Param = F, Hessian = F>,
     F: Clone + ArgminFloat,
 {
     const NAME: &'static str = "Closest parameter newton method";
 
+    fn init(
+        &mut self,
+        problem: &mut Problem<O>,
+        state: IterState<F, F, (), F, (), F>,
+    ) -> Result<(IterState<F, F, (), F, (), F>, Option<KV>), Error> {
+        let param = state.get_param().ok_or_else(argmin_error_closure!(
+            NotInitialized,
+            concat!(
+                "`Newton` requires an initial parameter vector. ",
+                "Please provide an initial guess via `Executor`s `configure` method."
+            )
+        ))?;
+        let cost = problem.cost(param)?;
+        Ok((state.cost(cost), None))
+    }
+
     fn next_iter(
         &mut self,
         problem: &mut Problem<O>,
@@ -62,29 +94,37 @@ where
             )
         ))?;
 
-        let grad = problem.gradient(param)?;
-        let hessian = problem.hessian(param)?;
-        let inv = F::one() / hessian;
-        let new_param = *param - self.gamma * inv * grad;
+        let param = *param;
+        let cost = state.get_cost();
+        let grad = problem.gradient(&param)?;
+        let hessian = problem.hessian(&param)?;
 
-        // Constrain the parameter to the domain
-        let new_param = if new_param < self.knot_domain.0 {
-            if self.closed {
-                self.knot_domain.1 - (new_param - self.knot_domain.0)
-            } else {
-                self.knot_domain.0
-            }
-        } else if new_param > self.knot_domain.1 {
-            if self.closed {
-                self.knot_domain.0 + (new_param - self.knot_domain.1)
-            } else {
-                self.knot_domain.1
-            }
+        let half = float!(0.5);
+        let max_step = (self.knot_domain.1 - self.knot_domain.0) * half;
+        let (step, limit) = if hessian > F::zero() {
+            (
+                (-self.gamma * grad / hessian).max(-max_step).min(max_step),
+                cost * (F::one() + F::epsilon() * float!(4.0)),
+            )
+        } else if grad != F::zero() {
+            // the distance is not convex here, just walk downhill
+            (-grad.signum() * max_step, cost * (F::one() - F::epsilon()))
         } else {
-            new_param
+            (F::zero(), cost)
         };
 
-        Ok((state.param(new_param), None))
+        // shorten the step until it does not lead away from the point
+        let mut step = step;
+        while step.abs() > F::epsilon() * (F::one() + param.abs()) {
+            let new_param = self.constrain(param + step);
+            let new_cost = problem.cost(&new_param)?;
+            if new_cost <= limit {
+                return Ok((state.param(new_param).cost(new_cost), None));
+            }
+            step = step * half;
+        }
+
+        Ok((state.param(param).cost(cost), None))
     }
 
     fn terminate(&mut self, state: &IterState<F, F, (), F, (), F>) -> TerminationStatus {
diff --git a/src/closest_parameter/curve_closest_parameter_problem.rs b/src/closest_parameter/curve_closest_parameter_problem.rs
index 693be46..3ac7ece 100644
--- a/src/closest_parameter/curve_closest_parameter_problem.rs
+++ b/src/closest_parameter/curve_closest_parameter_problem.rs
@@ -1,4 +1,4 @@
-use argmin::core::{Gradient, Hessian};
+use argmin::core::{CostFunction, Gradient, Hessian};
 use nalgebra::{
     allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, OPoint, U1,
 };
@@ -29,6 +29,22 @@ where
     }
 }
 
+impl<T: FloatingPoint, D: DimName> CostFunction for CurveClosestParameterProblem<'_, T, D>
+where
+    DefaultAllocator: Allocator<D>,
+    D: DimNameSub<U1>,
+    DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+{
+    type Param = T;
+    type Output = T;
+
+    /// | C(u) - P |
+    fn cost(&self, param: &Self::Param) -> Result<Self::Output, anyhow::Error> {
+        let d = self.curve.point_at(*param) - self.point;
+        Ok(d.norm())
+    }
+}
+
 impl<T: FloatingPoint, D: DimName> Gradient for CurveClosestParameterProblem<'_, T, D>
 where
     DefaultAllocator: Allocator<D>,
diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 48dbb80..08ab95f 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1697,9 +1697,10 @@ where
             }
         }
 
+        let u = <T as RealField>::clamp(u, min_u, max_u);
         let solver = CurveClosestParameterNewton::new((min_u, max_u), closed);
         let res = Executor::new(CurveClosestParameterProblem::new(point, self), solver)
-            .configure(|state| state.param(u).max_iters(5))
+            .configure(|state| state.param(u).max_iters(50))
             .run()?;
         match res.state().get_best_param().cloned() {
             Some(t) => {
-- 
2.43.0


From cfcfb1d4bb73920419fa63a8ff75d8375f1dc8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 20/48] fix: closest point on a surface: wrap parameters of
 closed surfaces inside the domain and follow the edges of the domain

---
 .../surface_closest_parameter_newton.rs       | 140 ++++++++++--------
 src/surface/nurbs_surface.rs                  |   7 +-
 2 files changed, 84 insertions(+), 63 deletions(-)

diff --git a/src/closest_parameter/surface_closest_parameter_newton.rs b/src/closest_parameter/surface_closest_parameter_newton.rs
index 6e5468a..a51c0f3 100644
--- a/src/closest_parameter/surface_closest_parameter_newton.rs
+++ b/src/closest_parameter/surface_closest_parameter_newton.rs
@@ -25,8 +25,7 @@ where
     /// Construct a new instance of [`Newton`]
     pub fn new(domain: ((F, F), (F, F)), closed: (bool, bool)) -> Self {
         SurfaceClosestParameterNewton {
-            // gamma: float!(0.25),
-            gamma: float!(0.25),
+            gamma: float!(1.0),
             knot_domain: domain,
             closed,
             phantom: Default::default(),
@@ -118,59 +117,57 @@ where
 
         let duu = s_u.dot(s_u) + s_uu.dot(&dif);
         let dvv = s_v.dot(s_v) + s_vv.dot(&dif);
-
-        // check if the second derivative is vanishing
-        let u_d = duu < F::default_epsilon();
-        let v_d = dvv < F::default_epsilon();
-
-        let new_param = match (u_d, v_d) {
-            (false, false) => {
-                let duv = s_u.dot(s_v) + s_uv.dot(&dif);
-                let hessian = Matrix2::new(duu, duv, duv, dvv);
-                let delta = hessian
-                    .lu()
-                    .solve(&-grad)
-                    .ok_or(anyhow::anyhow!("Failed to solve"))?;
-                *param + delta * self.gamma
-            }
-            (true, false) => {
-                let v_delta = -grad.y / dvv;
-                *param + Vector2::new(F::zero(), v_delta) * self.gamma
-            }
-            (false, true) => {
-                let u_delta = -grad.x / duu;
-                *param + Vector2::new(u_delta, F::zero()) * self.gamma
-            }
-            _ => {
-                let p = *param;
-                return Ok((state.param(p), None));
-            }
+        let duv = s_u.dot(s_v) + s_uv.dot(&dif);
+
+        let (u_domain, v_domain) = self.knot_domain;
+
+        // downhill step along each direction,
+        // parameters held at the boundary of the domain do not move
+        let u_step = downhill_step(param.x, grad.x, duu, s_u.dot(s_u), u_domain, self.closed.0);
+        let v_step = downhill_step(param.y, grad.y, dvv, s_v.dot(s_v), v_domain, self.closed.1);
+        let downhill = Vector2::new(u_step, v_step);
+
+        // newton step if the distance is convex here and no direction is held
+        let det = duu * dvv - duv * duv;
+        let newton = if u_step != F::zero() && v_step != F::zero() && duu > F::zero() && det > F::zero()
+        {
+            Matrix2::new(duu, duv, duv, dvv)
+                .lu()
+                .solve(&-grad)
+                .unwrap_or(downhill)
+        } else {
+            downhill
         };
 
-        /*
-        let inv = hessian
-            .try_inverse()
-            .ok_or(anyhow::anyhow!("Failed to compute inverse matrix"))?;
-        let delta = -inv * grad;
-        let new_param = *param + delta * self.gamma;
-        */
-
-        // Constrain the parameter to the domain
-        let new_param = Vector2::new(
-            constrain(new_param.x, self.knot_domain.0, self.closed.0),
-            constrain(new_param.y, self.knot_domain.1, self.closed.1),
+        let half = F::from_f64(0.5).unwrap();
+        let limit = Vector2::new(
+            (u_domain.1 - u_domain.0) * half,
+            (v_domain.1 - v_domain.0) * half,
         );
-
-        let new_cost = problem.cost(&new_param)?;
-        // println!("prev: {}, next: {}", state.get_cost(), new_cost);
+        let cost = state.get_cost();
+        let param = *param;
+
+        // shorten the step until it does not lead away from the point
+        let mut gamma = self.gamma;
+        while gamma > F::default_epsilon() {
+            for step in [newton, downhill] {
+                let step = step.zip_map(&limit, |s, l| {
+                    <F as num_traits::Float>::max(-l, <F as num_traits::Float>::min(s, l))
+                }) * gamma;
+                let new_param = Vector2::new(
+                    constrain(param.x + step.x, u_domain, self.closed.0),
+                    constrain(param.y + step.y, v_domain, self.closed.1),
+                );
+                let new_cost = problem.cost(&new_param)?;
+                if new_cost < cost {
+                    return Ok((state.cost(new_cost).param(new_param), None));
+                }
+            }
+            gamma *= half;
+        }
 
         // halt if cost is not decreasing
-        if state.get_cost() < new_cost {
-            let p = *param;
-            Ok((state.param(p), None))
-        } else {
-            Ok((state.cost(new_cost).param(new_param), None))
-        }
+        Ok((state.param(param), None))
     }
 
     fn terminate(
@@ -195,20 +192,39 @@ where
     }
 }
 
+/// Step which decreases the distance along one of the parameters
+fn downhill_step<T: FloatingPoint>(
+    parameter: T,
+    gradient: T,
+    hessian: T,
+    speed: T,
+    domain: (T, T),
+    closed: bool,
+) -> T {
+    let held = !closed
+        && ((parameter <= domain.0 && gradient > T::zero())
+            || (parameter >= domain.1 && gradient < T::zero()));
+    if held {
+        T::zero()
+    } else if hessian > T::default_epsilon() {
+        -gradient / hessian
+    } else if speed > T::default_epsilon() {
+        -gradient / speed
+    } else {
+        T::zero()
+    }
+}
+
+/// Constrain the parameter to the domain
 fn constrain<T: FloatingPoint>(parameter: T, domain: (T, T), closed: bool) -> T {
-    if parameter < domain.0 {
-        if closed {
-            domain.1 - (parameter - domain.0)
-        } else {
-            domain.0 + T::default_epsilon()
-        }
+    let parameter = if !closed {
+        parameter
+    } else if parameter < domain.0 {
+        domain.1 - (domain.0 - parameter)
     } else if parameter > domain.1 {
-        if closed {
-            domain.0 + (parameter - domain.1)
-        } else {
-            domain.1 - T::default_epsilon()
-        }
+        domain.0 + (parameter - domain.1)
     } else {
         parameter
-    }
+    };
+    parameter.clamp(domain.0, domain.1)
 }
diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index a872e84..e1352de 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -968,7 +968,12 @@ where
         let pts = self.dehomogenized_control_points();
         let u0 = pts.first().unwrap();
         let u1 = pts.last().unwrap();
-        let eps = T::default_epsilon() * T::from_f64(10.0).unwrap();
+        // rounding errors grow with the magnitude of the coordinates
+        let scale = pts
+            .iter()
+            .flatten()
+            .fold(T::one(), |acc, p| RealField::max(acc, p.coords.amax()));
+        let eps = T::default_epsilon() * T::from_f64(10.0).unwrap() * scale;
         let u_closed = (0..pts[0].len()).all(|i| (&u0[i] - &u1[i]).norm() < eps);
         let v_closed = (0..pts.len()).all(|i| {
             let row = &pts[i];
-- 
2.43.0


From 90974e3bcc885bde5de0654adf75e7a2448ef479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 21/48] fix: surface tessellation links all western neighbours
 and ends exactly at the domain end

---
 src/tessellation/surface.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index c97cb57..4befa83 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -82,8 +82,9 @@ where
         let divs_u = options.min_divs_u.max(min_u);
         let (umin, umax) = s.u_knots_domain();
         let du = (umax - umin) / T::from_usize(divs_u).unwrap();
-        (0..=divs_u)
+        (0..divs_u)
             .map(|i| umin + du * T::from_usize(i).unwrap())
+            .chain(std::iter::once(umax))
             .collect()
     };
 
@@ -99,8 +100,9 @@ where
         let divs_v = options.min_divs_v.max(min_v);
         let (vmin, vmax) = s.v_knots_domain();
         let dv = (vmax - vmin) / T::from_usize(divs_v).unwrap();
-        (0..=divs_v)
+        (0..divs_v)
             .map(|i| vmin + dv * T::from_usize(i).unwrap())
+            .chain(std::iter::once(vmax))
             .collect()
     };
 
@@ -173,7 +175,7 @@ where
                 let s = south(index, iv, divs_u, divs_v);
                 let e = east(index, iu, divs_u);
                 let n = north(index, iv, divs_u);
-                let w = west(index, iv);
+                let w = west(index, iu);
                 AdaptiveTessellationNode::new(index, corners, [s, e, n, w])
             })
         })
@@ -221,8 +223,8 @@ fn east(index: usize, iu: usize, divs_u: usize) -> Option<usize> {
     }
 }
 
-fn west(index: usize, iv: usize) -> Option<usize> {
-    if iv == 0 {
+fn west(index: usize, iu: usize) -> Option<usize> {
+    if iu == 0 {
         None
     } else {
         Some(index - 1)
-- 
2.43.0


From 1f927420f3fb14078592a2325e1bed15f376741b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 22/48] fix: surface meshes have finite normals at degenerate
 points for surfaces of any size

---
 src/surface/nurbs_surface.rs                   |  4 +++-
 src/tessellation/adaptive_tessellation_node.rs | 16 ++++++++++------
 src/tessellation/surface.rs                    |  8 +++-----
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index e1352de..3a8ff88 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -246,7 +246,9 @@ where
                     .map(|der| {
                         let v0 = &der[1][0];
                         let v1 = &der[0][1];
-                        v0.cross(v1).normalize()
+                        let n = v0.cross(v1);
+                        // keep a vanishing normal as it is
+                        n.try_normalize(T::zero()).unwrap_or(n)
                     })
                     .collect()
             })
diff --git a/src/tessellation/adaptive_tessellation_node.rs b/src/tessellation/adaptive_tessellation_node.rs
index 359de12..eff0161 100644
--- a/src/tessellation/adaptive_tessellation_node.rs
+++ b/src/tessellation/adaptive_tessellation_node.rs
@@ -41,7 +41,7 @@ where
         neighbors: [Option<usize>; 4],
     ) -> Self {
         let uv_center = (corners[0].uv + corners[2].uv) * T::from_f64(0.5).unwrap();
-        Self {
+        let mut node = Self {
             id,
             corners,
             neighbors,
@@ -49,7 +49,9 @@ where
             mid_points: [None, None, None, None],
             direction: UVDirection::V,
             uv_center,
-        }
+        };
+        node.fix_normals();
+        node
     }
 
     pub fn id(&self) -> usize {
@@ -207,7 +209,6 @@ where
         }
 
         if self.has_bad_normals() {
-            self.fix_normals();
             //don't divide any further when encountering a degenerate normal
             return None;
         }
@@ -254,7 +255,7 @@ where
 }
 
 /// Evaluate the surface at a given uv coordinate
-fn evaluate_surface<T: FloatingPoint, D>(
+pub(crate) fn evaluate_surface<T: FloatingPoint, D>(
     surface: &NurbsSurface<T, D>,
     uv: Vector2<T>,
 ) -> SurfacePoint<T, DimNameDiff<D, U1>>
@@ -265,8 +266,11 @@ where
 {
     let derivs = surface.rational_derivatives(uv.x, uv.y, 1);
     let pt = derivs[0][0].clone();
-    let norm = derivs[1][0].cross(&derivs[0][1]);
-    let is_normal_degenerated = norm.magnitude_squared() < T::default_epsilon();
+    let (du, dv) = (&derivs[1][0], &derivs[0][1]);
+    let norm = du.cross(dv);
+    // compare with the magnitude of the derivatives so that the size of the surface does not matter
+    let speed = du.norm_squared().max(dv.norm_squared());
+    let is_normal_degenerated = norm.norm_squared() <= T::default_epsilon() * speed * speed;
     SurfacePoint::new(
         uv,
         pt.into(),
diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index 4befa83..64dc05f 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -2,8 +2,8 @@ use super::adaptive_tessellation_option::AdaptiveTessellationOptions;
 use super::adaptive_tessellation_processor::AdaptiveTessellationProcessor;
 use super::boundary_constraints::BoundaryConstraints;
 use super::surface_tessellation::SurfaceTessellation;
-use super::{adaptive_tessellation_node::AdaptiveTessellationNode, Tessellation};
-use super::{ConstrainedTessellation, SurfacePoint};
+use super::adaptive_tessellation_node::{evaluate_surface, AdaptiveTessellationNode};
+use super::{ConstrainedTessellation, Tessellation};
 use itertools::Itertools;
 use nalgebra::{
     allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Vector2, U1,
@@ -146,12 +146,10 @@ where
             let u_constraint = (u_min && u_min_constraint) || (u_max && u_max_constraint);
 
             let row = us.iter().enumerate().map(|(iu, u)| {
-                let ds = s.rational_derivatives(*u, *v, 1);
-                let norm = ds[1][0].cross(&ds[0][1]).normalize();
                 let v_min = iu == 0;
                 let v_max = iu == divs_u - 1;
                 let v_constraint = (v_min && v_min_constraint) || (v_max && v_max_constraint);
-                SurfacePoint::new(Vector2::new(*u, *v), ds[0][0].clone().into(), norm, false)
+                evaluate_surface(s, Vector2::new(*u, *v))
                     .with_constraints(u_constraint, v_constraint)
                     .with_boundary(u_min, u_max, v_min, v_max)
             });
-- 
2.43.0


From 24a3d320188af21cc56c192c48d95b42d1418c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:55 +0000
Subject: [PATCH 23/48] fix: constrained tessellation snaps and keeps every
 constrained edge

The last row and column were never flagged, points on closed or degenerate
edges snapped to any coincident point, snapped normals were not normalised,
min_depth divided constrained edges and cells bent by snapping overlapped.
---
 .../adaptive_tessellation_node.rs             | 15 +++-
 src/tessellation/boundary_constraints.rs      | 29 ++++---
 src/tessellation/surface.rs                   | 18 +++--
 src/tessellation/surface_tessellation.rs      | 81 ++++++++++++-------
 4 files changed, 97 insertions(+), 46 deletions(-)

diff --git a/src/tessellation/adaptive_tessellation_node.rs b/src/tessellation/adaptive_tessellation_node.rs
index eff0161..39df754 100644
--- a/src/tessellation/adaptive_tessellation_node.rs
+++ b/src/tessellation/adaptive_tessellation_node.rs
@@ -200,8 +200,17 @@ where
         options: &AdaptiveTessellationOptions<T>,
         current_depth: usize,
     ) -> Option<DividableDirection> {
+        // constrained edges of the boundary must not be divided
+        let v_dividable = self.corners.iter().all(|c| !c.is_u_constrained());
+        let u_dividable = self.corners.iter().all(|c| !c.is_v_constrained());
+
         if current_depth < options.min_depth {
-            return Some(DividableDirection::Both);
+            return match (u_dividable, v_dividable) {
+                (true, true) => Some(DividableDirection::Both),
+                (true, false) => Some(DividableDirection::U),
+                (false, true) => Some(DividableDirection::V),
+                (false, false) => None,
+            };
         }
 
         if current_depth >= options.max_depth {
@@ -219,13 +228,13 @@ where
             > options.norm_tolerance
             || (self.corners[2].normal() - self.corners[3].normal()).norm_squared()
                 > options.norm_tolerance;
-        let v_direction = v_direction && self.corners.iter().all(|c| !c.is_u_constrained());
+        let v_direction = v_direction && v_dividable;
 
         let u_direction = (self.corners[1].normal() - self.corners[2].normal()).norm_squared()
             > options.norm_tolerance
             || (self.corners[3].normal() - self.corners[0].normal()).norm_squared()
                 > options.norm_tolerance;
-        let u_direction = u_direction && self.corners.iter().all(|c| !c.is_v_constrained());
+        let u_direction = u_direction && u_dividable;
 
         match (u_direction, v_direction) {
             (true, true) => Some(DividableDirection::Both),
diff --git a/src/tessellation/boundary_constraints.rs b/src/tessellation/boundary_constraints.rs
index 9b03a3a..46117fc 100644
--- a/src/tessellation/boundary_constraints.rs
+++ b/src/tessellation/boundary_constraints.rs
@@ -5,7 +5,7 @@ use nalgebra::{
 
 use crate::{misc::FloatingPoint, surface::NurbsSurface};
 
-use super::SurfacePoint;
+use super::{adaptive_tessellation_node::evaluate_surface, SurfacePoint};
 
 /// A struct representing constraints at the boundary of a surface tessellation
 #[derive(Clone, Debug)]
@@ -123,13 +123,7 @@ where
     pub fn new(surface: &NurbsSurface<T, D>, constraints: &BoundaryConstraints<T>) -> Self {
         let (u, v) = surface.knots_domain();
 
-        let evaluate = |uv: Vector2<T>| {
-            let deriv = surface.rational_derivatives(uv.x, uv.y, 1);
-            let pt = deriv[0][0].clone();
-            let norm = deriv[1][0].cross(&deriv[0][1]);
-            let is_normal_degenerated = norm.magnitude_squared() < T::default_epsilon();
-            SurfacePoint::new(uv, pt.into(), norm, is_normal_degenerated)
-        };
+        let evaluate = |uv: Vector2<T>| evaluate_surface(surface, uv);
 
         Self {
             u_points_at_v_min: constraints.u_parameters_at_v_min().map(|u_parameters| {
@@ -195,6 +189,22 @@ where
             .map(|v_points| self.closest_point(point, v_points))
     }
 
+    /// Find the constrained point for the given point if it lies on a constrained boundary
+    pub(crate) fn snap(
+        &self,
+        point: &SurfacePoint<T, DimNameDiff<D, U1>>,
+    ) -> Option<SurfacePoint<T, DimNameDiff<D, U1>>> {
+        [
+            (point.is_u_min(), &self.u_points_at_v_min),
+            (point.is_u_max(), &self.u_points_at_v_max),
+            (point.is_v_min(), &self.v_points_at_u_min),
+            (point.is_v_max(), &self.v_points_at_u_max),
+        ]
+        .into_iter()
+        .filter(|(on_boundary, _)| *on_boundary)
+        .find_map(|(_, points)| points.as_ref().map(|points| self.closest_point(point, points)))
+    }
+
     /// Find the closest point to the given point from the list of points
     fn closest_point(
         &self,
@@ -204,7 +214,8 @@ where
         points
             .iter()
             .map(|p| {
-                let dist = (p.point() - point.point()).norm_squared();
+                // measure in the parameter space because points of closed or degenerate edges coincide
+                let dist = (p.uv - point.uv).norm_squared();
                 (p, dist)
             })
             .min_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(std::cmp::Ordering::Equal))
diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index 64dc05f..e5497d1 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -1,6 +1,6 @@
 use super::adaptive_tessellation_option::AdaptiveTessellationOptions;
 use super::adaptive_tessellation_processor::AdaptiveTessellationProcessor;
-use super::boundary_constraints::BoundaryConstraints;
+use super::boundary_constraints::{BoundaryConstraints, BoundaryEvaluation};
 use super::surface_tessellation::SurfaceTessellation;
 use super::adaptive_tessellation_node::{evaluate_surface, AdaptiveTessellationNode};
 use super::{ConstrainedTessellation, Tessellation};
@@ -136,22 +136,28 @@ where
 
     let divs_u = us.len() - 1;
     let divs_v = vs.len() - 1;
+    let evaluation = constraints.as_ref().map(|c| BoundaryEvaluation::new(s, c));
 
     let pts = vs
         .iter()
         .enumerate()
         .map(|(iv, v)| {
             let u_min = iv == 0;
-            let u_max = iv == divs_v - 1;
+            let u_max = iv == divs_v;
             let u_constraint = (u_min && u_min_constraint) || (u_max && u_max_constraint);
 
             let row = us.iter().enumerate().map(|(iu, u)| {
                 let v_min = iu == 0;
-                let v_max = iu == divs_u - 1;
+                let v_max = iu == divs_u;
                 let v_constraint = (v_min && v_min_constraint) || (v_max && v_max_constraint);
-                evaluate_surface(s, Vector2::new(*u, *v))
-                    .with_constraints(u_constraint, v_constraint)
-                    .with_boundary(u_min, u_max, v_min, v_max)
+                let pt = evaluate_surface(s, Vector2::new(*u, *v))
+                    .with_boundary(u_min, u_max, v_min, v_max);
+                // cells whose corners are moved onto a constrained point must not be divided at all
+                let moved = evaluation
+                    .as_ref()
+                    .and_then(|e| e.snap(&pt))
+                    .is_some_and(|p| p.uv != pt.uv);
+                pt.with_constraints(u_constraint || moved, v_constraint || moved)
             });
             row.collect_vec()
         })
diff --git a/src/tessellation/surface_tessellation.rs b/src/tessellation/surface_tessellation.rs
index 4a4c1a4..70f2aba 100644
--- a/src/tessellation/surface_tessellation.rs
+++ b/src/tessellation/surface_tessellation.rs
@@ -79,35 +79,19 @@ where
                 .unwrap_or(0);
             let pts = corners.into_iter().flatten().collect_vec();
 
-            let pts = if let Some(boundary_evaluation) = boundary_evaluation {
-                pts.into_iter()
-                    .map(|pt| {
-                        if pt.is_u_min() {
-                            if let Some(closest) = boundary_evaluation.closest_point_at_u_min(&pt) {
-                                return closest;
-                            }
+            let mut snapped = false;
+            let pts = pts
+                .into_iter()
+                .map(|pt| {
+                    match boundary_evaluation.and_then(|evaluation| evaluation.snap(&pt)) {
+                        Some(closest) => {
+                            snapped |= closest.uv != pt.uv;
+                            closest
                         }
-                        if pt.is_u_max() {
-                            if let Some(closest) = boundary_evaluation.closest_point_at_u_max(&pt) {
-                                return closest;
-                            }
-                        }
-                        if pt.is_v_min() {
-                            if let Some(closest) = boundary_evaluation.closest_point_at_v_min(&pt) {
-                                return closest;
-                            }
-                        }
-                        if pt.is_v_max() {
-                            if let Some(closest) = boundary_evaluation.closest_point_at_v_max(&pt) {
-                                return closest;
-                            }
-                        }
-                        pt
-                    })
-                    .collect_vec()
-            } else {
-                pts
-            };
+                        None => pt,
+                    }
+                })
+                .collect_vec();
 
             let base_index = self.points.len();
             let n = pts.len();
@@ -120,6 +104,8 @@ where
             }
 
             match n {
+                // snapped vertices can make the cell concave or collapse its edges
+                _ if snapped => self.triangulate_polygon(ids),
                 4 => {
                     self.faces.push([ids[0], ids[1], ids[3]]);
                     self.faces.push([ids[3], ids[1], ids[2]]);
@@ -154,6 +140,45 @@ where
         }
     }
 
+    /// Triangulate a simple polygon in the parameter space by clipping its ears
+    fn triangulate_polygon(&mut self, ids: Vec<usize>) {
+        let uvs = &self.uvs;
+        let orient = |a: usize, b: usize, c: usize| {
+            (uvs[b] - uvs[a]).perp(&(uvs[c] - uvs[a]))
+        };
+
+        let mut ids = ids
+            .into_iter()
+            .dedup_by(|a, b| uvs[*a] == uvs[*b])
+            .collect_vec();
+        while ids.len() > 1 && uvs[ids[0]] == uvs[ids[ids.len() - 1]] {
+            ids.pop();
+        }
+
+        while ids.len() >= 3 {
+            let n = ids.len();
+            let ear = (0..n).position(|i| {
+                let (a, b, c) = (ids[(i + n - 1) % n], ids[i], ids[(i + 1) % n]);
+                orient(a, b, c) > T::zero()
+                    && ids.iter().all(|&p| {
+                        [a, b, c].iter().any(|&q| uvs[p] == uvs[q])
+                            || orient(a, b, p) < T::zero()
+                            || orient(b, c, p) < T::zero()
+                            || orient(c, a, p) < T::zero()
+                    })
+            });
+            match ear {
+                Some(i) => {
+                    self.faces
+                        .push([ids[(i + n - 1) % n], ids[i], ids[(i + 1) % n]]);
+                    ids.remove(i);
+                }
+                // the rest of the polygon has collapsed
+                None => break,
+            }
+        }
+    }
+
     pub fn points(&self) -> &Vec<OPoint<T, DimNameDiff<D, U1>>> {
         &self.points
     }
-- 
2.43.0


From ddd4981c37a195426fdd58c8e14eb1672eda9517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 24/48] fix: curve intersections do not depend on the scale of
 parameters and are not lost by the solver

The solver started from an identity hessian, left the pair of segments and
reported no intersection; parameters outside the domain by rounding were
dropped; results within 1e-3 were merged however short the domain was.
---
 .../curve_curve/curve_intersection_problem.rs |  25 +++-
 .../curve_curve/intersection_curve_curve.rs   | 116 +++++++++---------
 src/intersects/mod.rs                         |   9 ++
 3 files changed, 91 insertions(+), 59 deletions(-)

diff --git a/src/intersects/curve_curve/curve_intersection_problem.rs b/src/intersects/curve_curve/curve_intersection_problem.rs
index 89a971c..3318bf8 100644
--- a/src/intersects/curve_curve/curve_intersection_problem.rs
+++ b/src/intersects/curve_curve/curve_intersection_problem.rs
@@ -1,7 +1,8 @@
 use argmin::core::{CostFunction, Gradient};
 
 use nalgebra::{
-    allocator::Allocator, Const, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Vector2, U1,
+    allocator::Allocator, Const, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Matrix2,
+    Vector2, U1,
 };
 
 use crate::{curve::nurbs_curve::NurbsCurve, misc::FloatingPoint};
@@ -24,6 +25,28 @@ where
     pub fn new(a: &'a NurbsCurve<T, D>, b: &'a NurbsCurve<T, D>) -> Self {
         CurveIntersectionProblem { a, b }
     }
+
+    /// Approximate the inverse of the hessian by Gauss-Newton method,
+    /// so that the first step of the solver does not depend on the scale of the curves & their parameters.
+    pub fn approximate_inverse_hessian(&self, param: &Vector2<T>) -> Matrix2<T>
+    where
+        D: DimNameSub<U1>,
+        DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+    {
+        let du = &self.a.rational_derivatives(param[0], 1)[1];
+        let dv = &self.b.rational_derivatives(param[1], 1)[1];
+        let (uu, uv, vv) = (du.norm_squared(), du.dot(dv), dv.norm_squared());
+        let two = T::from_f64(2.).unwrap();
+        let det = uu * vv - uv * uv;
+        if det > T::from_f64(1e-4).unwrap() * uu * vv {
+            Matrix2::new(vv, uv, uv, uu) / (det * two)
+        } else if uu > T::zero() && vv > T::zero() {
+            // almost parallel
+            Matrix2::from_diagonal(&Vector2::new(T::one() / (uu * two), T::one() / (vv * two)))
+        } else {
+            Matrix2::identity()
+        }
+    }
 }
 
 impl<T: FloatingPoint, D: DimName> Gradient for CurveIntersectionProblem<'_, T, D>
diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index d40e762..95e1a0d 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -3,8 +3,7 @@ use std::cmp::Ordering;
 use argmin::core::{ArgminFloat, Executor, State};
 use itertools::Itertools;
 use nalgebra::{
-    allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Matrix2, OPoint,
-    Vector2, U1,
+    allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, OPoint, Vector2, U1,
 };
 use num_traits::Float;
 
@@ -14,6 +13,8 @@ use crate::{
     prelude::{BoundingBoxTraversal, CurveBoundingBoxTree, HasIntersection, Intersects},
 };
 
+use crate::intersects::snap_to_domain;
+
 use super::{
     CurveCurveIntersection, CurveIntersectionBFGS, CurveIntersectionProblem,
     CurveIntersectionSolverOptions,
@@ -99,66 +100,59 @@ where
 
         let intersections = traversed
             .into_pairs_iter()
-            .filter_map(|(a, b)| {
+            .flat_map(|(a, b)| {
                 let ca = a.curve_owned();
                 let cb = b.curve_owned();
-
-                let problem = CurveIntersectionProblem::new(&ca, &cb);
-
-                // let inv = T::from_f64(0.5).unwrap();
-                // let d0 = ca.knots_domain();
-                // let d1 = cb.knots_domain();
-
-                // Define initial parameter vector
-                let init_param = Vector2::<T>::new(
-                    ca.knots_domain().0,
-                    cb.knots_domain().0,
-                    // (d0.0 + d0.1) * inv,
-                    // (d1.0 + d1.1) * inv,
-                );
-
-                // Set up solver
-                let solver = CurveIntersectionBFGS::<T>::new()
-                    .with_step_size_tolerance(options.step_size_tolerance)
-                    .with_cost_tolerance(options.cost_tolerance);
-
-                // Run solver
-                let res = Executor::new(problem, solver)
-                    .configure(|state| {
-                        state
-                            .param(init_param)
-                            .inv_hessian(Matrix2::identity())
-                            .max_iters(options.max_iters)
-                    })
-                    .run();
-
-                match res {
-                    Ok(r) => {
-                        // println!("{}", r.state().get_termination_status());
-                        r.state().get_best_param().and_then(|param| {
-                            if (a_domain.0..=a_domain.1).contains(&param[0])
-                                && (b_domain.0..=b_domain.1).contains(&param[1])
-                            {
-                                let p0 = self.point_at(param[0]);
-                                let p1 = other.point_at(param[1]);
-                                Some(CurveCurveIntersection::new((p0, param[0]), (p1, param[1])))
-                            } else {
-                                None
-                            }
+                let (da, db) = (ca.knots_domain(), cb.knots_domain());
+
+                let solve = |init_param: Vector2<T>| {
+                    let problem = CurveIntersectionProblem::new(&ca, &cb);
+                    let init_inv_hessian = problem.approximate_inverse_hessian(&init_param);
+
+                    // Set up solver
+                    let solver = CurveIntersectionBFGS::<T>::new()
+                        .with_step_size_tolerance(options.step_size_tolerance)
+                        .with_cost_tolerance(options.cost_tolerance);
+
+                    // Run solver
+                    let res = Executor::new(problem, solver)
+                        .configure(|state| {
+                            state
+                                .param(init_param)
+                                .hessian(init_inv_hessian)
+                                .max_iters(options.max_iters)
                         })
-                    }
-                    Err(_e) => {
-                        // println!("{}", e);
-                        None
+                        .run()
+                        .ok()?;
+
+                    let param = res.state().get_best_param()?;
+                    let ta = snap_to_domain(param[0], a_domain)?;
+                    let tb = snap_to_domain(param[1], b_domain)?;
+                    let p0 = self.point_at(ta);
+                    let p1 = other.point_at(tb);
+                    let it = CurveCurveIntersection::new((p0, ta), (p1, tb));
+
+                    // filter out pairs of points that are too far
+                    ((&it.a().0 - &it.b().0).norm() < options.minimum_distance).then_some(it)
+                };
+
+                // The solver can leave the pair of segments & converge to another intersection (or none),
+                // so start it from several places until it finds the intersection between the segments
+                let mut found = vec![];
+                for r in [0., 0.5, 1.] {
+                    let r = T::from_f64(r).unwrap();
+                    let init_param =
+                        Vector2::new(da.0 + (da.1 - da.0) * r, db.0 + (db.1 - db.0) * r);
+                    if let Some(it) = solve(init_param) {
+                        let inside = (da.0..=da.1).contains(&it.a().1)
+                            && (db.0..=db.1).contains(&it.b().1);
+                        found.push(it);
+                        if inside {
+                            break;
+                        }
                     }
                 }
-            })
-            .filter(|it| {
-                // filter out intersections that are too close
-                let p0 = &it.a().0;
-                let p1 = &it.b().0;
-                let d = (p0 - p1).norm();
-                d < options.minimum_distance
+                found
             })
             .collect_vec();
 
@@ -171,6 +165,12 @@ where
 
         // group near parameter results & extract the closest one in each group
         let parameter_minimum_distance = T::from_f64(1e-3).unwrap();
+        // shrink the distance for short domains
+        let minimum_distance = |domain: (T, T)| {
+            parameter_minimum_distance * nalgebra::RealField::min(domain.1 - domain.0, T::one())
+        };
+        let a_minimum_distance = minimum_distance(a_domain);
+        let b_minimum_distance = minimum_distance(b_domain);
         let groups = sorted
             .into_iter()
             .map(|pt| vec![pt])
@@ -179,7 +179,7 @@ where
                 let y0 = &y[y.len() - 1];
                 let da = Float::abs(x0.a().1 - y0.a().1);
                 let db = Float::abs(x0.b().1 - y0.b().1);
-                if da < parameter_minimum_distance || db < parameter_minimum_distance {
+                if da < a_minimum_distance || db < b_minimum_distance {
                     // merge near parameter results
                     let group = [x, y].concat();
                     Ok(group)
diff --git a/src/intersects/mod.rs b/src/intersects/mod.rs
index a5b2f8b..897be46 100644
--- a/src/intersects/mod.rs
+++ b/src/intersects/mod.rs
@@ -7,6 +7,15 @@ pub use curve_curve::*;
 pub use has_intersection::*;
 pub use intersection::*;
 
+use crate::misc::FloatingPoint;
+
+/// Snap a parameter slightly outside of the domain due to rounding to its end
+pub(crate) fn snap_to_domain<T: FloatingPoint>(parameter: T, domain: (T, T)) -> Option<T> {
+    let tolerance = (domain.1 - domain.0) * T::default_epsilon().sqrt();
+    let snapped = nalgebra::RealField::clamp(parameter, domain.0, domain.1);
+    ((parameter - snapped).abs() <= tolerance).then_some(snapped)
+}
+
 /// Intersection between two objects trait
 pub trait Intersects<'a, T> {
     type Output;
-- 
2.43.0


From 3e7e1b61e66f3ff779723dd2a3b4db1c06894136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 25/48] fix: intersections at the joints of both compound
 curves are reported once

---
 .../intersection_compound_curve.rs            | 102 ++++++++++--------
 1 file changed, 56 insertions(+), 46 deletions(-)

diff --git a/src/intersects/curve_curve/intersection_compound_curve.rs b/src/intersects/curve_curve/intersection_compound_curve.rs
index 2a462b5..841770b 100644
--- a/src/intersects/curve_curve/intersection_compound_curve.rs
+++ b/src/intersects/curve_curve/intersection_compound_curve.rs
@@ -1,5 +1,4 @@
 use argmin::core::ArgminFloat;
-use itertools::Itertools;
 use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, U1};
 use num_traits::Float;
 
@@ -23,49 +22,12 @@ where
     type Option = Option<CurveIntersectionSolverOptions<T>>;
 
     /// Find the intersection points with another curve
-    #[allow(clippy::type_complexity)]
     fn find_intersections(
         &'a self,
         other: &'a NurbsCurve<T, D>,
         options: Self::Option,
     ) -> Self::Output {
-        let res: anyhow::Result<Vec<_>> = self
-            .spans()
-            .iter()
-            .map(|span| {
-                span.find_intersections(other, options.clone())
-                    .map(|intersections| {
-                        intersections
-                            .into_iter()
-                            .map(|it| CompoundCurveIntersection::new(span, other, it))
-                            .collect_vec()
-                    })
-            })
-            .collect();
-
-        let mut res = res?;
-        let eps = T::from_f64(1e-2).unwrap();
-
-        (0..res.len()).circular_tuple_windows().for_each(|(a, b)| {
-            if a != b {
-                let ia = res[a].last();
-                let ib = res[b].first();
-                let cull = match (ia, ib) {
-                    (Some(ia), Some(ib)) => {
-                        // cull the last point in res[a] if it is too close to the first point in res[b]
-                        let da = Float::abs(ia.a().0.knots_domain().1 - ia.a().2);
-                        let db = Float::abs(ib.a().0.knots_domain().0 - ib.a().2);
-                        da < eps && db < eps
-                    }
-                    _ => false,
-                };
-                if cull {
-                    res[a].pop();
-                }
-            }
-        });
-
-        Ok(res.into_iter().flatten().collect())
+        find_span_intersections(self.spans(), std::slice::from_ref(other), options)
     }
 }
 
@@ -80,20 +42,68 @@ where
     type Option = Option<CurveIntersectionSolverOptions<T>>;
 
     /// Find the intersection points with another compound curve
-    #[allow(clippy::type_complexity)]
     fn find_intersections(
         &'a self,
         other: &'a CompoundCurve<T, D>,
         options: Self::Option,
     ) -> Self::Output {
-        let res: anyhow::Result<Vec<_>> = other
-            .spans()
-            .iter()
-            .map(|span| self.find_intersections(span, options.clone()))
-            .collect();
+        find_span_intersections(self.spans(), other.spans(), options)
+    }
+}
+
+/// Find the intersections between all pairs of spans
+fn find_span_intersections<'a, T, D>(
+    a_spans: &'a [NurbsCurve<T, D>],
+    b_spans: &'a [NurbsCurve<T, D>],
+    options: Option<CurveIntersectionSolverOptions<T>>,
+) -> anyhow::Result<Vec<CompoundCurveIntersection<'a, T, D>>>
+where
+    T: FloatingPoint + ArgminFloat,
+    D: DimName + DimNameSub<U1>,
+    DefaultAllocator: Allocator<D>,
+    DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+{
+    // an intersection at a joint belongs to both of the joined spans
+    let eps = T::from_f64(1e-2).unwrap();
+    let joined = |spans: &[NurbsCurve<T, D>], (i, ti): (usize, T), (j, tj): (usize, T)| {
+        let n = spans.len();
+        let meets = |(head, th): (usize, T), (tail, tt): (usize, T)| {
+            let (_, end) = spans[head].knots_domain();
+            let (start, _) = spans[tail].knots_domain();
+            let tolerance = |curve: &NurbsCurve<T, D>| {
+                eps * nalgebra::RealField::min(curve.knots_domain_interval(), T::one())
+            };
+            head != tail
+                && (head + 1) % n == tail
+                && Float::abs(end - th) < tolerance(&spans[head])
+                && Float::abs(start - tt) < tolerance(&spans[tail])
+        };
+        meets((i, ti), (j, tj)) || meets((j, tj), (i, ti))
+    };
 
-        Ok(res?.into_iter().flatten().collect())
+    // distance between the contact points found from both sides of a joint,
+    // which is larger than the distance between the curves if they are tangent
+    let minimum_distance = options.clone().unwrap_or_default().minimum_distance;
+    let joint_distance = Float::sqrt(minimum_distance);
+
+    let mut found: Vec<(usize, usize, CompoundCurveIntersection<'a, T, D>)> = vec![];
+    for (ib, b) in b_spans.iter().enumerate() {
+        for (ia, a) in a_spans.iter().enumerate() {
+            for it in a.find_intersections(b, options.clone())? {
+                let it = CompoundCurveIntersection::new(a, b, it);
+                let duplicated = found.iter().any(|(ja, jb, other)| {
+                    (&it.a().1 - &other.a().1).norm() < joint_distance
+                        && (joined(a_spans, (ia, it.a().2), (*ja, other.a().2))
+                            || joined(b_spans, (ib, it.b().2), (*jb, other.b().2)))
+                });
+                if !duplicated {
+                    found.push((ia, ib, it));
+                }
+            }
+        }
     }
+
+    Ok(found.into_iter().map(|(_, _, it)| it).collect())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5061a955f88d2ca10af0f895b0d8cc9f2289d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 26/48] fix: surface-curve intersections are not lost by the
 solver and do not depend on the scale of parameters

---
 .../intersection_surface_curve.rs             | 119 +++++++++---------
 .../surface_curve_intersection_problem.rs     |  32 ++++-
 2 files changed, 88 insertions(+), 63 deletions(-)

diff --git a/src/intersects/surface_curve/intersection_surface_curve.rs b/src/intersects/surface_curve/intersection_surface_curve.rs
index 2db60c2..c84f963 100644
--- a/src/intersects/surface_curve/intersection_surface_curve.rs
+++ b/src/intersects/surface_curve/intersection_surface_curve.rs
@@ -3,8 +3,7 @@ use std::cmp::Ordering;
 use argmin::core::{ArgminFloat, Executor, State};
 use itertools::Itertools;
 use nalgebra::{
-    allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Matrix3, OPoint,
-    Vector3, U1,
+    allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, OPoint, Vector3, U1,
 };
 use num_traits::Float;
 
@@ -18,6 +17,8 @@ use crate::{
     surface::{NurbsSurface, UVDirection},
 };
 
+use crate::intersects::snap_to_domain;
+
 use super::{SurfaceCurveIntersectionBFGS, SurfaceCurveIntersectionProblem};
 
 impl<'a, T, D> Intersects<'a, &'a NurbsCurve<T, D>> for NurbsSurface<T, D>
@@ -80,70 +81,62 @@ where
 
         let intersections = traversed
             .into_pairs_iter()
-            .filter_map(|(a, b)| {
+            .flat_map(|(a, b)| {
                 let surface = a.surface_owned();
                 let curve = b.curve_owned();
-
-                let div = T::from_f64(0.5).unwrap();
-
-                let d = curve.knots_domain();
-                let curve_parameter = (d.0 + d.1) * div;
-
-                let (u, v) = surface.knots_domain();
-                let surface_parameter = ((u.0 + u.1) * div, (v.0 + v.1) * div);
-
-                let problem = SurfaceCurveIntersectionProblem::new(&surface, &curve);
-
-                // Define initial parameter vector
-                let init_param =
-                    Vector3::new(curve_parameter, surface_parameter.0, surface_parameter.1);
-
-                // Set up solver
-                let solver = SurfaceCurveIntersectionBFGS::<T>::new()
-                    .with_step_size_tolerance(options.step_size_tolerance)
-                    .with_cost_tolerance(options.cost_tolerance);
-
-                // Run solver
-                let res = Executor::new(problem, solver)
-                    .configure(|state| {
-                        state
-                            .param(init_param)
-                            .inv_hessian(Matrix3::identity())
-                            .max_iters(options.max_iters)
-                    })
-                    .run();
-
-                match res {
-                    Ok(r) => {
-                        // println!("{}", r.state().get_termination_status());
-                        r.state().get_best_param().and_then(|param| {
-                            if (surface_u_domain.0..=surface_u_domain.1).contains(&param.y)
-                                && (surface_v_domain.0..=surface_v_domain.1).contains(&param.z)
-                                && (curve_domain.0..=curve_domain.1).contains(&param.x)
-                            {
-                                let p0 = self.point_at(param.y, param.z);
-                                let p1 = other.point_at(param.x);
-                                Some(SurfaceCurveIntersection::new(
-                                    (p0, (param.y, param.z)),
-                                    (p1, param.x),
-                                ))
-                            } else {
-                                None
-                            }
+                let (du, dv) = surface.knots_domain();
+                let dt = curve.knots_domain();
+
+                let solve = |init_param: Vector3<T>| {
+                    let problem = SurfaceCurveIntersectionProblem::new(&surface, &curve);
+                    let init_inv_hessian = problem.approximate_inverse_hessian(&init_param);
+
+                    // Set up solver
+                    let solver = SurfaceCurveIntersectionBFGS::<T>::new()
+                        .with_step_size_tolerance(options.step_size_tolerance)
+                        .with_cost_tolerance(options.cost_tolerance);
+
+                    // Run solver
+                    let res = Executor::new(problem, solver)
+                        .configure(|state| {
+                            state
+                                .param(init_param)
+                                .hessian(init_inv_hessian)
+                                .max_iters(options.max_iters)
                         })
-                    }
-                    Err(_e) => {
-                        // println!("{}", e);
-                        None
+                        .run()
+                        .ok()?;
+
+                    let param = res.state().get_best_param()?;
+                    let t = snap_to_domain(param.x, curve_domain)?;
+                    let u = snap_to_domain(param.y, surface_u_domain)?;
+                    let v = snap_to_domain(param.z, surface_v_domain)?;
+                    let p0 = self.point_at(u, v);
+                    let p1 = other.point_at(t);
+
+                    // filter out pairs of points that are too far
+                    ((&p0 - &p1).norm() < options.minimum_distance)
+                        .then(|| SurfaceCurveIntersection::new((p0, (u, v)), (p1, t)))
+                };
+
+                // The solver can leave the pair of segments & converge to another intersection (or none),
+                // so start it from several places until it finds the intersection between the segments
+                let mut found = vec![];
+                for r in [0.5, 0., 1.] {
+                    let r = T::from_f64(r).unwrap();
+                    let at = |d: (T, T)| d.0 + (d.1 - d.0) * r;
+                    if let Some(it) = solve(Vector3::new(at(dt), at(du), at(dv))) {
+                        let (u, v) = it.a().1;
+                        let inside = (dt.0..=dt.1).contains(&it.b().1)
+                            && (du.0..=du.1).contains(&u)
+                            && (dv.0..=dv.1).contains(&v);
+                        found.push(it);
+                        if inside {
+                            break;
+                        }
                     }
                 }
-            })
-            .filter(|it| {
-                // filter out intersections that are too close
-                let p0 = &it.a().0;
-                let p1 = &it.b().0;
-                let d = (p0 - p1).norm();
-                d < options.minimum_distance
+                found
             })
             .collect_vec();
 
@@ -153,7 +146,9 @@ where
             .collect_vec();
 
         // group near parameter results & extract the closest one in each group
-        let parameter_minimum_distance = T::from_f64(1e-3).unwrap();
+        // shrink the distance for short domains
+        let parameter_minimum_distance = T::from_f64(1e-3).unwrap()
+            * nalgebra::RealField::min(curve_domain.1 - curve_domain.0, T::one());
         let groups = sorted
             .into_iter()
             .map(|pt| vec![pt])
diff --git a/src/intersects/surface_curve/surface_curve_intersection_problem.rs b/src/intersects/surface_curve/surface_curve_intersection_problem.rs
index 619a439..dbbec40 100644
--- a/src/intersects/surface_curve/surface_curve_intersection_problem.rs
+++ b/src/intersects/surface_curve/surface_curve_intersection_problem.rs
@@ -1,7 +1,8 @@
 use argmin::core::{CostFunction, Gradient};
 
 use nalgebra::{
-    allocator::Allocator, Const, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Vector3, U1,
+    allocator::Allocator, Const, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Matrix3,
+    Vector3, U1,
 };
 
 use crate::{curve::nurbs_curve::NurbsCurve, misc::FloatingPoint, surface::NurbsSurface};
@@ -26,6 +27,35 @@ where
     pub fn new(a: &'a NurbsSurface<T, D>, b: &'a NurbsCurve<T, D>) -> Self {
         SurfaceCurveIntersectionProblem { a, b }
     }
+
+    /// Approximate the inverse of the hessian by Gauss-Newton method,
+    /// so that the first step of the solver does not depend on the scale of the surface, the curve & their parameters.
+    pub fn approximate_inverse_hessian(&self, param: &SurfaceCurveParam<T>) -> Matrix3<T>
+    where
+        D: DimNameSub<U1>,
+        DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+    {
+        let dc = self.b.rational_derivatives(param.x, 1);
+        let ds = self.a.rational_derivatives(param.y, param.z, 1);
+        let (dt, du, dv) = (-&dc[1], &ds[1][0], &ds[0][1]);
+
+        let two = T::from_f64(2.).unwrap();
+        let (tt, uu, vv) = (dt.norm_squared(), du.norm_squared(), dv.norm_squared());
+        let (tu, tv, uv) = (dt.dot(du), dt.dot(dv), du.dot(dv));
+        let h = Matrix3::new(tt, tu, tv, tu, uu, uv, tv, uv, vv);
+        let scale = tt * uu * vv;
+        if h.determinant() > T::from_f64(1e-4).unwrap() * scale {
+            if let Some(inv) = h.try_inverse() {
+                return inv / two;
+            }
+        }
+        if scale > T::zero() {
+            // almost dependent
+            Matrix3::from_diagonal(&Vector3::new(tt, uu, vv).map(|d| T::one() / (d * two)))
+        } else {
+            Matrix3::identity()
+        }
+    }
 }
 
 impl<T: FloatingPoint, D: DimName> Gradient for SurfaceCurveIntersectionProblem<'_, T, D>
-- 
2.43.0


From 5f6dcbcbd42b98b697fd5ad6c41fcd273d1b48bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 27/48] fix: containment of points level with seams, joints and
 vertices

---
 src/contains/contains_compound_curve.rs |  31 ++---
 src/contains/contains_curve.rs          | 161 ++++++++++--------------
 2 files changed, 76 insertions(+), 116 deletions(-)

diff --git a/src/contains/contains_compound_curve.rs b/src/contains/contains_compound_curve.rs
index 1b43f01..a815e04 100644
--- a/src/contains/contains_compound_curve.rs
+++ b/src/contains/contains_compound_curve.rs
@@ -2,7 +2,7 @@ use argmin::core::ArgminFloat;
 use nalgebra::{Const, Point2};
 
 use crate::{
-    contains::contains_curve::x_ray_intersection,
+    contains::contains_curve::count_x_ray_crossings,
     misc::FloatingPoint,
     prelude::{BoundingBox, CurveIntersectionSolverOptions},
     region::CompoundCurve,
@@ -33,36 +33,29 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for CompoundCurve<T,
     fn contains(&self, point: &Point2<T>, option: Self::Option) -> anyhow::Result<bool> {
         // anyhow::ensure!(self.is_closed(), "Curve must be closed");
 
+        let minimum_distance = option
+            .map(|opt| opt.minimum_distance)
+            .unwrap_or(T::from_f64(1e-6).unwrap());
+
+        // points on the boundary can be slightly outside of the bounding box due to rounding
         let bb: BoundingBox<T, Const<2>> = self.into();
+        let bb = BoundingBox::new(
+            bb.min().add_scalar(-minimum_distance),
+            bb.max().add_scalar(minimum_distance),
+        );
         if !bb.contains(point) {
             return Ok(false);
         }
 
         let on_boundary = self
             .find_closest_point(point)
-            .map(|closest| {
-                let delta = closest - point;
-                let distance = delta.norm();
-                distance
-                    < option
-                        .as_ref()
-                        .map(|opt| opt.minimum_distance)
-                        .unwrap_or(T::from_f64(1e-6).unwrap())
-            })
+            .map(|closest| (closest - point).norm() < minimum_distance)
             .unwrap_or(false);
         if on_boundary {
             return Ok(true);
         }
 
-        let size = bb.size();
-        let sx = size.x * T::from_f64(2.).unwrap();
-        let intersections: anyhow::Result<Vec<_>> = self
-            .spans()
-            .iter()
-            .map(|span| x_ray_intersection(span, point, sx, option.clone()))
-            .collect();
-
-        let count = intersections?.iter().map(|its| its.len()).sum::<usize>();
+        let count = count_x_ray_crossings(self.spans(), point, minimum_distance)?;
         Ok(count % 2 == 1)
     }
 }
diff --git a/src/contains/contains_curve.rs b/src/contains/contains_curve.rs
index fcdfc0f..48128ec 100644
--- a/src/contains/contains_curve.rs
+++ b/src/contains/contains_curve.rs
@@ -1,16 +1,14 @@
-use std::cmp::Ordering;
+use std::borrow::Cow;
 
 use argmin::core::ArgminFloat;
 use itertools::Itertools;
-use nalgebra::{Const, Point2, Vector2, U3};
-use num_traits::Float;
+use nalgebra::{Const, Point2, U3};
 
 use crate::{
     curve::NurbsCurve,
     misc::FloatingPoint,
-    prelude::{
-        BoundingBox, BoundingBoxTraversal, CurveBoundingBoxTree, CurveIntersectionSolverOptions,
-    },
+    prelude::{BoundingBox, CurveIntersectionSolverOptions},
+    split::Split,
 };
 
 use super::Contains;
@@ -31,118 +29,87 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for NurbsCurve<T, Con
     fn contains(&self, point: &Point2<T>, option: Self::Option) -> anyhow::Result<bool> {
         anyhow::ensure!(self.is_closed(), "Curve must be closed");
 
+        let minimum_distance = option
+            .map(|opt| opt.minimum_distance)
+            .unwrap_or(T::from_f64(1e-6).unwrap());
+
+        // points on the boundary can be slightly outside of the bounding box due to rounding
         let bb: BoundingBox<T, Const<2>> = self.into();
+        let bb = BoundingBox::new(
+            bb.min().add_scalar(-minimum_distance),
+            bb.max().add_scalar(minimum_distance),
+        );
         if !bb.contains(point) {
             return Ok(false);
         }
 
         let on_boundary = self
             .find_closest_point(point)
-            .map(|closest| {
-                let delta = closest - point;
-                let distance = delta.norm();
-                distance
-                    < option
-                        .as_ref()
-                        .map(|opt| opt.minimum_distance)
-                        .unwrap_or(T::from_f64(1e-6).unwrap())
-            })
+            .map(|closest| (closest - point).norm() < minimum_distance)
             .unwrap_or(false);
         if on_boundary {
             return Ok(true);
         }
 
-        let size = bb.size();
-
-        // curve & ray intersections
-        match x_ray_intersection(self, point, size.x * T::from_f64(2.).unwrap(), option) {
-            Ok(its) => Ok(its.len() % 2 == 1),
-            Err(e) => Err(e),
-        }
+        let count = count_x_ray_crossings(std::slice::from_ref(self), point, minimum_distance)?;
+        Ok(count % 2 == 1)
     }
 }
 
-pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
-    curve: &NurbsCurve<T, U3>,
+/// Count the crossings between the closed boundary composed of the spans & the ray from the point in the x direction.
+/// Only the parity of the count is reliable because pairs of crossings in the same direction are not distinguished.
+pub(super) fn count_x_ray_crossings<T: FloatingPoint>(
+    spans: &[NurbsCurve<T, U3>],
     point: &Point2<T>,
-    ray_length: T,
-    option: Option<CurveIntersectionSolverOptions<T>>,
-) -> anyhow::Result<Vec<Point2<T>>> {
-    let option = option.unwrap_or_default();
-    let ray = NurbsCurve::polyline(&[*point, point + Vector2::x() * ray_length], true);
-    let ta = CurveBoundingBoxTree::new(
-        curve,
-        Some(curve.knots_domain_interval() / T::from_usize(option.knot_domain_division).unwrap()),
-    );
-    let tb = CurveBoundingBoxTree::new(
-        &ray,
-        Some(ray.knots_domain_interval() / T::from_usize(1).unwrap()),
-    );
-    let traversed = BoundingBoxTraversal::try_traverse(ta, tb)?;
+    minimum_distance: T,
+) -> anyhow::Result<usize> {
+    let is_above = |p: Point2<T>| point.y < p.y;
 
-    let mut intersections = traversed
-        .pairs()
+    // The end of a span takes over the side of the start of the next span,
+    // so that each crossing at a joint is counted exactly once regardless of rounding errors.
+    let sides = spans
         .iter()
-        .filter_map(|(item, _)| {
-            let curve = item.curve();
-            let (start, end) = curve.knots_domain();
-            let p_start = curve.point_at(start);
-            let p_end = curve.point_at(end);
-
-            if p_start.x < point.x && p_end.x < point.x {
-                return None;
-            }
-
-            let y_forward = match (point.y < p_start.y, point.y < p_end.y) {
-                (true, true) | (false, false) => {
-                    return None;
-                }
-                (false, true) => true,
-                (true, false) => false,
-            };
-
-            // binary search for the intersection
-            let mut min = start;
-            let mut max = end;
-            for _i in 0..option.max_iters {
-                let t = (min + max) / T::from_f64(2.).unwrap();
-                let p = curve.point_at(t);
-                let dy = p.y - point.y;
-
-                if Float::abs(dy) < option.minimum_distance {
-                    return Some((p, t));
-                }
-
-                let over = dy > T::zero();
-                let over = if y_forward { over } else { !over };
-                if over {
-                    max = t;
-                } else {
-                    min = t;
-                }
-            }
-
-            None
-        })
-        .filter(|(p, _)| point.x <= p.x)
+        .map(|span| is_above(span.point_at(span.knots_domain().0)))
         .collect_vec();
+    let mut stack = vec![];
+    for (i, span) in spans.iter().enumerate() {
+        let mut span = Cow::Borrowed(span);
+        if !span.is_clamped() {
+            // the bounding box of an unclamped curve does not shrink to the curve
+            span.to_mut().try_clamp()?;
+        }
+        stack.push((span, sides[i], sides[(i + 1) % sides.len()]));
+    }
 
-    intersections.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(Ordering::Equal));
+    let mut count = 0;
+    while let Some((curve, start, end)) = stack.pop() {
+        let bb: BoundingBox<T, Const<2>> = curve.as_ref().into();
+        let (min, max) = (bb.min(), bb.max());
+        let is_level = min.y <= point.y && point.y <= max.y;
+        if max.x < point.x || (start == end && !is_level) {
+            // never crosses the ray
+            continue;
+        }
 
-    let eps = option.minimum_distance;
-    let filtered = intersections
-        .into_iter()
-        .coalesce(|x, y| {
-            // merge intersections that are close
-            let dt = x.0 - y.0;
-            if dt.norm() < eps {
-                Ok(x)
-            } else {
-                Err((x, y))
+        let domain = curve.knots_domain();
+        let middle = (domain.0 + domain.1) / T::from_f64(2.).unwrap();
+        let is_dividable = domain.0 < middle && middle < domain.1;
+        if point.x < min.x {
+            // the whole segment is ahead of the point, so only the sides of its ends matter
+            if start != end {
+                count += 1;
             }
-        })
-        .map(|p| p.0)
-        .collect_vec();
+        } else if bb.size().norm() < minimum_distance || !is_dividable {
+            if start != end && point.x <= bb.center().x {
+                count += 1;
+            }
+        } else {
+            let (head, tail) = curve.try_split(middle)?;
+            let side = is_above(tail.point_at(middle));
+            stack.push((Cow::Owned(head), start, side));
+            stack.push((Cow::Owned(tail), side, end));
+        }
+    }
 
-    Ok(filtered)
+    Ok(count)
 }
-- 
2.43.0


From eed0059c52749a9096d6d7458889f0ee7fa92be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 28/48] fix: closest point on curves with kinks samples every
 knot span

---
 src/curve/nurbs_curve.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 08ab95f..3e5455b 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1674,7 +1674,27 @@ where
     {
         let (min_u, max_u) = self.knots_domain();
         let samples = self.control_points.len() * self.degree;
-        let pts = self.sample_regular_range_with_parameter(min_u, max_u, samples);
+
+        // sample every span separately not to cut the corners at the knots
+        let breaks = self
+            .knots
+            .iter()
+            .cloned()
+            .filter(|k| (min_u..=max_u).contains(k))
+            .dedup()
+            .collect_vec();
+        let divs = samples.div_ceil(breaks.len().saturating_sub(1).max(1)).max(1);
+        let mut pts = vec![(min_u, self.point_at(min_u))];
+        for (u0, u1) in breaks.iter().cloned().tuple_windows() {
+            pts.extend((1..=divs).map(|i| {
+                let u = if i == divs {
+                    u1
+                } else {
+                    u0 + (u1 - u0) * T::from_usize(i).unwrap() / T::from_usize(divs).unwrap()
+                };
+                (u, self.point_at(u))
+            }));
+        }
 
         let mut min = <T as RealField>::max_value().unwrap();
         let mut u = min_u;
-- 
2.43.0


From 65a6290006c4acab9a94683cf677a70ffcafa0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 29/48] fix: degenerate intersections of boolean operations do
 not depend on the scale of parameters

---
 src/boolean/degeneracies.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/boolean/degeneracies.rs b/src/boolean/degeneracies.rs
index c1de22b..588dba5 100644
--- a/src/boolean/degeneracies.rs
+++ b/src/boolean/degeneracies.rs
@@ -19,14 +19,15 @@ impl<T: FloatingPoint> Degeneracy<T> {
         a: &NurbsCurve<T, Const<3>>,
         b: &NurbsCurve<T, Const<3>>,
     ) -> Self {
-        let parameter_eps = T::from_f64(1e-4).unwrap();
+        // the neighborhood of the intersection is relative to the size of the knots domain
+        let neighborhood = |curve: &NurbsCurve<T, Const<3>>, t: T| {
+            let (start, end) = curve.knots_domain();
+            let eps = (end - start) * T::from_f64(1e-4).unwrap();
+            Line::new(curve.point_at(t - eps), curve.point_at(t + eps))
+        };
         let collinear_dot_threshold = T::from_f64(0.9975).unwrap();
-        let a0 = a.point_at(it.a_parameter() - parameter_eps);
-        let a1 = a.point_at(it.a_parameter() + parameter_eps);
-        let la = Line::new(a0, a1);
-        let b0 = b.point_at(it.b_parameter() - parameter_eps);
-        let b1 = b.point_at(it.b_parameter() + parameter_eps);
-        let lb = Line::new(b0, b1);
+        let la = neighborhood(a, it.a_parameter());
+        let lb = neighborhood(b, it.b_parameter());
         let intersected = la.intersects(&lb);
         if !intersected {
             Degeneracy::LineIntersection
-- 
2.43.0


From d51daa9c3dc3ec31bc0f6de763d941fce19168fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 30/48] fix: holes enclosed by a union are interiors of the
 region

---
 src/boolean/clip.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/boolean/clip.rs b/src/boolean/clip.rs
index fb04904..98064d2 100644
--- a/src/boolean/clip.rs
+++ b/src/boolean/clip.rs
@@ -103,6 +103,7 @@ where
         + EndPoints<T, U2>
         + Into<CompoundCurve<T, U3>>
         + TrimRange<T, U3>,
+    CompoundCurve<T, U3>: Contains<T, U2, Option = O>,
 {
     let deg = intersections
         .into_iter()
@@ -395,5 +396,23 @@ where
         }
     }
 
+    // a union of crossing curves is connected:
+    // the loop surrounding the others is the exterior & the others are holes
+    if operation == BooleanOperation::Union && regions.len() > 1 {
+        let mut loops = regions
+            .into_iter()
+            .map(|region| region.into_exterior())
+            .collect_vec();
+        let points = loops.iter().map(|l| l.first_point()).collect_vec();
+        let mut outer = 0;
+        for i in 1..loops.len() {
+            if loops[i].contains(&points[outer], option.clone())? {
+                outer = i;
+            }
+        }
+        let exterior = loops.remove(outer);
+        regions = vec![Region::new(exterior, loops)];
+    }
+
     Ok(Clip::new(regions, info))
 }
-- 
2.43.0


From 722196802bd2efa60b5e40c19095abc763b84200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 31/48] fix: boolean operations of regions with holes

---
 src/boolean/boolean_region.rs | 304 +++++++++++++++++++---------------
 1 file changed, 166 insertions(+), 138 deletions(-)

diff --git a/src/boolean/boolean_region.rs b/src/boolean/boolean_region.rs
index 89b24cb..17e47a2 100644
--- a/src/boolean/boolean_region.rs
+++ b/src/boolean/boolean_region.rs
@@ -1,5 +1,4 @@
 use argmin::core::ArgminFloat;
-use itertools::Itertools;
 use nalgebra::Const;
 use nalgebra::U3;
 
@@ -40,109 +39,8 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a CompoundCurve<T, U3>> for R
         other: &'a CompoundCurve<T, Const<3>>,
         option: Self::Option,
     ) -> Self::Output {
-        match operation {
-            BooleanOperation::Union => {
-                let exterior =
-                    self.exterior()
-                        .boolean(BooleanOperation::Union, other, option.clone())?;
-
-                let exterior = exterior
-                    .into_regions()
-                    .into_iter()
-                    .next()
-                    .map(|region| region.into_exterior())
-                    .ok_or(anyhow::anyhow!("No exterior region found"))?;
-
-                let interior_differences = self
-                    .interiors()
-                    .iter()
-                    .map(|interior| {
-                        interior.boolean(BooleanOperation::Difference, other, option.clone())
-                    })
-                    .collect::<anyhow::Result<Vec<_>>>()?;
-
-                let interiors = interior_differences
-                    .into_iter()
-                    .flat_map(|c| {
-                        c.into_regions()
-                            .into_iter()
-                            .map(|region| region.into_exterior())
-                    })
-                    .collect();
-
-                Ok(Clip::new(
-                    vec![Region::new(exterior, interiors)],
-                    Default::default(),
-                ))
-            }
-            BooleanOperation::Intersection => {
-                // difference other and interiors
-                let mut clip_regions: Vec<Region<T>> = vec![other.clone().into()];
-                for it in self.interiors().iter() {
-                    let mut next_clips = vec![];
-                    for clip in clip_regions.iter() {
-                        let c = clip.boolean(BooleanOperation::Difference, it, option.clone())?;
-                        let mut regions = c.into_regions();
-                        let mut interiors = clip.interiors().iter().cloned().collect_vec();
-                        distribute_interiors_to_regions(
-                            &mut regions,
-                            &mut interiors,
-                            option.clone(),
-                        )?;
-                        next_clips.extend(regions);
-                    }
-                    clip_regions = next_clips;
-                }
-
-                let regions = clip_regions
-                    .into_iter()
-                    .map(|clip_region| {
-                        let (ex, mut its) = clip_region.into_tuple();
-                        self.exterior()
-                            .boolean(BooleanOperation::Intersection, &ex, option.clone())
-                            .and_then(|clip| {
-                                let mut regions = clip.into_regions();
-                                distribute_interiors_to_regions(
-                                    &mut regions,
-                                    &mut its,
-                                    option.clone(),
-                                )?;
-                                Ok(regions)
-                            })
-                    })
-                    .collect::<anyhow::Result<Vec<_>>>()?
-                    .into_iter()
-                    .flatten()
-                    .collect();
-
-                Ok(Clip::new(regions, Default::default()))
-            }
-            BooleanOperation::Difference => {
-                // union other and interiors
-                let mut current_clip: CompoundCurve<T, U3> = other.clone();
-                let mut interiors = vec![];
-
-                for interior in self.interiors() {
-                    let union =
-                        current_clip.boolean(BooleanOperation::Union, interior, option.clone())?;
-                    let mut regions_iter = union.into_regions().into_iter();
-                    let head = regions_iter.next();
-                    if let Some(head) = head {
-                        current_clip = head.into_exterior();
-                    }
-                    regions_iter.for_each(|region| interiors.push(region.into_exterior()));
-                }
-
-                let clip = self.exterior().boolean(
-                    BooleanOperation::Difference,
-                    &current_clip,
-                    option.clone(),
-                )?;
-                let mut regions = clip.into_regions();
-                distribute_interiors_to_regions(&mut regions, &mut interiors, option.clone())?;
-                Ok(Clip::new(regions, Default::default()))
-            }
-        }
+        let region: Region<T> = other.clone().into();
+        self.boolean(operation, &region, option)
     }
 }
 
@@ -157,47 +55,177 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a Region<T>> for Region<T> {
         other: &'a Region<T>,
         option: Self::Option,
     ) -> Self::Output {
-        let clip = self.boolean(operation, other.exterior(), option.clone())?;
-        let mut regions = clip.into_regions();
-
-        for interior in other.interiors().iter() {
-            match operation {
-                BooleanOperation::Union | BooleanOperation::Intersection => {
-                    let clips = regions
-                        .iter()
-                        .map(|r| r.boolean(BooleanOperation::Difference, interior, option.clone()))
-                        .collect::<anyhow::Result<Vec<_>>>()?;
-                    regions = clips.into_iter().flat_map(|c| c.into_regions()).collect();
+        let regions = match operation {
+            BooleanOperation::Union => unite(self, other, &option)?,
+            BooleanOperation::Intersection => other.interiors().iter().try_fold(
+                intersect_curve(self, other.exterior(), &option)?,
+                |regions, interior| subtract_curve_from_all(regions, interior, &option),
+            )?,
+            BooleanOperation::Difference => subtract(self, other, &option)?,
+        };
+        Ok(Clip::new(regions, Default::default()))
+    }
+}
+
+type SolverOption<T> = Option<CurveIntersectionSolverOptions<T>>;
+
+/// The part of the region inside the curve
+fn intersect_curve<T: FloatingPoint + ArgminFloat>(
+    region: &Region<T>,
+    curve: &CompoundCurve<T, U3>,
+    option: &SolverOption<T>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    let pieces = region
+        .exterior()
+        .boolean(BooleanOperation::Intersection, curve, option.clone())?
+        .into_regions();
+    region
+        .interiors()
+        .iter()
+        .try_fold(pieces, |pieces, interior| {
+            subtract_curve_from_all(pieces, interior, option)
+        })
+}
+
+/// The part of the region outside the curve
+fn subtract_curve<T: FloatingPoint + ArgminFloat>(
+    region: &Region<T>,
+    curve: &CompoundCurve<T, U3>,
+    option: &SolverOption<T>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    let pieces = region
+        .exterior()
+        .boolean(BooleanOperation::Difference, curve, option.clone())?
+        .into_regions();
+
+    if pieces.iter().all(|piece| piece.interiors().is_empty()) {
+        return region
+            .interiors()
+            .iter()
+            .try_fold(pieces, |pieces, interior| {
+                subtract_curve_from_all(pieces, interior, option)
+            });
+    }
+
+    // the curve is a new hole: connect it with the holes overlapping it.
+    // areas enclosed by the connected holes stay in the result as islands.
+    let mut hole = curve.clone();
+    let mut holes = vec![];
+    let mut islands: Vec<Region<T>> = vec![];
+    for interior in region.interiors() {
+        islands = subtract_curve_from_all(islands, interior, option)?;
+
+        let mut union = hole
+            .boolean(BooleanOperation::Union, interior, option.clone())?
+            .into_regions();
+        let first = match union.pop() {
+            Some(first) if union.is_empty() => first,
+            _ => {
+                holes.push(interior.clone());
+                continue;
+            }
+        };
+
+        let (connected, enclosed) = first.into_tuple();
+        hole = connected;
+        for island in enclosed {
+            let mut pieces: Vec<Region<T>> = vec![island.clone().into()];
+            let mut outside = vec![];
+            for other in holes {
+                if island.contains(&other.first_point(), option.clone())? {
+                    pieces = subtract_curve_from_all(pieces, &other, option)?;
+                } else {
+                    outside.push(other);
                 }
-                BooleanOperation::Difference => {}
-            };
+            }
+            holes = outside;
+            islands.extend(pieces);
         }
+    }
 
-        Ok(Clip::new(regions, Default::default()))
+    holes.push(hole);
+    let mut regions = vec![Region::new(region.exterior().clone(), holes)];
+    regions.extend(islands);
+    Ok(regions)
+}
+
+/// The parts of the regions outside the curve
+fn subtract_curve_from_all<T: FloatingPoint + ArgminFloat>(
+    regions: Vec<Region<T>>,
+    curve: &CompoundCurve<T, U3>,
+    option: &SolverOption<T>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    let pieces = regions
+        .iter()
+        .map(|region| subtract_curve(region, curve, option))
+        .collect::<anyhow::Result<Vec<_>>>()?;
+    Ok(pieces.into_iter().flatten().collect())
+}
+
+/// The part of the region outside the other region:
+/// outside the exterior of the other or inside its interiors
+fn subtract<T: FloatingPoint + ArgminFloat>(
+    region: &Region<T>,
+    other: &Region<T>,
+    option: &SolverOption<T>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    let mut regions = subtract_curve(region, other.exterior(), option)?;
+    for interior in other.interiors() {
+        regions.extend(intersect_curve(region, interior, option)?);
     }
+    Ok(regions)
 }
 
-/// distribute the interiors into the regions that contain them
-fn distribute_interiors_to_regions<T: FloatingPoint + ArgminFloat>(
-    regions: &mut [Region<T>],
-    interiors: &mut Vec<CompoundCurve<T, U3>>,
-    option: Option<CurveIntersectionSolverOptions<T>>,
-) -> anyhow::Result<()> {
-    for region in regions.iter_mut() {
-        let n = interiors.len();
-        for i in (0..n).rev() {
-            let pt = interiors[i].first_point();
-            match region.exterior().contains(&pt, option.clone()) {
-                Ok(true) => {
-                    let it = interiors.remove(i);
-                    region.interiors_mut().push(it);
-                }
-                Ok(false) => {}
-                Err(e) => {
-                    return Err(e);
-                }
+/// The union of two regions
+fn unite<T: FloatingPoint + ArgminFloat>(
+    a: &Region<T>,
+    b: &Region<T>,
+    option: &SolverOption<T>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    let mut regions = a
+        .exterior()
+        .boolean(BooleanOperation::Union, b.exterior(), option.clone())?
+        .into_regions();
+
+    // the parts of interiors covered by neither of the regions
+    let mut holes = vec![];
+    for interior in a.interiors() {
+        holes.extend(subtract(&interior.clone().into(), b, option)?);
+    }
+    for interior in b.interiors() {
+        holes.extend(subtract_curve(
+            &interior.clone().into(),
+            a.exterior(),
+            option,
+        )?);
+    }
+
+    let (holes, islands): (Vec<_>, Vec<_>) =
+        holes.into_iter().map(|region| region.into_tuple()).unzip();
+    regions.extend(islands.into_iter().flatten().map(Region::from));
+
+    // every hole belongs to the innermost region surrounding it
+    for hole in holes {
+        let point = hole.first_point();
+        let mut surrounding: Option<usize> = None;
+        for (i, region) in regions.iter().enumerate() {
+            if !region.exterior().contains(&point, option.clone())? {
+                continue;
+            }
+            let inner = match surrounding {
+                Some(j) => regions[j]
+                    .exterior()
+                    .contains(&region.exterior().first_point(), option.clone())?,
+                None => true,
+            };
+            if inner {
+                surrounding = Some(i);
             }
         }
+        if let Some(i) = surrounding {
+            regions[i].interiors_mut().push(hole);
+        }
     }
-    Ok(())
+
+    Ok(regions)
 }
-- 
2.43.0


From d2b031e755473d512ab07712e8ad1dc9fa21306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 32/48] fix: trimmed surfaces are tessellated along their trims
 whatever the size and parameterization

---
 src/tessellation/trimmed_surface.rs | 141 +++++++++++++---------------
 1 file changed, 64 insertions(+), 77 deletions(-)

diff --git a/src/tessellation/trimmed_surface.rs b/src/tessellation/trimmed_surface.rs
index 6acf354..2c546c3 100644
--- a/src/tessellation/trimmed_surface.rs
+++ b/src/tessellation/trimmed_surface.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
 
+use super::adaptive_tessellation_node::evaluate_surface;
 use super::adaptive_tessellation_option::AdaptiveTessellationOptions;
 use super::surface_tessellation::SurfaceTessellation;
 use super::{ConstrainedTessellation, Tessellation};
@@ -26,8 +27,10 @@ impl<T: FloatingPoint> Vertex<T> {
         Self { point, normal, uv }
     }
 
-    pub fn point(&self) -> Point3<T> {
-        self.point
+    /// The vertex of the surface at the given parameter
+    pub fn on_surface(surface: &NurbsSurface3D<T>, uv: &Point2<T>) -> Self {
+        let (uv, point, normal) = evaluate_surface(surface, uv.coords).into_tuple();
+        Self::new(point, normal, uv)
     }
 }
 
@@ -87,12 +90,7 @@ fn trimmed_surface_adaptive_tessellate<T: FloatingPoint + SpadeNum>(
             let exterior = s.exterior().map(|curve| match constraints.exterior() {
                 Some(constraint) => constraint
                     .iter()
-                    .map(|t| {
-                        let uv = curve.point_at(*t);
-                        let p = s.surface().point_at(uv.x, uv.y);
-                        let n = s.surface().normal_at(uv.x, uv.y);
-                        Vertex::new(p, n, uv.coords)
-                    })
+                    .map(|t| Vertex::on_surface(s.surface(), &curve.point_at(*t)))
                     .collect_vec(),
                 None => tessellate_uv_curve_adaptive(curve, s.surface(), curve_tessellation_option),
             });
@@ -103,12 +101,7 @@ fn trimmed_surface_adaptive_tessellate<T: FloatingPoint + SpadeNum>(
                 .map(|(curve, constraint)| match constraint {
                     Some(constraint) => constraint
                         .iter()
-                        .map(|t| {
-                            let uv = curve.point_at(*t);
-                            let p = s.surface().point_at(uv.x, uv.y);
-                            let n = s.surface().normal_at(uv.x, uv.y);
-                            Vertex::new(p, n, uv.coords)
-                        })
+                        .map(|t| Vertex::on_surface(s.surface(), &curve.point_at(*t)))
                         .collect_vec(),
                     None => {
                         tessellate_uv_curve_adaptive(curve, s.surface(), curve_tessellation_option)
@@ -157,7 +150,8 @@ fn trimmed_surface_adaptive_tessellate<T: FloatingPoint + SpadeNum>(
     let insert_constraint = |t: &mut Tri<T>, vertices: &[Vertex<T>]| {
         let skip = if let (Some(first), Some(last)) = (vertices.first(), vertices.last()) {
             // if the input vertices are closed, skip the first vertex to avoid adding a duplicate constraint
-            if first.point() == last.point() {
+            let resolution = T::default_epsilon() * (first.uv.norm() + last.uv.norm());
+            if (first.uv - last.uv).norm() <= resolution {
                 1
             } else {
                 0
@@ -221,7 +215,8 @@ fn trimmed_surface_adaptive_tessellate<T: FloatingPoint + SpadeNum>(
 
             let (a, b) = (tri[1] - tri[0], tri[2] - tri[1]);
             let area = a.x * b.y - a.y * b.x;
-            if ComplexField::abs(area) < T::default_epsilon() {
+            let (aa, bb, cc) = (a.norm_squared(), b.norm_squared(), (a + b).norm_squared());
+            if ComplexField::abs(area) < T::default_epsilon() * aa.max(bb).max(cc) {
                 return None;
             }
 
@@ -269,48 +264,29 @@ fn tessellate_uv_curve_adaptive<T: FloatingPoint>(
     surface: &NurbsSurface3D<T>,
     tolerance: T,
 ) -> Vec<Vertex<T>> {
-    let degree = curve.degree();
-    match degree {
-        1 => {
-            // if the curve is a linear curve, should start tessellation from the knots
-            let knots = curve.knots();
-            let n = knots.len();
-
-            let pts = (1..n - 2).flat_map(|i| {
-                let evaluated = iterate_uv_curve_tessellation(
-                    curve,
-                    surface,
-                    knots[i],
-                    knots[i + 1],
-                    tolerance,
-                );
-                #[allow(clippy::iter_skip_zero)]
-                if i == 1 {
-                    evaluated.into_iter().skip(0)
-                } else {
-                    evaluated.into_iter().skip(1)
-                }
-            });
-
-            pts.map(|uv| {
-                let p = surface.point_at(uv.x, uv.y);
-                let n = surface.normal_at(uv.x, uv.y);
-                Vertex::new(p, n, uv.coords)
-            })
-            .collect_vec()
-        }
-        _ => {
-            let (start, end) = curve.knots_domain();
-            let pts = iterate_uv_curve_tessellation(curve, surface, start, end, tolerance);
-            pts.into_iter()
-                .map(|uv| {
-                    let p = surface.point_at(uv.x, uv.y);
-                    let n = surface.normal_at(uv.x, uv.y);
-                    Vertex::new(p, n, uv.coords)
-                })
-                .collect_vec()
-        }
-    }
+    // a curve may bend sharply at its knots, so start from its knot spans
+    let (start, end) = curve.knots_domain();
+    let mut knots = vec![start];
+    knots.extend(
+        curve
+            .knots()
+            .iter()
+            .copied()
+            .filter(|k| start < *k && *k < end)
+            .dedup(),
+    );
+    knots.push(end);
+
+    knots
+        .windows(2)
+        .enumerate()
+        .flat_map(|(i, span)| {
+            iterate_uv_curve_tessellation(curve, surface, span[0], span[1], tolerance)
+                .into_iter()
+                .skip(if i == 0 { 0 } else { 1 })
+        })
+        .map(|uv| Vertex::on_surface(surface, &uv))
+        .collect_vec()
 }
 
 fn iterate_uv_curve_tessellation<T: FloatingPoint>(
@@ -320,33 +296,44 @@ fn iterate_uv_curve_tessellation<T: FloatingPoint>(
     end: T,
     normal_tolerance: T,
 ) -> Vec<Point2<T>> {
-    let (p1, n1) = curve.point_tangent_at(start);
+    let p1 = curve.point_at(start);
+    let p3 = curve.point_at(end);
     let delta = end - start;
-    if delta < T::from_f64(1e-8).unwrap() {
-        return vec![p1];
+    let (d0, d1) = curve.knots_domain();
+    if delta < (d1 - d0) * T::from_f64(1e-8).unwrap() {
+        return vec![p1, p3];
     }
 
     let exact_mid = start + (end - start) * T::from_f64(0.5).unwrap();
-    let (p2, n2) = curve.point_tangent_at(exact_mid);
-    let (p3, n3) = curve.point_tangent_at(end);
 
+    // The curve may bend sharply at the ends & the surface may be degenerate there,
+    // so compare the directions just inside of them.
+    let inset = delta * T::from_f64(1e-3).unwrap();
+    let parameters = [start + inset, exact_mid, end - inset];
+    let is_bent = |v: [Vector3<T>; 3]| {
+        let diff = v[1] - v[0];
+        let diff2 = v[2] - v[1];
+        (diff - diff2).norm() > normal_tolerance
+    };
+
+    let (u_size, v_size) = surface.knots_domain_interval();
+    let domain_size = Vector2::new(u_size, v_size);
     let flag = {
-        if curve.degree() == 1 {
-            // if the curve is a linear curve, we don't need to tessellate it by normal
-            false
+        // if the curve is a linear curve, we don't need to tessellate it by normal
+        curve.degree() != 1
+            && is_bent(parameters.map(|t| {
+                // measure directions relative to the domain of the surface
+                let d = curve.tangent_at(t).component_div(&domain_size);
+                d.try_normalize(T::zero()).unwrap_or(d).push(T::zero())
+            }))
+    } || is_bent(parameters.map(|t| {
+        let point = evaluate_surface(surface, curve.point_at(t).coords);
+        if point.is_normal_degenerated() {
+            Vector3::zeros()
         } else {
-            let diff = n2 - n1;
-            let diff2 = n3 - n2;
-            (diff - diff2).norm() > normal_tolerance
+            point.normal
         }
-    } || {
-        let sn1 = surface.normal_at(p1.x, p1.y);
-        let sn2 = surface.normal_at(p2.x, p2.y);
-        let sn3 = surface.normal_at(p3.x, p3.y);
-        let diff = sn2 - sn1;
-        let diff2 = sn3 - sn2;
-        (diff - diff2).norm() > normal_tolerance
-    };
+    }));
     if flag {
         let mut left_pts =
             iterate_uv_curve_tessellation(curve, surface, start, exact_mid, normal_tolerance);
-- 
2.43.0


From 452c14ab1f7bb53b67a6c81748e9b4b7665df96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 33/48] fix: projecting a trim reaches the surface along any
 direction

---
 src/surface/trimmed_surface.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/surface/trimmed_surface.rs b/src/surface/trimmed_surface.rs
index c7a89e6..65411d8 100644
--- a/src/surface/trimmed_surface.rs
+++ b/src/surface/trimmed_surface.rs
@@ -1,7 +1,7 @@
 use std::cmp::Ordering;
 
 use argmin::core::ArgminFloat;
-use nalgebra::{ComplexField, Matrix3, Matrix4, Point3, Vector3, U3};
+use nalgebra::{Matrix3, Matrix4, Point3, Vector3, U3};
 
 use crate::{
     curve::{NurbsCurve2D, NurbsCurve3D},
@@ -125,10 +125,12 @@ fn try_project_curve<T: FloatingPoint + ArgminFloat>(
 ) -> anyhow::Result<NurbsCurve2D<T>> {
     let b0: BoundingBox<T, U3> = surface.into();
     let b1: BoundingBox<T, U3> = curve.into();
-    let l0 = ComplexField::abs(b0.size().dot(direction));
-    let l1 = ComplexField::abs(b1.size().dot(direction));
-    let ray_length = (b0.center() - b1.center()).norm() + l0 + l1;
-    let offset = direction * T::one();
+    let direction = direction
+        .try_normalize(T::zero())
+        .ok_or_else(|| anyhow::anyhow!("The direction of a projection must not vanish"))?;
+    // long enough to reach any point of the surface from any control point
+    let ray_length = (b0.center() - b1.center()).norm() + b0.size().norm() + b1.size().norm();
+    let offset = direction;
     let weights = curve.weights();
     let pts = curve
         .dehomogenized_control_points()
-- 
2.43.0


From f81f78a2adae605bbbd2c198f0b5e32861c0c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 34/48] fix: reading a trimmed surface reports a damaged
 exterior instead of dropping it

---
 src/surface/trimmed_surface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/trimmed_surface.rs b/src/surface/trimmed_surface.rs
index 65411d8..73475e9 100644
--- a/src/surface/trimmed_surface.rs
+++ b/src/surface/trimmed_surface.rs
@@ -323,7 +323,7 @@ where
                             if exterior.is_some() {
                                 return Err(de::Error::duplicate_field("exterior"));
                             }
-                            exterior = map.next_value().ok();
+                            exterior = Some(map.next_value()?);
                         }
                         Field::Interiors => {
                             if interiors.is_some() {
@@ -336,7 +336,7 @@ where
 
                 Ok(Self::Value {
                     surface: surface.ok_or_else(|| de::Error::missing_field("surface"))?,
-                    exterior,
+                    exterior: exterior.flatten(),
                     interiors: interiors.ok_or_else(|| de::Error::missing_field("interiors"))?,
                 })
             }
-- 
2.43.0


From bc6b7e5f864917142dad0e296e237e1ad6ce873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 35/48] fix: curve tessellation stays within the tolerance of
 the curve

---
 src/tessellation/tessellation_curve.rs | 64 ++++++++++++++++++++------
 1 file changed, 51 insertions(+), 13 deletions(-)

diff --git a/src/tessellation/tessellation_curve.rs b/src/tessellation/tessellation_curve.rs
index 7a446a2..0ece7cd 100644
--- a/src/tessellation/tessellation_curve.rs
+++ b/src/tessellation/tessellation_curve.rs
@@ -1,3 +1,4 @@
+use itertools::Itertools;
 use nalgebra::{
     allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, OPoint, U1,
 };
@@ -5,7 +6,7 @@ use rand::{rngs::ThreadRng, Rng};
 
 use crate::{
     curve::NurbsCurve,
-    misc::{three_points_are_flat, FloatingPoint},
+    misc::{segment_closest_point, three_points_are_flat, FloatingPoint},
 };
 
 use super::Tessellation;
@@ -20,6 +21,7 @@ where
     type Output = Vec<OPoint<T, DimNameDiff<D, U1>>>;
     /// Tessellate the curve using an adaptive algorithm
     /// this `adaptive` means that the curve will be tessellated based on the curvature of the curve
+    /// so that the distance between the curve and the tessellated points stays within the tolerance
     fn tessellate(&self, tolerance: Self::Option) -> Self::Output {
         if self.degree() == 1 {
             return self.dehomogenized_control_points();
@@ -28,7 +30,27 @@ where
         let mut rng = rand::rng();
         let tol = tolerance.unwrap_or(T::from_f64(1e-3).unwrap());
         let (start, end) = self.knots_domain();
-        tessellate_adaptive(self, start, end, tol, &mut rng)
+
+        // start from the knot spans, each of which is a single polynomial
+        let mut knots = vec![start];
+        knots.extend(
+            self.knots()
+                .iter()
+                .copied()
+                .filter(|k| start < *k && *k < end)
+                .dedup(),
+        );
+        knots.push(end);
+
+        let min_delta = (end - start) * T::from_f64(1e-8).unwrap();
+        let mut pts = vec![];
+        for span in knots.windows(2) {
+            pts.pop();
+            pts.extend(tessellate_adaptive(
+                self, span[0], span[1], tol, min_delta, &mut rng,
+            ));
+        }
+        pts
     }
 }
 
@@ -39,6 +61,7 @@ fn tessellate_adaptive<T: FloatingPoint, D>(
     start: T,
     end: T,
     tol: T,
+    min_delta: T,
     rng: &mut ThreadRng,
 ) -> Vec<OPoint<T, DimNameDiff<D, U1>>>
 where
@@ -47,25 +70,40 @@ where
     DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
 {
     let p1 = curve.point_at(start);
+    let p3 = curve.point_at(end);
     let delta = end - start;
-    if delta < T::from_f64(1e-8).unwrap() {
-        return vec![p1];
+    if delta < min_delta {
+        return vec![p1, p3];
     }
 
-    let p3 = curve.point_at(end);
-
     let t = 0.5_f64 + 0.2_f64 * rng.random::<f64>();
     let mid = start + delta * T::from_f64(t).unwrap();
     let p2 = curve.point_at(mid);
 
-    let diff = &p1 - &p3;
-    let diff2 = &p1 - &p2;
-    if (diff.dot(&diff) < tol && diff2.dot(&diff2) > tol)
-        || !three_points_are_flat(&p1, &p2, &p3, tol)
-    {
+    let is_close = |p: &OPoint<T, DimNameDiff<D, U1>>| {
+        let (_, q) = segment_closest_point(p, &p1, &p3, start, end);
+        (p - q).norm() <= tol
+    };
+    let degree = curve.degree();
+    let ratio = |i: usize| T::from_usize(i).unwrap() / T::from_usize(degree).unwrap();
+
+    // the first & last inner control points of the piece in bezier form,
+    // which tell whether it turns back at its ends (where the curve may bend sharply)
+    let inset = delta * T::from_f64(1e-6).unwrap();
+    let head = &p1 + curve.tangent_at(start + inset) * delta * ratio(1);
+    let tail = &p3 - curve.tangent_at(end - inset) * delta * ratio(1);
+
+    // the departure of a piece from its chord is determined by as many points as its degree
+    let is_flat = three_points_are_flat(&p1, &p2, &p3, tol)
+        && is_close(&p2)
+        && is_close(&head)
+        && is_close(&tail)
+        && (1..degree).all(|i| is_close(&curve.point_at(start + delta * ratio(i))));
+
+    if !is_flat {
         let exact_mid = start + (end - start) * T::from_f64(0.5).unwrap();
-        let mut left_pts = tessellate_adaptive(curve, start, exact_mid, tol, rng);
-        let right_pts = tessellate_adaptive(curve, exact_mid, end, tol, rng);
+        let mut left_pts = tessellate_adaptive(curve, start, exact_mid, tol, min_delta, rng);
+        let right_pts = tessellate_adaptive(curve, exact_mid, end, tol, min_delta, rng);
         left_pts.pop();
         [left_pts, right_pts].concat()
     } else {
-- 
2.43.0


From 326f78243ed964eedce570c4f2f3b9df65750a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 36/48] fix: triangulation skips slivers relative to their size

---
 src/misc/trigonometry.rs                | 11 ++++++++++-
 src/tessellation/tessellation_region.rs |  8 +++-----
 src/tessellation/trimmed_surface.rs     |  9 +++------
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/misc/trigonometry.rs b/src/misc/trigonometry.rs
index 7741da4..00c8d91 100644
--- a/src/misc/trigonometry.rs
+++ b/src/misc/trigonometry.rs
@@ -1,4 +1,4 @@
-use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, OPoint, RealField};
+use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, OPoint, Point2, RealField};
 
 pub fn three_points_are_flat<T: RealField + Copy, D: DimName>(
     p1: &OPoint<T, D>,
@@ -20,6 +20,15 @@ where
     }
 }
 
+/// Check if a triangle has no area but that of the rounding of its vertices
+pub(crate) fn is_sliver<T: RealField + Copy>(tri: [&Point2<T>; 3]) -> bool {
+    let (a, b) = (tri[1] - tri[0], tri[2] - tri[1]);
+    let area = (a.x * b.y - a.y * b.x).abs();
+    let edge = a.norm().max(b.norm()).max((a + b).norm());
+    let size = tri.iter().fold(edge, |size, p| size.max(p.coords.amax()));
+    area <= T::default_epsilon() * T::from_f64(4.).unwrap() * edge * size
+}
+
 /// Find the closest point on a segment
 /// * `pt` - point to project
 /// * `start` - start point of segment
diff --git a/src/tessellation/tessellation_region.rs b/src/tessellation/tessellation_region.rs
index 5effa27..4e3980f 100644
--- a/src/tessellation/tessellation_region.rs
+++ b/src/tessellation/tessellation_region.rs
@@ -1,14 +1,14 @@
 use std::collections::HashMap;
 
 use itertools::Itertools;
-use nalgebra::{ComplexField, Const, Point2};
+use nalgebra::{Const, Point2};
 use spade::{
     handles::FixedVertexHandle, ConstrainedDelaunayTriangulation, Point2 as SP2, SpadeNum,
     Triangulation,
 };
 
 use crate::{
-    misc::{FloatingPoint, PolygonBoundary},
+    misc::{is_sliver, FloatingPoint, PolygonBoundary},
     prelude::{Contains, PolygonMesh},
     region::Region,
 };
@@ -92,9 +92,7 @@ impl<T: FloatingPoint + SpadeNum> Tessellation for Region<T> {
                     .map(|p| Point2::new(p.x, p.y))
                     .collect_vec();
 
-                let (a, b) = (tri[1] - tri[0], tri[2] - tri[1]);
-                let area = a.x * b.y - a.y * b.x;
-                if ComplexField::abs(area) < T::default_epsilon() {
+                if is_sliver([&tri[0], &tri[1], &tri[2]]) {
                     return None;
                 }
 
diff --git a/src/tessellation/trimmed_surface.rs b/src/tessellation/trimmed_surface.rs
index 2c546c3..3cbb57b 100644
--- a/src/tessellation/trimmed_surface.rs
+++ b/src/tessellation/trimmed_surface.rs
@@ -6,10 +6,11 @@ use super::surface_tessellation::SurfaceTessellation;
 use super::{ConstrainedTessellation, Tessellation};
 use itertools::Itertools;
 use nalgebra::Vector2;
-use nalgebra::{ComplexField, Point2, Point3, Vector3};
+use nalgebra::{Point2, Point3, Vector3};
 use spade::{ConstrainedDelaunayTriangulation, HasPosition, SpadeNum, Triangulation};
 
 use crate::curve::NurbsCurve2D;
+use crate::misc::is_sliver;
 use crate::misc::FloatingPoint;
 use crate::misc::PolygonBoundary;
 use crate::prelude::{Contains, SurfaceTessellation3D, TrimmedSurfaceConstraints};
@@ -212,11 +213,7 @@ fn trimmed_surface_adaptive_tessellate<T: FloatingPoint + SpadeNum>(
             let vs = f.vertices();
 
             let tri = vs.iter().map(|v| v.as_ref()).map(|p| p.uv).collect_vec();
-
-            let (a, b) = (tri[1] - tri[0], tri[2] - tri[1]);
-            let area = a.x * b.y - a.y * b.x;
-            let (aa, bb, cc) = (a.norm_squared(), b.norm_squared(), (a + b).norm_squared());
-            if ComplexField::abs(area) < T::default_epsilon() * aa.max(bb).max(cc) {
+            if is_sliver([&tri[0].into(), &tri[1].into(), &tri[2].into()]) {
                 return None;
             }
 
-- 
2.43.0


From 5c6b48ca28c611bf09cee8b3a89f94ff5453b017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 37/48] fix: rays are parallel by their angle, not by the
 magnitude of their directions

---
 src/misc/ray.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/misc/ray.rs b/src/misc/ray.rs
index 923e127..7ea3723 100644
--- a/src/misc/ray.rs
+++ b/src/misc/ray.rs
@@ -52,8 +52,10 @@ where
         let dbb = other.direction().dot(&other.direction);
         let div = daa * dbb - dab * dab;
 
-        // The rays are parallel.
-        if div.abs() < T::default_epsilon() {
+        // The rays are parallel: the squared sine of the angle between them
+        // vanishes up to the rounding of the products above.
+        let tolerance = T::default_epsilon() * T::from_usize(8).unwrap();
+        if div.abs() <= tolerance * daa * dbb {
             return None;
         }
 
-- 
2.43.0


From 76d88a9ce1d9d956809cee9e87dc9efc63fca2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 38/48] fix: frames along a curve stay orthonormal, and an
 empty parameter list has none

---
 src/curve/nurbs_curve.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 3e5455b..996069e 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1888,6 +1888,10 @@ impl<T: FloatingPoint> NurbsCurve3D<T> {
             .iter()
             .map(|u| self.tangent_at(*u).normalize())
             .collect();
+        if tangents.is_empty() {
+            return vec![];
+        }
+
         let mut normals = vec![Vector3::zeros()];
         let mut binormals = vec![Vector3::zeros()];
 
@@ -1916,19 +1920,20 @@ impl<T: FloatingPoint> NurbsCurve3D<T> {
         for i in 1..parameters.len() {
             let prev_normal = &normals[i - 1];
 
-            let v = tangents[i - 1].cross(&tangents[i]).normalize();
-            if v.norm() > T::default_epsilon() {
-                let theta = tangents[i - 1]
-                    .dot(&tangents[i])
-                    .clamp(-T::one(), T::one())
-                    .acos();
+            let v = tangents[i - 1].cross(&tangents[i]);
+            let sin = v.norm();
+            let normal = if sin > T::default_epsilon().sqrt() {
+                let theta = sin.atan2(tangents[i - 1].dot(&tangents[i]));
                 let rot = Rotation3::from_axis_angle(&UnitVector3::new_normalize(v), theta);
-                normals.push(rot * prev_normal);
+                rot * prev_normal
             } else {
-                normals.push(*prev_normal);
-            }
+                *prev_normal
+            };
 
-            binormals.push(tangents[i].cross(&normals[i]).normalize());
+            // the frames would otherwise accumulate the rounding of every step
+            let binormal = tangents[i].cross(&normal).normalize();
+            normals.push(binormal.cross(&tangents[i]));
+            binormals.push(binormal);
         }
 
         parameters
-- 
2.43.0


From 2066b8674885879138be5773f4f37a2c7d9ff019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 39/48] fix: adaptive tessellation stops where the parameter or
 the coordinates cannot be resolved

---
 src/tessellation/tessellation_curve.rs | 12 ++++++++++--
 src/tessellation/trimmed_surface.rs    |  6 +++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/tessellation/tessellation_curve.rs b/src/tessellation/tessellation_curve.rs
index 0ece7cd..c4c8a55 100644
--- a/src/tessellation/tessellation_curve.rs
+++ b/src/tessellation/tessellation_curve.rs
@@ -31,6 +31,13 @@ where
         let tol = tolerance.unwrap_or(T::from_f64(1e-3).unwrap());
         let (start, end) = self.knots_domain();
 
+        // the points cannot be told apart below the resolution of their coordinates
+        let magnitude = self
+            .dehomogenized_control_points()
+            .iter()
+            .fold(T::zero(), |m, p| m.max(p.coords.amax()));
+        let tol = tol.max(magnitude * T::default_epsilon() * T::from_usize(16).unwrap());
+
         // start from the knot spans, each of which is a single polynomial
         let mut knots = vec![start];
         knots.extend(
@@ -72,7 +79,9 @@ where
     let p1 = curve.point_at(start);
     let p3 = curve.point_at(end);
     let delta = end - start;
-    if delta < min_delta {
+    let exact_mid = start + delta * T::from_f64(0.5).unwrap();
+    // the parameter cannot be resolved any further
+    if delta <= min_delta || exact_mid <= start || end <= exact_mid {
         return vec![p1, p3];
     }
 
@@ -101,7 +110,6 @@ where
         && (1..degree).all(|i| is_close(&curve.point_at(start + delta * ratio(i))));
 
     if !is_flat {
-        let exact_mid = start + (end - start) * T::from_f64(0.5).unwrap();
         let mut left_pts = tessellate_adaptive(curve, start, exact_mid, tol, min_delta, rng);
         let right_pts = tessellate_adaptive(curve, exact_mid, end, tol, min_delta, rng);
         left_pts.pop();
diff --git a/src/tessellation/trimmed_surface.rs b/src/tessellation/trimmed_surface.rs
index 3cbb57b..a15dca1 100644
--- a/src/tessellation/trimmed_surface.rs
+++ b/src/tessellation/trimmed_surface.rs
@@ -297,12 +297,12 @@ fn iterate_uv_curve_tessellation<T: FloatingPoint>(
     let p3 = curve.point_at(end);
     let delta = end - start;
     let (d0, d1) = curve.knots_domain();
-    if delta < (d1 - d0) * T::from_f64(1e-8).unwrap() {
+    let exact_mid = start + delta * T::from_f64(0.5).unwrap();
+    // the parameter cannot be resolved any further
+    if delta <= (d1 - d0) * T::from_f64(1e-8).unwrap() || exact_mid <= start || end <= exact_mid {
         return vec![p1, p3];
     }
 
-    let exact_mid = start + (end - start) * T::from_f64(0.5).unwrap();
-
     // The curve may bend sharply at the ends & the surface may be degenerate there,
     // so compare the directions just inside of them.
     let inset = delta * T::from_f64(1e-3).unwrap();
-- 
2.43.0


From 69ac8e774ac8fdf3739893f0b2d012848bb0e253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 40/48] fix: bounding box trees do not divide spans too narrow
 to place a parameter in

---
 src/bounding_box/curve_bounding_box_tree.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bounding_box/curve_bounding_box_tree.rs b/src/bounding_box/curve_bounding_box_tree.rs
index 33c5e64..8fd37e8 100644
--- a/src/bounding_box/curve_bounding_box_tree.rs
+++ b/src/bounding_box/curve_bounding_box_tree.rs
@@ -52,7 +52,16 @@ where
 {
     /// Check if the curve is dividable or not.
     fn is_dividable(&self) -> bool {
-        let interval = self.curve.knots_domain_interval();
+        let (min, max) = self.curve.knots_domain();
+        let interval = max - min;
+
+        // Avoid dividing a span that is too narrow to place a parameter inside of it.
+        let resolution =
+            min.abs().max(max.abs()) * T::default_epsilon() * T::from_usize(16).unwrap();
+        if interval <= resolution {
+            return false;
+        }
+
         interval > self.tolerance || {
             match self.curve.degree() {
                 1 => {
-- 
2.43.0


From 2683db2d78257862e4e62c300486b326ec3c358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 41/48] fix: division by length keeps its tolerance small
 against the length

---
 src/curve/nurbs_curve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 996069e..1db6f06 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -575,8 +575,10 @@ where
         let mut acc_prev = T::zero();
 
         let gauss = GaussLegendre::new(16 + self.degree)?;
-        let eps = T::from_f64(1e-6).unwrap();
-        let tolerance = T::from_f64(1e-3 * 2.5).unwrap();
+        // the tolerances must stay small against the length to divide by
+        let scale = length.min(T::one());
+        let eps = scale * T::from_f64(1e-6).unwrap();
+        let tolerance = scale * T::from_f64(1e-3 * 2.5).unwrap();
 
         while i < segments.len() {
             let current_length = lengthes[i];
-- 
2.43.0


From 42a41b41b2a22fdb1e1565e03b6f9d0699763009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 42/48] fix: periodic interpolation reports nearly singular
 systems

---
 src/curve/nurbs_curve.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 1db6f06..87a9a58 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -2222,7 +2222,7 @@ fn try_solve_interpolation<T: FloatingPoint>(
     let n = points.len();
     let dim = points[0].len();
 
-    let lu = m_a.lu();
+    let lu = m_a.clone().lu();
     let mut m_x = DMatrix::<T>::identity(n, dim);
     let rows = m_x.nrows();
     for i in 0..dim {
@@ -2230,6 +2230,15 @@ fn try_solve_interpolation<T: FloatingPoint>(
         let b = DVector::from_vec(b);
         // println!("b = {:?}", &b);
         let xs = lu.solve(&b).ok_or(anyhow::anyhow!("Solve failed"))?;
+
+        // a (nearly) singular system yields control points that miss the points
+        let residual = (&m_a * &xs - &b).amax();
+        if !xs.iter().all(|x| x.is_finite())
+            || residual > b.amax() * T::default_epsilon().sqrt()
+        {
+            anyhow::bail!("Solve failed");
+        }
+
         for j in 0..rows {
             m_x[(j, i)] = xs[j];
         }
-- 
2.43.0


From 73ef6fcc2d21163c5006eff542be60a855a6a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 43/48] fix: a single regular sample of a curve is at its start

---
 src/curve/nurbs_curve.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 87a9a58..60f310d 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -214,8 +214,9 @@ where
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
     {
         let mut points = vec![];
-        let us = T::from_usize(samples).unwrap();
-        let step = (end - start) / (us - T::one());
+        // a single sample is at the start
+        let divs = T::from_usize(samples.saturating_sub(1).max(1)).unwrap();
+        let step = (end - start) / divs;
         for i in 0..samples {
             let t = start + T::from_usize(i).unwrap() * step;
             points.push(self.point_at(t));
@@ -237,8 +238,9 @@ where
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
     {
         let mut points = vec![];
-        let us = T::from_usize(samples).unwrap();
-        let step = (end - start) / (us - T::one());
+        // a single sample is at the start
+        let divs = T::from_usize(samples.saturating_sub(1).max(1)).unwrap();
+        let step = (end - start) / divs;
         for i in 0..samples {
             let t = start + T::from_usize(i).unwrap() * step;
             points.push((t, self.point_at(t)));
-- 
2.43.0


From a3b840bde0f614fbc62e4ad559ecd4d779ea33c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 44/48] fix: boolean operations leave no pieces of no length
 behind

---
 src/boolean/clip.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/boolean/clip.rs b/src/boolean/clip.rs
index 98064d2..a11a4cc 100644
--- a/src/boolean/clip.rs
+++ b/src/boolean/clip.rs
@@ -387,6 +387,14 @@ where
             spans.extend(trimmed);
         }
 
+        // a range from or to the seam of a closed curve leaves a piece of no length behind,
+        // which is below the resolution of the parameters of the connected pieces
+        let resolution = spans.iter().fold(T::one(), |m, span| {
+            let (d0, d1) = span.knots_domain();
+            m + (d1 - d0).max(d0.abs()).max(d1.abs())
+        }) * T::default_epsilon();
+        spans.retain(|span| span.knots_domain_interval() > resolution);
+
         if !spans.is_empty() {
             spans.iter().for_each(|span| {
                 info.add_span(span.clone());
-- 
2.43.0


From 4c6ba32d440bbc5c52c88a8a8e938debad76fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:53 +0000
Subject: [PATCH 45/48] fix: closest point on a surface gets stuck at a pole

---
 src/surface/nurbs_surface.rs | 43 ++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 3a8ff88..7a6b4e6 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -937,7 +937,7 @@ where
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
         T: ArgminFloat,
     {
-        let mut uv = Vector2::new(self.u_knots_domain().0, self.v_knots_domain().0);
+        let mut nearest = 0;
         let mut min_dist = T::infinity();
 
         /*
@@ -962,7 +962,7 @@ where
             let d = d.norm_squared();
             if d < min_dist {
                 min_dist = d;
-                uv = tess.uvs()[i];
+                nearest = i;
             }
         });
         // println!("Initial guess: {:?}", uv);
@@ -985,23 +985,34 @@ where
         });
         // println!("u_closed: {}, v_closed: {}", u_closed, v_closed);
 
-        let solver = SurfaceClosestParameterNewton::<T, D>::new(
-            (self.u_knots_domain(), self.v_knots_domain()),
-            (u_closed, v_closed),
-        );
-        let res = Executor::new(SurfaceClosestParameterProblem::new(point, self), solver)
-            .configure(|state| state.param(uv).max_iters(100))
-            .run()?;
-        match res.state().get_best_param().cloned() {
-            Some(t) => {
-                if t.x.is_finite() && t.y.is_finite() {
-                    Ok((t.x, t.y))
-                } else {
-                    Err(anyhow::anyhow!("No best parameter found"))
+        // the parameters of a vertex on a pole are not unique,
+        // and the surface may approach the point only along some of them
+        let initials = tess
+            .points()
+            .iter()
+            .zip(tess.uvs())
+            .filter(|(pt, _)| (*pt - &tess.points()[nearest]).norm() < eps)
+            .map(|(_, uv)| *uv);
+
+        let mut closest: Option<(T, T)> = None;
+        let mut min_dist = T::infinity();
+        for uv in initials {
+            let solver = SurfaceClosestParameterNewton::<T, D>::new(
+                (self.u_knots_domain(), self.v_knots_domain()),
+                (u_closed, v_closed),
+            );
+            let res = Executor::new(SurfaceClosestParameterProblem::new(point, self), solver)
+                .configure(|state| state.param(uv).max_iters(100))
+                .run()?;
+            if let Some(t) = res.state().get_best_param() {
+                let d = (self.point_at(t.x, t.y) - point).norm_squared();
+                if d < min_dist {
+                    min_dist = d;
+                    closest = Some((t.x, t.y));
                 }
             }
-            _ => Err(anyhow::anyhow!("No best parameter found")),
         }
+        closest.ok_or_else(|| anyhow::anyhow!("No best parameter found"))
     }
 
     /// Cast the surface to a surface with another floating point type
-- 
2.43.0


From 0a2791ff47b7a35455604d219bf221af8f749593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:56 +0000
Subject: [PATCH 46/48] fix: dividing a long or single precision curve misses
 its end

---
 src/curve/nurbs_curve.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 60f310d..1350b57 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -579,7 +579,11 @@ where
         let gauss = GaussLegendre::new(16 + self.degree)?;
         // the tolerances must stay small against the length to divide by
         let scale = length.min(T::one());
-        let eps = scale * T::from_f64(1e-6).unwrap();
+        // & the end of the curve must be found against the rounding of its total length
+        let eps = RealField::max(
+            scale * T::from_f64(1e-6).unwrap(),
+            total * T::default_epsilon() * T::from_usize(10).unwrap(),
+        );
         let tolerance = scale * T::from_f64(1e-3 * 2.5).unwrap();
 
         while i < segments.len() {
@@ -595,7 +599,7 @@ where
                     &gauss,
                 );
                 samples.push(CurveLengthParameter::new(u, lc));
-                lc += length;
+                lc = length * T::from_usize(samples.len()).unwrap();
             }
 
             acc_prev += current_length;
-- 
2.43.0


From bbda03e1267368f63872a0112b71ca9e1d6d39a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:56 +0000
Subject: [PATCH 47/48] fix: short and nearly half turn arcs fail or leave the
 ellipse

---
 src/curve/nurbs_curve.rs | 45 ++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 1350b57..9a092e1 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -15,7 +15,6 @@ use crate::misc::binomial::Binomial;
 use crate::misc::frenet_frame::FrenetFrame;
 use crate::misc::transformable::Transformable;
 use crate::misc::trigonometry::segment_closest_point;
-use crate::misc::Ray;
 use crate::prelude::{CurveLengthParameter, Invertible, KnotVector};
 use crate::{misc::FloatingPoint, CurveClosestParameterNewton, CurveClosestParameterProblem};
 
@@ -938,52 +937,48 @@ where
 
         let theta = end_angle - start_angle;
 
-        let arcs = (theta / T::from_f64(FRAC_PI_2).unwrap()).floor().to_usize();
+        // an arc sweeps a quarter turn at most
+        // (a sweep which exceeds a multiple of it just by rounding doesn't need another arc)
+        let resolution = T::default_epsilon() * T::from_usize(16).unwrap();
+        let arcs = (theta / T::from_f64(FRAC_PI_2).unwrap() - resolution)
+            .ceil()
+            .to_usize();
         let arcs = arcs.unwrap_or(1).clamp(1, 4);
         let dtheta = theta / T::from_usize(arcs).unwrap();
-        let w1 = (dtheta / T::from_f64(2.0).unwrap()).cos();
-        let mut p0 = center
+        let half = dtheta / T::from_f64(2.0).unwrap();
+        let w1 = half.cos();
+        anyhow::ensure!(
+            nalgebra::ComplexField::abs(w1) > T::default_epsilon(),
+            "No intersection between the tangents of a half turn"
+        );
+        let p0 = center
             + &x_axis * x_radius * start_angle.cos()
             + &y_axis * y_radius * start_angle.sin();
-        let mut t0 = (&y_axis * y_radius * start_angle.cos()
-            - &x_axis * x_radius * start_angle.sin())
-        .normalize();
 
         let n = 2 * arcs + 1;
         let degree = 2;
-        let mut control_points = vec![p0.clone(); n];
+        let mut control_points = vec![p0; n];
         let mut weights = vec![T::one(); n];
         let mut knots = vec![T::zero(); n + degree + 1];
 
         let mut angle = start_angle;
         let mut index = 0;
-        for i in 1..(arcs + 1) {
+        for _ in 0..arcs {
+            // the tangents at the both ends of the arc meet over its middle
+            let middle = angle + half;
+            let p1 = center
+                + (&x_axis * x_radius * middle.cos() + &y_axis * y_radius * middle.sin()) / w1;
             angle += dtheta;
 
             let p2 = center + &x_axis * x_radius * angle.cos() + &y_axis * y_radius * angle.sin();
 
-            let t2 = (&y_axis * y_radius * angle.cos() - &x_axis * x_radius * angle.sin())
-                .normalize();
-            let ray = Ray::new(p0.clone(), t0.clone());
-            let other = Ray::new(p2.clone(), t2.clone());
-            let intersection = ray
-                .find_intersection(&other)
-                .ok_or(anyhow::anyhow!("No intersection"))?;
-
-            let p1 = &p0 + &t0 * intersection.intersection0.1;
-
-            control_points[index + 2] = p2.clone();
+            control_points[index + 2] = p2;
             weights[index + 2] = T::one();
 
             control_points[index + 1] = p1;
             weights[index + 1] = w1;
 
             index += 2;
-
-            if i < arcs {
-                p0 = p2;
-                t0 = t2;
-            }
         }
 
         for i in 0..3 {
-- 
2.43.0


From e55776cf200614562ebd924e01b60bcc8c862061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:56 +0000
Subject: [PATCH 48/48] fix: short revolutions far from the origin leave the
 circle

---
 src/surface/nurbs_surface.rs | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 7a6b4e6..a8ca9e5 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -17,7 +17,7 @@ use crate::{
     },
     misc::{
         binomial::Binomial, transformable::Transformable, transpose_control_points, FloatingPoint,
-        Invertible, Ray,
+        Invertible,
     },
     prelude::{AdaptiveTessellationOptions, KnotVector, SurfaceTessellation, Tessellation},
     SurfaceClosestParameterNewton, SurfaceClosestParameterProblem,
@@ -1233,6 +1233,10 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
         }
 
         let wm = (dtheta / two).cos();
+        anyhow::ensure!(
+            wm.abs() > T::default_epsilon(),
+            "No intersection between the tangents of a half turn"
+        );
 
         let mut angle = T::zero();
         let mut sines = vec![T::zero(); narcs + 1];
@@ -1263,13 +1267,12 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
             }
 
             // control_points[0][j]
-            let mut p0 = prof_points[j];
+            let p0 = prof_points[j];
             control_points[0][j].x = p0.x;
             control_points[0][j].y = p0.y;
             control_points[0][j].z = p0.z;
             control_points[0][j].w = prof_weights[j];
 
-            let mut t0 = y;
             let mut index = 0;
             for i in 1..=narcs {
                 let p2 = if r <= eps {
@@ -1284,36 +1287,23 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
                 control_points[k][j].z = p2.z;
                 control_points[k][j].w = prof_weights[j];
 
-                let t2 = y * cosines[i] - x * sines[i];
-
                 let l = index + 1;
                 if r <= eps {
                     control_points[l][j].x = o.x;
                     control_points[l][j].y = o.y;
                     control_points[l][j].z = o.z;
                 } else {
-                    let nt0 = t0.normalize();
-                    let nt2 = t2.normalize();
-                    let r0 = Ray::new(p0, nt0);
-                    let r1 = Ray::new(p2, nt2);
-                    let intersection = r0
-                        .find_intersection(&r1)
-                        .ok_or(anyhow::anyhow!("No intersection between rays"))?;
-
-                    let intersected = intersection.intersection0.0;
-                    control_points[l][j].x = intersected.x;
-                    control_points[l][j].y = intersected.y;
-                    control_points[l][j].z = intersected.z;
+                    // the tangents at the both ends of the arc meet over its middle
+                    let middle = dtheta * (T::from_usize(i).unwrap() - T::one() / two);
+                    let p1 = o + (x * middle.cos() + y * middle.sin()) * (r / wm);
+                    control_points[l][j].x = p1.x;
+                    control_points[l][j].y = p1.y;
+                    control_points[l][j].z = p1.z;
                 }
 
                 control_points[l][j].w = wm * prof_weights[j];
 
                 index += 2;
-
-                if i < narcs {
-                    p0 = p2;
-                    t0 = t2;
-                }
             }
         }
 
-- 
2.43.0

