From 3baa3bb6df8fe9c0160aa882dcfe9d51e95fa0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 01/37] fix: CompoundCurve::new no longer prints to the console

---
 src/region/compound_curve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 003e82b..6b62853 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -62,13 +62,15 @@ where
                             if current == 0 {
                                 connected.insert(current, next.inverse());
                             } else {
-                                println!("Cannot handle opposite direction");
+                                #[cfg(feature = "log")]
+                                log::warn!("Cannot handle opposite direction");
                             }
                         }
                     }
                 }
                 None => {
-                    println!("No connection found");
+                    #[cfg(feature = "log")]
+                    log::warn!("No connection found");
                     break;
                 }
             }
-- 
2.43.0


From 90dbf0a96be321f2783b823513a319248e6103e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 02/37] fix: a malformed exterior in a serialized
 TrimmedSurface is an error

---
 src/surface/trimmed_surface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/trimmed_surface.rs b/src/surface/trimmed_surface.rs
index 755dcde..c2c51a1 100644
--- a/src/surface/trimmed_surface.rs
+++ b/src/surface/trimmed_surface.rs
@@ -302,7 +302,7 @@ where
                             if exterior.is_some() {
                                 return Err(de::Error::duplicate_field("exterior"));
                             }
-                            exterior = map.next_value().ok();
+                            exterior = Some(map.next_value()?);
                         }
                         Field::Interiors => {
                             if interiors.is_some() {
@@ -315,7 +315,7 @@ where
 
                 Ok(Self::Value {
                     surface: surface.ok_or_else(|| de::Error::missing_field("surface"))?,
-                    exterior,
+                    exterior: exterior.flatten(),
                     interiors: interiors.ok_or_else(|| de::Error::missing_field("interiors"))?,
                 })
             }
-- 
2.43.0


From da8873b68991d4af2a5973a4c69fd73f4eb0c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:13 +0000
Subject: [PATCH 03/37] fix: closest parameter search wraps back into the
 domain of a closed curve or surface

---
 src/closest_parameter/curve_closest_parameter_newton.rs   | 4 ++--
 src/closest_parameter/surface_closest_parameter_newton.rs | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/closest_parameter/curve_closest_parameter_newton.rs b/src/closest_parameter/curve_closest_parameter_newton.rs
index 1b4b7de..045fdc0 100644
--- a/src/closest_parameter/curve_closest_parameter_newton.rs
+++ b/src/closest_parameter/curve_closest_parameter_newton.rs
@@ -70,13 +70,13 @@ where
         // Constrain the parameter to the domain
         let new_param = if new_param < self.knot_domain.0 {
             if self.closed {
-                self.knot_domain.1 - (new_param - self.knot_domain.0)
+                (self.knot_domain.1 - (self.knot_domain.0 - new_param)).max(self.knot_domain.0)
             } else {
                 self.knot_domain.0
             }
         } else if new_param > self.knot_domain.1 {
             if self.closed {
-                self.knot_domain.0 + (new_param - self.knot_domain.1)
+                (self.knot_domain.0 + (new_param - self.knot_domain.1)).min(self.knot_domain.1)
             } else {
                 self.knot_domain.1
             }
diff --git a/src/closest_parameter/surface_closest_parameter_newton.rs b/src/closest_parameter/surface_closest_parameter_newton.rs
index 6e5468a..5f769a9 100644
--- a/src/closest_parameter/surface_closest_parameter_newton.rs
+++ b/src/closest_parameter/surface_closest_parameter_newton.rs
@@ -1,6 +1,7 @@
 use argmin::{argmin_error, argmin_error_closure, core::*, float};
 use nalgebra::{
-    allocator::Allocator, DefaultAllocator, DimNameDiff, DimNameSub, Matrix2, OVector, Vector2, U1,
+    allocator::Allocator, DefaultAllocator, DimNameDiff, DimNameSub, Matrix2, OVector, RealField,
+    Vector2, U1,
 };
 
 use crate::misc::FloatingPoint;
@@ -198,13 +199,13 @@ where
 fn constrain<T: FloatingPoint>(parameter: T, domain: (T, T), closed: bool) -> T {
     if parameter < domain.0 {
         if closed {
-            domain.1 - (parameter - domain.0)
+            RealField::max(domain.1 - (domain.0 - parameter), domain.0)
         } else {
             domain.0 + T::default_epsilon()
         }
     } else if parameter > domain.1 {
         if closed {
-            domain.0 + (parameter - domain.1)
+            RealField::min(domain.0 + (parameter - domain.1), domain.1)
         } else {
             domain.1 - T::default_epsilon()
         }
-- 
2.43.0


From 193b1a16f4d5ef3da662948b72c3bc03cf518c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 04/37] fix: boundary constraints at the maximum side apply to
 the last row and column

---
 src/tessellation/surface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index c97cb57..e06f892 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -140,14 +140,14 @@ where
         .enumerate()
         .map(|(iv, v)| {
             let u_min = iv == 0;
-            let u_max = iv == divs_v - 1;
+            let u_max = iv == divs_v;
             let u_constraint = (u_min && u_min_constraint) || (u_max && u_max_constraint);
 
             let row = us.iter().enumerate().map(|(iu, u)| {
                 let ds = s.rational_derivatives(*u, *v, 1);
                 let norm = ds[1][0].cross(&ds[0][1]).normalize();
                 let v_min = iu == 0;
-                let v_max = iu == divs_u - 1;
+                let v_max = iu == divs_u;
                 let v_constraint = (v_min && v_min_constraint) || (v_max && v_max_constraint);
                 SurfacePoint::new(Vector2::new(*u, *v), ds[0][0].clone().into(), norm, false)
                     .with_constraints(u_constraint, v_constraint)
-- 
2.43.0


From 26e06f106c1f655d781d2a3b8f595c89a425bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 05/37] fix: the west neighbour of a tessellation cell depends
 on its column

---
 src/tessellation/surface.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index e06f892..227e90a 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -173,7 +173,7 @@ where
                 let s = south(index, iv, divs_u, divs_v);
                 let e = east(index, iu, divs_u);
                 let n = north(index, iv, divs_u);
-                let w = west(index, iv);
+                let w = west(index, iu);
                 AdaptiveTessellationNode::new(index, corners, [s, e, n, w])
             })
         })
@@ -221,8 +221,8 @@ fn east(index: usize, iu: usize, divs_u: usize) -> Option<usize> {
     }
 }
 
-fn west(index: usize, iv: usize) -> Option<usize> {
-    if iv == 0 {
+fn west(index: usize, iu: usize) -> Option<usize> {
+    if iu == 0 {
         None
     } else {
         Some(index - 1)
-- 
2.43.0


From d3a0a6fa6cc2fa3b825cded2e530b3673fef531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 06/37] fix: degree elevation by more than one and across
 several spans

---
 src/curve/nurbs_curve.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 0db13b7..a2e57da 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1110,7 +1110,8 @@ where
 
         //intermediate values
         let mut bezalfs = vec![vec![T::zero(); new_degree + 1]; new_degree + degree_inc + 1];
-        let new_control_point_count = control_points.len() + degree_inc + 3;
+        // an upper bound, truncated at the end
+        let new_control_point_count = (control_points.len() + 1) * (degree_inc + 1);
         let mut bpts = vec![OPoint::origin(); new_control_point_count];
         let mut e_bpts = vec![OPoint::origin(); new_control_point_count];
         let mut next_bpts = vec![OPoint::origin(); new_control_point_count];
@@ -1133,19 +1134,19 @@ where
         for i in 1..=ph2 {
             let inv = T::one() / binom.get(ph, i);
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = inv * binom.get(new_degree, j) * binom.get(degree_inc, i - j);
             }
         }
 
         for i in (ph2 + 1)..ph {
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = bezalfs[ph - i][new_degree - j];
             }
         }
 
-        let mh = ph;
+        let mut mh = ph;
         let mut kind = ph + 1;
         let mut r: isize = -1;
         let mut a = new_degree;
@@ -1165,7 +1166,7 @@ where
                 b += 1;
             }
             let mul = b - i + 1;
-            let _mh = mh + mul + degree_inc;
+            mh += mul + degree_inc;
             let ub = knots[b];
             let oldr = r;
             r = new_degree as isize - mul as isize;
@@ -1177,15 +1178,7 @@ where
             } else {
                 1
             };
-            let rbz = if r > 0 {
-                (T::from_usize(ph).unwrap()
-                    - T::from_isize(r + 1).unwrap() / T::from_f64(2.).unwrap())
-                .floor()
-                .to_usize()
-                .unwrap()
-            } else {
-                ph
-            };
+            let rbz = if r > 0 { ph - (r as usize + 1) / 2 } else { ph };
             if r > 0 {
                 let numer = ub - ua;
                 let mut alfs = vec![T::zero(); new_degree];
@@ -1209,7 +1202,7 @@ where
             for i in lbz..=ph {
                 e_bpts[i] = OPoint::origin();
                 let mpi = new_degree.min(i);
-                for j in 0.max(i - degree_inc)..=mpi {
+                for j in i.saturating_sub(degree_inc)..=mpi {
                     e_bpts[i].coords = &e_bpts[i].coords + &bpts[j].coords * bezalfs[i][j];
                 }
             }
@@ -1233,9 +1226,9 @@ where
                             if (j as isize) - tr <= (kind as isize - ph as isize + oldr) {
                                 let gam = (ub - u_h[j - utr]) / den;
                                 e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - gam);
+                            } else {
+                                e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                             }
-                        } else {
-                            e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                         }
                         i += 1;
                         j -= 1;
@@ -1274,6 +1267,9 @@ where
             }
         }
 
+        q_w.truncate(mh - ph);
+        u_h.truncate(mh + 1);
+
         Ok(Self {
             degree: target_degree,
             control_points: q_w,
-- 
2.43.0


From 06ee8021025494d41c1e4001fcda71c429f87947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 07/37] fix: regular derivative grids of surfaces of low or
 unequal degrees do not panic

---
 src/surface/nurbs_surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 0b380f7..a833d92 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -330,7 +330,7 @@ where
         } else {
             self.v_degree
         };
-        let mut skl = vec![vec![OVector::<T, D>::zeros(); du + 1]; dv + 1];
+        let mut skl = vec![vec![OVector::<T, D>::zeros(); derivs + 1]; derivs + 1];
 
         for k in 0..=du {
             let mut temp = vec![];
-- 
2.43.0


From 3fdcee7c6629f574dc44d17ba66f6a1b71029dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 08/37] fix: trim a compound curve to a range that begins or
 ends at a span boundary

---
 src/trim/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/trim/mod.rs b/src/trim/mod.rs
index 797b2d0..d44ab0d 100644
--- a/src/trim/mod.rs
+++ b/src/trim/mod.rs
@@ -55,9 +55,9 @@ where
                 let (d0, d1) = curve.knots_domain();
 
                 // use epsilon to avoid to trim at the terminal (start / end) of the curve
-                let curve_domain = (d0 + eps)..=(d1 - eps);
+                let interior = |u: T| d0 + eps < u && u < d1 - eps;
 
-                match (curve_domain.contains(&min), curve_domain.contains(&max)) {
+                match (interior(min), interior(max)) {
                     (true, true) => {
                         if inside {
                             curve.try_trim_range((min, max))
@@ -90,7 +90,9 @@ where
                         )
                     }
                     (false, false) => {
-                        let contains = range.contains(&d0);
+                        // the range may begin or end exactly at a terminal of the curve
+                        let middle = (d0 + d1) / T::from_f64(2.).unwrap();
+                        let contains = range.contains(&middle);
                         match (inside, contains) {
                             (true, true) => Ok(vec![curve.clone()]),
                             (true, false) => Ok(vec![]),
-- 
2.43.0


From 02f60898ed07fbec0ff30378db0b22760319a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 09/37] fix: splitting at an existing interior knot gives a
 head that evaluates at its end

---
 src/split/mod.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/split/mod.rs b/src/split/mod.rs
index 8fde919..7b691e0 100644
--- a/src/split/mod.rs
+++ b/src/split/mod.rs
@@ -3,6 +3,7 @@ use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, Dim
 
 use crate::{
     curve::NurbsCurve,
+    knot::KnotVector,
     misc::{transpose_control_points, FloatingPoint},
     surface::{NurbsSurface, UVDirection},
 };
@@ -16,6 +17,21 @@ where
     fn try_split(&self, option: Self::Option) -> anyhow::Result<(Self, Self)>;
 }
 
+/// Index of the last knot before the split position and the number of knots already at it.
+/// At an interior knot only the missing copies have to be inserted: with more than `degree + 1` copies at its end,
+/// the part before the position could not be evaluated there.
+fn find_split_span<T: FloatingPoint>(knots: &KnotVector<T>, degree: usize, u: T) -> (usize, usize) {
+    let n = knots.len() - degree - 2;
+    let s = knots.find_knot_span_index(n, degree, u);
+    let (min, max) = knots.domain(degree);
+    let multiplicity = if min < u && u < max {
+        knots.iter().filter(|k| **k == u).count().min(degree + 1)
+    } else {
+        0
+    };
+    (s - multiplicity, multiplicity)
+}
+
 impl<T: FloatingPoint, D: DimName> Split for NurbsCurve<T, D>
 where
     DefaultAllocator: Allocator<D>,
@@ -42,12 +58,11 @@ where
     /// ```
     fn try_split(&self, u: T) -> anyhow::Result<(Self, Self)> {
         let u = self.knots().clamp(self.degree(), u);
-        let knots_to_insert = (0..=self.degree()).map(|_| u).collect_vec();
+        let (s, multiplicity) = find_split_span(self.knots(), self.degree(), u);
+        let knots_to_insert = (multiplicity..=self.degree()).map(|_| u).collect_vec();
         let mut cloned = self.clone();
         cloned.try_refine_knot(knots_to_insert)?;
 
-        let n = self.knots().len() - self.degree() - 2;
-        let s = self.knots().find_knot_span_index(n, self.degree(), u);
         let knots0 = cloned.knots().as_slice()[0..=(s + self.degree() + 1)].to_vec();
         let knots1 = cloned.knots().as_slice()[s + 1..].to_vec();
         let cpts0 = cloned.control_points()[0..=s].to_vec();
@@ -98,10 +113,9 @@ where
             }
         };
 
-        let knots_to_insert = (0..=degree).map(|_| option.parameter).collect_vec();
-
-        let n = knots.len() - degree - 2;
-        let s = knots.find_knot_span_index(n, degree, option.parameter);
+        let parameter = option.parameter;
+        let (s, multiplicity) = find_split_span(knots, degree, parameter);
+        let knots_to_insert = (multiplicity..=degree).map(|_| parameter).collect_vec();
 
         let curves = points
             .iter()
-- 
2.43.0


From 83827264ab76839e1607618c3234db3637ff238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 10/37] fix: clamp the parameter when splitting a surface, as
 for curves

---
 src/split/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/split/mod.rs b/src/split/mod.rs
index 7b691e0..9fd63b4 100644
--- a/src/split/mod.rs
+++ b/src/split/mod.rs
@@ -113,7 +113,7 @@ where
             }
         };
 
-        let parameter = option.parameter;
+        let parameter = knots.clamp(degree, option.parameter);
         let (s, multiplicity) = find_split_span(knots, degree, parameter);
         let knots_to_insert = (multiplicity..=degree).map(|_| parameter).collect_vec();
 
-- 
2.43.0


From ccf166b509fbdc4a45ddbca02679ef788538580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 11/37] fix: interpolate the weights when adding a knot to a
 rational curve

---
 src/curve/nurbs_curve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index a2e57da..ea0be91 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1323,7 +1323,10 @@ where
                 &self.control_points[i0] - &self.control_points[i0 - 1]
             };
             let mut p = delta_control_point * (T::one() - a);
-            p[D::dim() - 1] = T::zero();
+            if i0 == 0 || i0 == self.control_points.len() {
+                // keep the weight of a control point that has no neighbor to interpolate with
+                p[D::dim() - 1] = T::zero();
+            }
             self.control_points[i0].coords -= p;
         }
 
-- 
2.43.0


From 3addab5b12f05b7d4e9cad2d6246050234eb66bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:09 +0000
Subject: [PATCH 12/37] fix: lofting no curves is an error instead of a panic

---
 src/surface/nurbs_surface.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index a833d92..4ce47d2 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -675,6 +675,8 @@ where
         D: DimNameAdd<U1>,
         DefaultAllocator: Allocator<DimNameSum<D, U1>>,
     {
+        anyhow::ensure!(!curves.is_empty(), "No curves to loft");
+
         let unified_curves = try_unify_curve_knot_vectors(curves)?;
 
         let degree_u = unified_curves[0].degree();
-- 
2.43.0


From 2dd7f9365171eb04637fa31f9a4dee6d7a30364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 13/37] fix: try_remove_knot rejects the knots at the end of
 the curve instead of panicking

---
 src/curve/nurbs_curve.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index ea0be91..41e3a5b 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1384,6 +1384,9 @@ where
                 "Knot is too close to the start of the curve"
             ));
         }
+        if r + s > n + 1 {
+            return Err(anyhow::anyhow!("Knot is too close to the end of the curve"));
+        }
         let mut first = r - p;
 
         if r <= s {
-- 
2.43.0


From 9d7f0b53608b6925d08a31b39b59c975f3d678a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 14/37] fix: the search for a parameter at a length stops when
 no parameter is left to try

---
 src/curve/nurbs_curve.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 41e3a5b..84c3d54 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1945,6 +1945,10 @@ where
     // binary search
     while (end.1 - start.1) > tolerance {
         let middle_parameter = (start.0 + end.0) * inv;
+        if middle_parameter <= start.0 || end.0 <= middle_parameter {
+            // no parameter is left between the bounds
+            break;
+        }
         let mid = (
             middle_parameter,
             compute_bezier_segment_length(s, middle_parameter, gauss),
-- 
2.43.0


From 2ae52dc78d2ed960526525ec98a177c2faad2cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 15/37] fix: inverting a compound curve keeps its spans' knots
 in ascending order

---
 src/region/compound_curve.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 6b62853..3e08de2 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -271,8 +271,21 @@ where
     DefaultAllocator: Allocator<D>,
 {
     fn invert(&mut self) {
+        let knot_start = self.spans.first().map(|span| span.knots().first());
+
         self.spans.iter_mut().for_each(|span| span.invert());
         self.spans.reverse();
+
+        // Align the reversed knot vectors so that the spans still follow each other
+        if let Some(mut knot_offset) = knot_start {
+            self.spans.iter_mut().for_each(|span| {
+                let start = span.knots().first();
+                span.knots_mut().iter_mut().for_each(|v| {
+                    *v = *v - start + knot_offset;
+                });
+                knot_offset = span.knots().last();
+            });
+        }
     }
 }
 
-- 
2.43.0


From 6f6c4b7dc68ec0db2b03e9246474be3b9c8ea6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 16/37] fix: inverting a trimmed surface keeps its trimming
 curves in place

---
 src/surface/trimmed_surface.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/surface/trimmed_surface.rs b/src/surface/trimmed_surface.rs
index c2c51a1..8f02fa0 100644
--- a/src/surface/trimmed_surface.rs
+++ b/src/surface/trimmed_surface.rs
@@ -190,11 +190,23 @@ impl<'a, T: FloatingPoint> Transformable<&'a Matrix4<T>> for TrimmedSurface<T> {
 impl<T: FloatingPoint> Invertible for TrimmedSurface<T> {
     /// Reverse the direction of the surface
     fn invert(&mut self) {
+        // inverting the surface mirrors its parameter space,
+        // so the trimming curves have to be mirrored to stay at the same place on the surface
+        let u = self.surface.u_knots().first() + self.surface.u_knots().last();
+        let v = self.surface.v_knots().first() + self.surface.v_knots().last();
+
         self.surface.invert();
-        if let Some(curve) = self.exterior.as_mut() {
-            curve.invert();
-        }
-        self.interiors.iter_mut().for_each(|curve| curve.invert());
+        self.exterior
+            .iter_mut()
+            .chain(self.interiors.iter_mut())
+            .for_each(|curve| {
+                curve.control_points_iter_mut().for_each(|p| {
+                    let w = p[2];
+                    p[0] = u * w - p[0];
+                    p[1] = v * w - p[1];
+                });
+                curve.invert();
+            });
     }
 }
 
-- 
2.43.0


From 96fb5f1d7b93d74fe3f1726c349d3887eb328d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 17/37] fix: an elliptic arc uses the tangents of the ellipse,
 not of a circle

---
 src/curve/nurbs_curve.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 84c3d54..ad2d164 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -956,7 +956,8 @@ where
         let mut p0 = center
             + &x_axis * x_radius * start_angle.cos()
             + &y_axis * y_radius * start_angle.sin();
-        let mut t0 = &y_axis * start_angle.cos() - &x_axis * start_angle.sin();
+        let mut t0 =
+            &y_axis * y_radius * start_angle.cos() - &x_axis * x_radius * start_angle.sin();
 
         let n = 2 * arcs + 1;
         let degree = 2;
@@ -971,14 +972,14 @@ where
 
             let p2 = center + &x_axis * x_radius * angle.cos() + &y_axis * y_radius * angle.sin();
 
-            let t2 = &y_axis * angle.cos() - &x_axis * angle.sin();
+            let t2 = &y_axis * y_radius * angle.cos() - &x_axis * x_radius * angle.sin();
             let ray = Ray::new(p0.clone(), t0.normalize());
             let other = Ray::new(p2.clone(), t2.normalize());
             let intersection = ray
                 .find_intersection(&other)
                 .ok_or(anyhow::anyhow!("No intersection"))?;
 
-            let p1 = &p0 + &t0 * intersection.intersection0.1;
+            let p1 = intersection.intersection0.0;
 
             control_points[index + 2] = p2.clone();
             weights[index + 2] = T::one();
-- 
2.43.0


From a175523d0a677e36cdb8eaf610cd7553f289f60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 18/37] fix: try_revolve accepts an axis that is not of unit
 length

---
 src/surface/nurbs_surface.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 4ce47d2..4019e12 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1158,6 +1158,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
     ) -> anyhow::Result<Self> {
         let prof_points = profile.dehomogenized_control_points();
         let prof_weights = profile.weights();
+        let axis = &axis.normalize();
 
         let two = T::from_f64(2.0).unwrap();
         let (narcs, mut u_knots) = if theta <= T::pi() / two {
-- 
2.43.0


From a4fbce18fb56a85ead682750e8a7f4588747e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 19/37] fix: clamping a curve keeps its domain and its shape

try_clamp inserted knots at the outermost knots of an unclamped knot vector, so
that the curve grew past its domain. Everything that decomposes a curve into
Bezier segments (parameters at a length, division by length or count) measured
the parts outside of the domain.
---
 src/curve/nurbs_curve.rs | 67 ++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 34 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index ad2d164..612053f 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -450,24 +450,8 @@ where
         D: DimNameSub<U1>,
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
     {
-        let mult = self.knots.multiplicity();
-        let start = mult.first().unwrap().multiplicity();
-        let end = mult.last().unwrap().multiplicity();
-
         let segments = self.try_decompose_bezier_segments()?;
 
-        // If the start/end parts of the knot vector are not duplicated,
-        // the Bezier segments will not be generated correctly,
-        // so reduce the number of segments by the amount that falls below the required duplication degree.
-        let required_multiplicity = self.degree + 1;
-        let i = required_multiplicity.saturating_sub(start);
-        let j = if end < required_multiplicity {
-            segments.len() - (required_multiplicity - end)
-        } else {
-            segments.len()
-        };
-        let segments = &segments[i..j];
-
         let (_, u) = self.knots_domain();
         let gauss = GaussLegendre::new(16 + self.degree)?;
 
@@ -585,7 +569,10 @@ where
             length
         );
 
-        let mut samples = vec![CurveLengthParameter::new(self.knots.first(), T::zero())];
+        let mut samples = vec![CurveLengthParameter::new(
+            self.knots_domain().0,
+            T::zero(),
+        )];
 
         let mut i = 0;
         let mut lc = length;
@@ -1723,26 +1710,38 @@ where
     pub fn try_clamp(&mut self) -> anyhow::Result<()> {
         let degree = self.degree();
 
-        let start = self.knots.first();
-        let end = self.knots.last();
-        let multiplicity = self.knots.multiplicity();
-        let start_knot_count = multiplicity
+        if self.is_clamped() {
+            return Ok(());
+        }
+
+        let (start, end) = self.knots_domain();
+        for knot in [start, end] {
+            let count = self.knots.iter().filter(|k| **k == knot).count();
+            for _ in count..degree {
+                self.try_add_knot(knot)?;
+            }
+        }
+
+        // drop the knots & control points that lie outside of the domain
+        let mut knots = self.knots.to_vec();
+        let last = knots
             .iter()
-            .find(|m| *m.knot() == start)
-            .ok_or(anyhow::anyhow!("Start knot not found"))?
-            .multiplicity();
-        let end_knot_count = multiplicity
+            .position(|k| *k == end)
+            .ok_or(anyhow::anyhow!("End knot not found"))?;
+        knots.truncate(last + degree + 1);
+        knots[last..].fill(end);
+        self.control_points.truncate(last);
+
+        let first = knots
             .iter()
-            .find(|m| *m.knot() == end)
-            .ok_or(anyhow::anyhow!("End knot not found"))?
-            .multiplicity();
+            .rposition(|k| *k == start)
+            .ok_or(anyhow::anyhow!("Start knot not found"))?
+            - degree;
+        knots.drain(..first);
+        knots[..=degree].fill(start);
+        self.control_points.drain(..first);
 
-        for _ in start_knot_count..=degree {
-            self.try_add_knot(start)?;
-        }
-        for _ in end_knot_count..=degree {
-            self.try_add_knot(end)?;
-        }
+        self.knots = KnotVector::new(knots);
 
         Ok(())
     }
-- 
2.43.0


From 2d3b4e7961c311d7e61b955a641b26e572d0abee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 20/37] fix: elevating the degree of an unclamped curve does
 not panic

---
 src/curve/nurbs_curve.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 612053f..d449470 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1090,6 +1090,12 @@ where
             return Ok(self.clone());
         }
 
+        if !self.is_clamped() {
+            let mut clamped = self.clone();
+            clamped.try_clamp()?;
+            return clamped.try_elevate_degree(target_degree);
+        }
+
         let n = self.knots.len() - self.degree - 2;
         let new_degree = self.degree;
         let knots = &self.knots;
-- 
2.43.0


From d6a4eb8879caa5a46dc4e3505fb9938c2a977de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 21/37] fix: removing a repeated knot finds its last occurrence

Removal starts at the last index of the knot (and compares the new control
points from both sides once they meet). With the first index a knot of a
multiplicity over one was never removed, or replaced the curve by another one.
---
 src/curve/nurbs_curve.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index d449470..f8c73ca 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1361,8 +1361,8 @@ where
         let r = self
             .knots
             .iter()
-            .position(|k| *k == knot)
-            .ok_or(anyhow::anyhow!("Knot not found"))?; // index of the knot
+            .rposition(|k| *k == knot)
+            .ok_or(anyhow::anyhow!("Knot not found"))?; // last index of the knot
 
         let multiplicities = self.knots.multiplicity();
         let mult = multiplicities
@@ -1373,12 +1373,12 @@ where
         let p = self.degree();
         let ord = p + 1;
 
-        if r <= p {
+        if r < p + s {
             return Err(anyhow::anyhow!(
                 "Knot is too close to the start of the curve"
             ));
         }
-        if r + s > n + 1 {
+        if r > n {
             return Err(anyhow::anyhow!("Knot is too close to the end of the curve"));
         }
         let mut first = r - p;
@@ -1436,7 +1436,7 @@ where
             }
 
             // check if knot removable
-            let remove = if j >= i && (j - i) < t {
+            let remove = if j < i + t {
                 let left = &temp[ii - 1];
                 let right = &temp[jj + 1];
                 (left - right).norm() <= tolerance
-- 
2.43.0


From 5cbf9255b3a10aabbb9800d54423dff62946fda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 22/37] fix: an isocurve at a repeated knot lies on the surface

The row of control points was looked up at the last of the equal knots, so that
an isocurve at an interior knot of multiplicity over one (e.g. at a quarter of
a sphere) was another curve.
---
 src/surface/nurbs_surface.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 4019e12..1577fa3 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -791,7 +791,13 @@ where
                 UVDirection::V => refined.control_points[0].len() - 1,
             }
         } else {
-            knots.find_knot_span_index(knots.len() - degree - 2, degree, t)
+            // the control points before the first of the refined knots at t
+            knots
+                .iter()
+                .filter(|knot| **knot - t <= -T::default_epsilon())
+                .count()
+                .saturating_sub(1)
+                .min(knots.len() - degree - 2)
         };
 
         match direction {
-- 
2.43.0


From 68a73a220eaaf254107357a59910d1ed40d69d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:39 +0000
Subject: [PATCH 23/37] fix: revolve profile points that lie on the axis up to
 rounding errors

---
 src/surface/nurbs_surface.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 1577fa3..241d1e1 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1228,10 +1228,15 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
             let mut x = p - o;
             // radius at height
             let r = x.norm();
+            // points on the axis up to rounding errors have no direction to turn
+            let on_axis = r
+                <= T::default_epsilon()
+                    * T::from_f64(64.0).unwrap()
+                    * (T::one() + p.coords.norm() + center.coords.norm());
             // perpendicular vector to x & axis
             let mut y = axis.cross(&x);
 
-            if r > T::default_epsilon() {
+            if !on_axis {
                 x *= T::one() / r;
                 y *= T::one() / r;
             }
@@ -1246,7 +1251,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
             let mut t0 = y;
             let mut index = 0;
             for i in 1..=narcs {
-                let p2 = if r <= T::default_epsilon() {
+                let p2 = if on_axis {
                     o
                 } else {
                     o + x * cosines[i] * r + y * sines[i] * r
@@ -1261,7 +1266,7 @@ impl<T: FloatingPoint> NurbsSurface3D<T> {
                 let t2 = y * cosines[i] - x * sines[i];
 
                 let l = index + 1;
-                if r <= T::default_epsilon() {
+                if on_axis {
                     control_points[l][j].x = o.x;
                     control_points[l][j].y = o.y;
                     control_points[l][j].z = o.z;
-- 
2.43.0


From 25a7a78aabab29fc2d569a39baab885abc2bd2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 24/37] fix: a failed clamp leaves the curve unchanged

---
 src/curve/nurbs_curve.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index f8c73ca..71dcae8 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1721,22 +1721,24 @@ where
         }
 
         let (start, end) = self.knots_domain();
+        let mut clamped = self.clone();
         for knot in [start, end] {
-            let count = self.knots.iter().filter(|k| **k == knot).count();
+            let count = clamped.knots.iter().filter(|k| **k == knot).count();
             for _ in count..degree {
-                self.try_add_knot(knot)?;
+                clamped.try_add_knot(knot)?;
             }
         }
 
         // drop the knots & control points that lie outside of the domain
-        let mut knots = self.knots.to_vec();
+        let mut knots = clamped.knots.to_vec();
+        let mut control_points = clamped.control_points;
         let last = knots
             .iter()
             .position(|k| *k == end)
             .ok_or(anyhow::anyhow!("End knot not found"))?;
         knots.truncate(last + degree + 1);
         knots[last..].fill(end);
-        self.control_points.truncate(last);
+        control_points.truncate(last);
 
         let first = knots
             .iter()
@@ -1745,8 +1747,9 @@ where
             - degree;
         knots.drain(..first);
         knots[..=degree].fill(start);
-        self.control_points.drain(..first);
+        control_points.drain(..first);
 
+        self.control_points = control_points;
         self.knots = KnotVector::new(knots);
 
         Ok(())
-- 
2.43.0


From 6150f49792efce6611e93b5fe9ade0b81360278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 25/37] fix: boundary constraints of one side may be given in
 any order

---
 src/tessellation/boundary_constraints.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/tessellation/boundary_constraints.rs b/src/tessellation/boundary_constraints.rs
index 9b03a3a..f434549 100644
--- a/src/tessellation/boundary_constraints.rs
+++ b/src/tessellation/boundary_constraints.rs
@@ -83,19 +83,18 @@ impl<T: FloatingPoint> BoundaryConstraints<T> {
     }
 
     fn sorted_parameters(&self, min: Option<&Vec<T>>, max: Option<&Vec<T>>) -> Option<Vec<T>> {
-        match (min, max) {
-            (None, None) => None,
-            (None, Some(ma)) => Some(ma.clone()),
-            (Some(mi), None) => Some(mi.clone()),
-            (Some(mi), Some(ma)) => Some(
-                mi.iter()
-                    .chain(ma.iter())
-                    .sorted_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal))
-                    .dedup()
-                    .cloned()
-                    .collect(),
-            ),
+        if min.is_none() && max.is_none() {
+            return None;
         }
+        Some(
+            min.into_iter()
+                .chain(max)
+                .flatten()
+                .sorted_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal))
+                .dedup()
+                .cloned()
+                .collect(),
+        )
     }
 }
 
-- 
2.43.0


From 084d95372c50b27757f33b3a6175c6d98a99dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:46 +0000
Subject: [PATCH 26/37] fix: vertices on constrained borders have unit normals

---
 src/tessellation/boundary_constraints.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tessellation/boundary_constraints.rs b/src/tessellation/boundary_constraints.rs
index f434549..4023961 100644
--- a/src/tessellation/boundary_constraints.rs
+++ b/src/tessellation/boundary_constraints.rs
@@ -127,6 +127,11 @@ where
             let pt = deriv[0][0].clone();
             let norm = deriv[1][0].cross(&deriv[0][1]);
             let is_normal_degenerated = norm.magnitude_squared() < T::default_epsilon();
+            let norm = if is_normal_degenerated {
+                norm
+            } else {
+                norm.normalize()
+            };
             SurfacePoint::new(uv, pt.into(), norm, is_normal_degenerated)
         };
 
-- 
2.43.0


From a14a8f467fe19a59133036aec41f76525ff4dd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:50 +0000
Subject: [PATCH 27/37] fix: joining a compound curve keeps every span of a
 chain listed in any order

---
 src/region/compound_curve.rs  | 20 ++++++++------------
 src/region/curve_direction.rs | 35 +++++++++++++++++++++++------------
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 3e08de2..2ac90f2 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -38,12 +38,13 @@ where
 
         // Ensure the adjacent spans are connected in the forward direction.
         let mut curves = spans.clone();
-        let mut connected = vec![curves.remove(0)];
-        while !curves.is_empty() {
-            let current = connected.len() - 1;
-            let last = &connected[current];
+        let mut connected: Vec<_> = curves.drain(..curves.len().min(1)).collect();
+        while let (Some(first), Some(last), false) =
+            (connected.first(), connected.last(), curves.is_empty())
+        {
+            // A span follows the last one or precedes the first one.
             let found = curves.iter().enumerate().find_map(|(i, c)| {
-                CurveDirection::new(last, c, epsilon).map(|direction| (i, direction))
+                CurveDirection::new(first, last, c, epsilon).map(|direction| (i, direction))
             });
             match found {
                 Some((index, direction)) => {
@@ -53,18 +54,13 @@ where
                             connected.push(next);
                         }
                         CurveDirection::Backward => {
-                            connected.insert(current, next);
+                            connected.insert(0, next);
                         }
                         CurveDirection::Facing => {
                             connected.push(next.inverse());
                         }
                         CurveDirection::Opposite => {
-                            if current == 0 {
-                                connected.insert(current, next.inverse());
-                            } else {
-                                #[cfg(feature = "log")]
-                                log::warn!("Cannot handle opposite direction");
-                            }
+                            connected.insert(0, next.inverse());
                         }
                     }
                 }
diff --git a/src/region/curve_direction.rs b/src/region/curve_direction.rs
index a621562..15ba553 100644
--- a/src/region/curve_direction.rs
+++ b/src/region/curve_direction.rs
@@ -4,7 +4,7 @@ use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, Dim
 
 use crate::{curve::NurbsCurve, misc::FloatingPoint};
 
-/// Direction of the two connected curves.
+/// Direction of a chain of connected curves and the curve connected to it.
 #[derive(Clone, Copy, Debug)]
 pub enum CurveDirection {
     Forward,  // -> ->
@@ -14,8 +14,11 @@ pub enum CurveDirection {
 }
 
 impl CurveDirection {
+    /// Find how the curve `b` is connected to a chain from the curve `first` to the curve `last`.
+    /// The end of the chain is preferred to its start.
     pub fn new<T: FloatingPoint, D>(
-        a: &NurbsCurve<T, D>,
+        first: &NurbsCurve<T, D>,
+        last: &NurbsCurve<T, D>,
         b: &NurbsCurve<T, D>,
         epsilon: T,
     ) -> Option<Self>
@@ -24,20 +27,28 @@ impl CurveDirection {
         DefaultAllocator: Allocator<D>,
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
     {
-        let ad = a.knots_domain();
         let bd = b.knots_domain();
-        let (a0, a1) = (a.point_at(ad.0), a.point_at(ad.1));
+        let (a0, a1) = (
+            first.point_at(first.knots_domain().0),
+            last.point_at(last.knots_domain().1),
+        );
         let (b0, b1) = (b.point_at(bd.0), b.point_at(bd.1));
         let directions = [
-            ((&a1 - &b0).norm(), Self::Forward),
-            ((&a0 - &b1).norm(), Self::Backward),
-            ((&a1 - &b1).norm(), Self::Facing),
-            ((&a0 - &b0).norm(), Self::Opposite),
+            [
+                ((&a1 - &b0).norm(), Self::Forward),
+                ((&a1 - &b1).norm(), Self::Facing),
+            ],
+            [
+                ((&a0 - &b1).norm(), Self::Backward),
+                ((&a0 - &b0).norm(), Self::Opposite),
+            ],
         ];
 
-        directions
-            .iter()
-            .min_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(Ordering::Equal))
-            .and_then(|min| if min.0 < epsilon { Some(min.1) } else { None })
+        directions.iter().find_map(|candidates| {
+            candidates
+                .iter()
+                .min_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(Ordering::Equal))
+                .and_then(|min| if min.0 < epsilon { Some(min.1) } else { None })
+        })
     }
 }
-- 
2.43.0


From 087ed4e5be1c907b563cd043208da55521e7207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:50 +0000
Subject: [PATCH 28/37] fix: the domains of a compound curve's unclamped spans
 follow each other

---
 src/region/compound_curve.rs | 38 +++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 2ac90f2..2bcaaec 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -74,14 +74,7 @@ where
 
         // Align knot vectors
         // The first knot vector starts at 0, the rest are aligned to the previous knot vector
-        let mut knot_offset = T::zero();
-        connected.iter_mut().for_each(|curve| {
-            let start = curve.knots().first();
-            curve.knots_mut().iter_mut().for_each(|v| {
-                *v = *v - start + knot_offset;
-            });
-            knot_offset = curve.knots().last();
-        });
+        align_knots(&mut connected, T::zero());
 
         Self { spans: connected }
     }
@@ -273,18 +266,31 @@ where
         self.spans.reverse();
 
         // Align the reversed knot vectors so that the spans still follow each other
-        if let Some(mut knot_offset) = knot_start {
-            self.spans.iter_mut().for_each(|span| {
-                let start = span.knots().first();
-                span.knots_mut().iter_mut().for_each(|v| {
-                    *v = *v - start + knot_offset;
-                });
-                knot_offset = span.knots().last();
-            });
+        if let Some(knot_start) = knot_start {
+            align_knots(&mut self.spans, knot_start);
         }
     }
 }
 
+/// Shift the knot vectors of the spans so that the first one starts at the given knot
+/// and the domain of each span starts at the end of the domain of the previous one.
+fn align_knots<T: FloatingPoint, D: DimName>(spans: &mut [NurbsCurve<T, D>], knot_start: T)
+where
+    DefaultAllocator: Allocator<D>,
+{
+    let mut domain_end = None;
+    spans.iter_mut().for_each(|span| {
+        let (start, offset) = match domain_end {
+            Some(end) => (span.knots_domain().0, end),
+            None => (span.knots().first(), knot_start),
+        };
+        span.knots_mut().iter_mut().for_each(|v| {
+            *v = *v - start + offset;
+        });
+        domain_end = Some(span.knots_domain().1);
+    });
+}
+
 #[cfg(feature = "serde")]
 impl<T, D: DimName> serde::Serialize for CompoundCurve<T, D>
 where
-- 
2.43.0


From e82848af8b9a53cab1f757d8a295d81ad1b7c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:04 +0000
Subject: [PATCH 29/37] fix: the union of a region keeps every part and the
 gaps between them

---
 src/boolean/boolean_region.rs | 57 +++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/boolean/boolean_region.rs b/src/boolean/boolean_region.rs
index 89b24cb..e71404a 100644
--- a/src/boolean/boolean_region.rs
+++ b/src/boolean/boolean_region.rs
@@ -42,38 +42,43 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a CompoundCurve<T, U3>> for R
     ) -> Self::Output {
         match operation {
             BooleanOperation::Union => {
-                let exterior =
-                    self.exterior()
-                        .boolean(BooleanOperation::Union, other, option.clone())?;
-
-                let exterior = exterior
+                let outlines = self
+                    .exterior()
+                    .boolean(BooleanOperation::Union, other, option.clone())?
                     .into_regions()
                     .into_iter()
-                    .next()
                     .map(|region| region.into_exterior())
-                    .ok_or(anyhow::anyhow!("No exterior region found"))?;
+                    .collect_vec();
 
-                let interior_differences = self
-                    .interiors()
-                    .iter()
-                    .map(|interior| {
-                        interior.boolean(BooleanOperation::Difference, other, option.clone())
-                    })
-                    .collect::<anyhow::Result<Vec<_>>>()?;
+                // an outline inside another one is a gap between the two operands
+                let mut regions = vec![];
+                let mut interiors = vec![];
+                for (i, outline) in outlines.iter().enumerate() {
+                    let pt = outline.first_point();
+                    let mut enclosed = false;
+                    for (_, o) in outlines.iter().enumerate().filter(|(j, _)| *j != i) {
+                        enclosed = enclosed || o.contains(&pt, option.clone())?;
+                    }
+                    if enclosed {
+                        interiors.push(outline.clone());
+                    } else {
+                        regions.push(outline.clone().into());
+                    }
+                }
 
-                let interiors = interior_differences
-                    .into_iter()
-                    .flat_map(|c| {
-                        c.into_regions()
-                            .into_iter()
-                            .map(|region| region.into_exterior())
-                    })
-                    .collect();
+                for interior in self.interiors() {
+                    let rest =
+                        interior.boolean(BooleanOperation::Difference, other, option.clone())?;
+                    for gap in rest.into_regions() {
+                        let (exterior, islands) = gap.into_tuple();
+                        interiors.push(exterior);
+                        // the other curve may lie inside the interior
+                        regions.extend(islands.into_iter().map(Region::from));
+                    }
+                }
+                distribute_interiors_to_regions(&mut regions, &mut interiors, option.clone())?;
 
-                Ok(Clip::new(
-                    vec![Region::new(exterior, interiors)],
-                    Default::default(),
-                ))
+                Ok(Clip::new(regions, Default::default()))
             }
             BooleanOperation::Intersection => {
                 // difference other and interiors
-- 
2.43.0


From 03491b03ddf7fe4692b658c4b509b86774d3418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:53 +0000
Subject: [PATCH 30/37] fix: the union and difference of regions respect the
 interiors of the second one

---
 src/boolean/boolean_region.rs | 36 ++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/boolean/boolean_region.rs b/src/boolean/boolean_region.rs
index e71404a..a25cfc9 100644
--- a/src/boolean/boolean_region.rs
+++ b/src/boolean/boolean_region.rs
@@ -166,15 +166,24 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a Region<T>> for Region<T> {
         let mut regions = clip.into_regions();
 
         for interior in other.interiors().iter() {
+            let empty = Region::from(interior.clone());
             match operation {
-                BooleanOperation::Union | BooleanOperation::Intersection => {
-                    let clips = regions
-                        .iter()
-                        .map(|r| r.boolean(BooleanOperation::Difference, interior, option.clone()))
-                        .collect::<anyhow::Result<Vec<_>>>()?;
-                    regions = clips.into_iter().flat_map(|c| c.into_regions()).collect();
+                BooleanOperation::Union => {
+                    // what self covers of the interior belongs to the union
+                    let rest = empty.boolean(BooleanOperation::Difference, self, option.clone())?;
+                    for gap in rest.into_regions() {
+                        regions = subtract(&regions, &gap, &option)?;
+                    }
+                }
+                BooleanOperation::Intersection => {
+                    regions = subtract(&regions, &empty, &option)?;
+                }
+                BooleanOperation::Difference => {
+                    // what self covers of the interior is not removed
+                    let rest =
+                        self.boolean(BooleanOperation::Intersection, &empty, option.clone())?;
+                    regions.extend(rest.into_regions());
                 }
-                BooleanOperation::Difference => {}
             };
         }
 
@@ -182,6 +191,19 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a Region<T>> for Region<T> {
     }
 }
 
+/// subtract a region from every one of the regions
+fn subtract<T: FloatingPoint + ArgminFloat>(
+    regions: &[Region<T>],
+    other: &Region<T>,
+    option: &Option<CurveIntersectionSolverOptions<T>>,
+) -> anyhow::Result<Vec<Region<T>>> {
+    let clips = regions
+        .iter()
+        .map(|r| r.boolean(BooleanOperation::Difference, other, option.clone()))
+        .collect::<anyhow::Result<Vec<_>>>()?;
+    Ok(clips.into_iter().flat_map(|c| c.into_regions()).collect())
+}
+
 /// distribute the interiors into the regions that contain them
 fn distribute_interiors_to_regions<T: FloatingPoint + ArgminFloat>(
     regions: &mut [Region<T>],
-- 
2.43.0


From 1b297847f3a913b63446eaa00852b5cafecd5e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:29 +0000
Subject: [PATCH 31/37] fix: the intersection of a region with several
 interiors lists each of them once

---
 src/boolean/boolean_region.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/boolean/boolean_region.rs b/src/boolean/boolean_region.rs
index a25cfc9..5cb4254 100644
--- a/src/boolean/boolean_region.rs
+++ b/src/boolean/boolean_region.rs
@@ -87,14 +87,7 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a CompoundCurve<T, U3>> for R
                     let mut next_clips = vec![];
                     for clip in clip_regions.iter() {
                         let c = clip.boolean(BooleanOperation::Difference, it, option.clone())?;
-                        let mut regions = c.into_regions();
-                        let mut interiors = clip.interiors().iter().cloned().collect_vec();
-                        distribute_interiors_to_regions(
-                            &mut regions,
-                            &mut interiors,
-                            option.clone(),
-                        )?;
-                        next_clips.extend(regions);
+                        next_clips.extend(c.into_regions());
                     }
                     clip_regions = next_clips;
                 }
-- 
2.43.0


From a78ee35042cf0f3bd32615b6082f71532c325b1c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:10:13 +0000
Subject: [PATCH 32/37] fix: loft interpolates all columns of control points at
 common parameters

---
 src/curve/nurbs_curve.rs     | 34 +++++++++++++++++++++++-------
 src/surface/nurbs_surface.rs | 40 ++++++++++++++++++++++++++----------
 2 files changed, 56 insertions(+), 18 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 71dcae8..33a4a3d 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -2027,13 +2027,16 @@ pub fn try_interpolate_control_points<T: FloatingPoint>(
     degree: usize,
     homogeneous: bool,
 ) -> anyhow::Result<(Vec<DVector<T>>, KnotVector<T>)> {
-    let n = points.len();
-    if n < degree + 1 {
-        anyhow::bail!("Too few control points for curve");
-    }
+    let us = chord_length_parameters(points)?;
+    try_interpolate_control_points_at(points, &us, degree, homogeneous)
+}
 
+/// Normalized parameters of a sequence of points by the lengths of the chords between them
+pub(crate) fn chord_length_parameters<T: FloatingPoint>(
+    points: &[DVector<T>],
+) -> anyhow::Result<Vec<T>> {
     let mut us: Vec<T> = vec![T::zero()];
-    for i in 1..n {
+    for i in 1..points.len() {
         let sub = &points[i] - &points[i - 1];
         let chord = sub.norm();
         let last = us[i - 1];
@@ -2042,8 +2045,25 @@ pub fn try_interpolate_control_points<T: FloatingPoint>(
 
     // normalize
     let max = us[us.len() - 1];
-    for i in 0..us.len() {
-        us[i] /= max;
+    if points.len() > 1 {
+        anyhow::ensure!(max > T::zero(), "All points coincide");
+        for i in 0..us.len() {
+            us[i] /= max;
+        }
+    }
+
+    Ok(us)
+}
+
+/// Interpolate points at the given ascending parameters from zero to one
+pub(crate) fn try_interpolate_control_points_at<T: FloatingPoint>(
+    points: &[DVector<T>],
+    us: &[T],
+    degree: usize,
+    homogeneous: bool,
+) -> anyhow::Result<(Vec<DVector<T>>, KnotVector<T>)> {
+    if points.len() < degree + 1 {
+        anyhow::bail!("Too few control points for curve");
     }
 
     let mut knots_start = vec![T::zero(); degree + 1];
diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 241d1e1..8656876 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -11,8 +11,9 @@ use simba::scalar::SupersetOf;
 
 use crate::{
     curve::{
+        chord_length_parameters,
         nurbs_curve::{dehomogenize, NurbsCurve, NurbsCurve3D},
-        try_interpolate_control_points,
+        try_interpolate_control_points_at,
     },
     misc::{
         binomial::Binomial, transformable::Transformable, transpose_control_points, FloatingPoint,
@@ -684,18 +685,35 @@ where
 
         let knots_u = unified_curves[0].knots().clone();
 
-        // Interpolate each column of control points to get the nurbs curve aligned with the v direction
-        let v_curves: anyhow::Result<Vec<_>> = (0..unified_curves[0].control_points().len())
+        let columns = (0..unified_curves[0].control_points().len())
             .map(|i| {
-                let points = unified_curves
+                unified_curves
                     .iter()
-                    .map(|c| c.control_points()[i].clone())
-                    .collect_vec();
-                let (control_points, knots) = try_interpolate_control_points(
-                    &points
-                        .iter()
-                        .map(|p| DVector::from_vec(p.iter().copied().collect()))
-                        .collect_vec(),
+                    .map(|c| DVector::from_vec(c.control_points()[i].iter().copied().collect()))
+                    .collect_vec()
+            })
+            .collect_vec();
+
+        // The columns share their parameters (the average of their chord lengths), so that each curve lies at one v;
+        // columns without any length (e.g. the common end of all curves) have no say in them
+        let chords = columns
+            .iter()
+            .filter(|column| column.len() == 1 || column.windows(2).any(|w| w[0] != w[1]))
+            .map(|column| chord_length_parameters(column))
+            .collect::<anyhow::Result<Vec<_>>>()?;
+        anyhow::ensure!(!chords.is_empty(), "All curves to loft coincide");
+        let count = T::from_usize(chords.len()).unwrap();
+        let parameters = (0..unified_curves.len())
+            .map(|i| chords.iter().fold(T::zero(), |sum, us| sum + us[i]) / count)
+            .collect_vec();
+
+        // Interpolate each column of control points to get the nurbs curve aligned with the v direction
+        let v_curves: anyhow::Result<Vec<_>> = columns
+            .iter()
+            .map(|points| {
+                let (control_points, knots) = try_interpolate_control_points_at(
+                    points,
+                    &parameters,
                     degree_v,
                     false,
                 )?;
-- 
2.43.0


From 53d7a3d4705f1418a46ad53169c373a33fdcd24d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:11:01 +0000
Subject: [PATCH 33/37] fix: loft of curves whose knots differ only by rounding
 does not fail

---
 src/surface/nurbs_surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 8656876..024e202 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1401,7 +1401,7 @@ where
     //merge all of the knot vectors
     let merged_knots = curves
         .iter()
-        .fold(vec![], |a, c| sorted_set_union(c.knots().as_slice(), &a));
+        .fold(vec![], |a, c| sorted_set_union(&a, c.knots().as_slice()));
 
     //knot refinement on each curve
     for curve in curves.iter_mut() {
-- 
2.43.0


From dcb603ce2eb5615504cc8cd26f71abafc8da063f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:11:27 +0000
Subject: [PATCH 34/37] fix: loft clamps curves whose knots are spaced
 differently

---
 src/surface/nurbs_surface.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 024e202..a317b01 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -711,12 +711,8 @@ where
         let v_curves: anyhow::Result<Vec<_>> = columns
             .iter()
             .map(|points| {
-                let (control_points, knots) = try_interpolate_control_points_at(
-                    points,
-                    &parameters,
-                    degree_v,
-                    false,
-                )?;
+                let (control_points, knots) =
+                    try_interpolate_control_points_at(points, &parameters, degree_v, false)?;
                 NurbsCurve::try_new(
                     degree_v,
                     control_points
@@ -1369,6 +1365,28 @@ where
         })
         .collect::<anyhow::Result<Vec<NurbsCurve<T, D>>>>()?;
 
+    // the ends of unclamped knot vectors stand for other parameters than those of the curves they are to match,
+    // unless all are spaced alike
+    let spacing = |c: &NurbsCurve<T, D>| {
+        let (min, max) = c.knots_domain();
+        c.knots()
+            .iter()
+            .map(|k| (*k - min) / (max - min))
+            .collect_vec()
+    };
+    let reference = spacing(&curves[0]);
+    let alike = curves.iter().all(|c| {
+        let knots = spacing(c);
+        knots.len() == reference.len()
+            && (knots.iter().zip(reference.iter()))
+                .all(|(a, b)| (*a - *b).abs() < T::default_epsilon())
+    });
+    if !alike {
+        for curve in curves.iter_mut() {
+            curve.try_clamp()?;
+        }
+    }
+
     let knot_intervals = curves
         .iter()
         .map(|c| {
-- 
2.43.0


From 77a042c746391b440111bdd9190cc5c1a75294d0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:19:36 +0000
Subject: [PATCH 35/37] fix: dividing a short curve by length gives evenly
 spaced positions

---
 src/curve/nurbs_curve.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 33a4a3d..f86b05a 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -581,8 +581,10 @@ where
         let mut acc_prev = T::zero();
 
         let gauss = GaussLegendre::new(16 + self.degree)?;
-        let eps = T::from_f64(1e-6).unwrap();
-        let tolerance = T::from_f64(1e-3 * 2.5).unwrap();
+        // small lengths need closer positions
+        let fraction = length * T::from_f64(1e-3).unwrap();
+        let eps = T::from_f64(1e-6).unwrap().min(fraction);
+        let tolerance = T::from_f64(1e-3 * 2.5).unwrap().min(fraction);
 
         while i < segments.len() {
             let current_length = lengthes[i];
-- 
2.43.0


From 939894cd5567c3de16e13db9bdfeab877c28198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:56 +0000
Subject: [PATCH 36/37] fix: the closest point of a curve is never farther than
 where the search started

---
 src/curve/nurbs_curve.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index f86b05a..824c603 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1704,7 +1704,15 @@ where
         match res.state().get_best_param().cloned() {
             Some(t) => {
                 if t.is_finite() {
-                    Ok(t)
+                    // Newton's method may end farther away than it started
+                    let mut closest = (t, (point - self.point_at(t)).norm());
+                    for u in pts.iter().map(|(u, _)| *u).chain([u]) {
+                        let d = (point - self.point_at(u)).norm();
+                        if d < closest.1 {
+                            closest = (u, d);
+                        }
+                    }
+                    Ok(closest.0)
                 } else {
                     Err(anyhow::anyhow!("No best parameter found"))
                 }
-- 
2.43.0


From 98ba680c5e8e9edffc8e3eeae163f755644fd24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:26 +0000
Subject: [PATCH 37/37] fix: the tessellation of a very short range of a curve
 keeps its end

---
 src/tessellation/tessellation_curve.rs | 6 +++---
 src/tessellation/trimmed_surface.rs    | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tessellation/tessellation_curve.rs b/src/tessellation/tessellation_curve.rs
index 7a446a2..315db6c 100644
--- a/src/tessellation/tessellation_curve.rs
+++ b/src/tessellation/tessellation_curve.rs
@@ -47,13 +47,13 @@ where
     DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
 {
     let p1 = curve.point_at(start);
+    let p3 = curve.point_at(end);
     let delta = end - start;
     if delta < T::from_f64(1e-8).unwrap() {
-        return vec![p1];
+        // too short to be divided any further
+        return if p1 == p3 { vec![p1] } else { vec![p1, p3] };
     }
 
-    let p3 = curve.point_at(end);
-
     let t = 0.5_f64 + 0.2_f64 * rng.random::<f64>();
     let mid = start + delta * T::from_f64(t).unwrap();
     let p2 = curve.point_at(mid);
diff --git a/src/tessellation/trimmed_surface.rs b/src/tessellation/trimmed_surface.rs
index 6acf354..f5b4197 100644
--- a/src/tessellation/trimmed_surface.rs
+++ b/src/tessellation/trimmed_surface.rs
@@ -322,13 +322,14 @@ fn iterate_uv_curve_tessellation<T: FloatingPoint>(
 ) -> Vec<Point2<T>> {
     let (p1, n1) = curve.point_tangent_at(start);
     let delta = end - start;
+    let (p3, n3) = curve.point_tangent_at(end);
     if delta < T::from_f64(1e-8).unwrap() {
-        return vec![p1];
+        // too short to be divided any further
+        return if p1 == p3 { vec![p1] } else { vec![p1, p3] };
     }
 
     let exact_mid = start + (end - start) * T::from_f64(0.5).unwrap();
     let (p2, n2) = curve.point_tangent_at(exact_mid);
-    let (p3, n3) = curve.point_tangent_at(end);
 
     let flag = {
         if curve.degree() == 1 {
-- 
2.43.0

