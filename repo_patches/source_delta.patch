From 22a26f50545110c34b422874846656343cf1ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 01/19] fix: span lookup stopped at repeated knots other than
 u, and underflowed for order p

---
 src/curve/knots/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index d5c4b5e..77e24ac 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -236,7 +236,8 @@ impl Knots {
 
                 while u >= Uk[i + 1] && i + 1 < lim {
                     i += 1;
-                    if Uk[i + 1] == Uk[i] {
+                    // stop at the first of the repeated knots equal to `u`
+                    if Uk[i + 1] == Uk[i] && Uk[i] == u {
                         break;
                     }
                 }
@@ -245,9 +246,10 @@ impl Knots {
             DomainKnotComparatorType::RightOrEqual => {
                 let mut i = Uk.len() - 1 - pk;
 
-                while u <= Uk[i - 1] && i > pk {
+                while i > pk && u <= Uk[i - 1] {
                     i -= 1;
-                    if Uk[i - 1] == Uk[i] {
+                    // stop at the last of the repeated knots equal to `u`
+                    if i > pk && Uk[i - 1] == Uk[i] && Uk[i] == u {
                         break;
                     }
                 }
-- 
2.43.0


From bb427fd92e5f7d567981ee5f49402c2bec443ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 02/19] fix: insertion and splitting accepted NaN as a
 parameter

---
 src/manipulation/insert.rs | 2 +-
 src/manipulation/split.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/manipulation/insert.rs b/src/manipulation/insert.rs
index d79ae9a..2a3889d 100644
--- a/src/manipulation/insert.rs
+++ b/src/manipulation/insert.rs
@@ -33,7 +33,7 @@ pub enum InsertError {
 /// Knot insertion algorithm by Boehm
 /// `u` the knot to be inserted. The value must be in `u ∈ (0, 1)`
 pub fn insert(c: &mut Curve, u: f64) -> Result<(), InsertError> {
-    if u <= 0.0 || u >= 1.0 {
+    if !(u > 0.0 && u < 1.0) {
         return Err(InsertError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
     }
 
diff --git a/src/manipulation/split.rs b/src/manipulation/split.rs
index a204ff3..1e5dc7a 100644
--- a/src/manipulation/split.rs
+++ b/src/manipulation/split.rs
@@ -43,7 +43,7 @@ pub fn split_and_normalize(
     u: f64,
     normalizeKnotVectors: (bool, bool),
 ) -> Result<(Curve, Curve), SplitError> {
-    if u <= 0.0 || u >= 1.0 {
+    if !(u > 0.0 && u < 1.0) {
         return Err(SplitError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
     }
 
-- 
2.43.0


From ae1f559c3f0fed303999da4d4e1bb6a1efda4370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 03/19] fix: derivative curves lacked their own derivatives

---
 src/curve/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 8f4bd9b..11c435d 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -324,7 +324,9 @@ impl Curve {
     pub fn get_derivative_curve(&self, k: usize) -> Self {
         let knots = Knots::new(self.degree() - k, self.knots.vector_derivative(k).clone());
         let points = ControlPoints::new(self.points.matrix_derivative(k).clone());
-        Curve { knots, points }
+        let mut c = Curve { knots, points };
+        c.calculate_derivatives();
+        c
     }
 }
 
-- 
2.43.0


From 665f55542497104e6405464f52fb99f9924409e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:47 +0000
Subject: [PATCH 04/19] fix: merging curves with different numbers of segments
 panicked

---
 src/manipulation/merge.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index 43f4c75..f7974ca 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -134,7 +134,7 @@ pub(crate) fn merge_with_constraints(a: &ConstrainedCurve, b: &ConstrainedCurve)
 
     // adjust control points
     let (Sadj, Tadj) =
-        adjust_shifted_control_points_of_both_splines(a.curve, &Sshifted, &Tshifted, &Vadj, &Wrev, &Wadj);
+        adjust_shifted_control_points_of_both_splines(a.curve, b.curve, &Sshifted, &Tshifted, &Vadj, &Wrev, &Wadj);
 
     // do actual merge
     let P_merged = generate_control_point_vector_of_merged_spline(a.curve, b.curve, &Sadj, &Tadj);
@@ -513,6 +513,7 @@ fn adjust_shifted_control_points(
 
 fn adjust_shifted_control_points_of_both_splines(
     a: &Curve,
+    b: &Curve,
     Sshifted: &MatD,
     Tshifted: &MatD,
     Vadj: &VecD,
@@ -520,19 +521,20 @@ fn adjust_shifted_control_points_of_both_splines(
     Wadjrev: &VecD,
 ) -> (MatD, MatD) {
     let p = a.degree();
-    let n = a.segments();
+    let m = a.segments();
+    let o = b.segments();
     let dim = a.dimension();
 
     let V0 = a.knots.vector();
 
     // obtain adjusted, shifted control points of the second spline
-    let Sadj = adjust_shifted_control_points(Sshifted, V0, Vadj, p, n, dim);
+    let Sadj = adjust_shifted_control_points(Sshifted, V0, Vadj, p, m, dim);
 
     // reverse control points of the second spline
     let P2shiftedrev = curve::points::reversed(Tshifted);
 
     // obtain adjusted, shifted control points of the reversed second spline
-    let Tadjrev = adjust_shifted_control_points(&P2shiftedrev, Wrev, Wadjrev, p, n, dim);
+    let Tadjrev = adjust_shifted_control_points(&P2shiftedrev, Wrev, Wadjrev, p, o, dim);
 
     // obtain adjusted, shifted control points of the second spline
     let Tadj = curve::points::reversed(&Tadjrev);
-- 
2.43.0


From 23dabc55cd0045ebc4457601fa128e38fe69b31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:48 +0000
Subject: [PATCH 05/19] fix: merged curves of degree three and above used
 shifted derivative orders at the joint

---
 src/manipulation/merge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index f7974ca..838c824 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -492,7 +492,8 @@ fn adjust_shifted_control_points(
         elem.push(Pshifted.column(i).into());
     }
 
-    for k in 0..=p - 1 {
+    // the zeroth order point is already present
+    for k in 1..=p - 1 {
         let derivative_point = generateDerivativeControlPoint(n - p + 1, k, Pshifted, U0, p, n, dim); //generateDerivativeControlPoint(n - p + 1, k, shifted_control_points, original_knot_vector);
         qki[n - p + 1].push(derivative_point);
     }
-- 
2.43.0


From 07773514f839e7d473ced34300a0ed8dfac5836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 06/19] fix: prepend_constrained applied each curve's
 constraints to the other curve

---
 src/curve/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 11c435d..57c8d3a 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -217,8 +217,8 @@ impl Curve {
         constraints_other: Constraints,
     ) -> &mut Self {
         let c = merge_with_constraints(
-            &ConstrainedCurve { curve: other, constraints: constraints_self },
-            &ConstrainedCurve { curve: self, constraints: constraints_other },
+            &ConstrainedCurve { curve: other, constraints: constraints_other },
+            &ConstrainedCurve { curve: self, constraints: constraints_self },
         )
         .unwrap();
         self.knots = c.knots;
-- 
2.43.0


From b7eae5c11673ed69cfceff74a456f071fc2f42e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 07/19] fix: merging lost its constraints to an inaccurate
 singular value decomposition

---
 src/manipulation/merge.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index 838c824..ff7c741 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -397,7 +397,25 @@ fn solve_linear_equation_system(a: &ConstrainedCurve, b: &ConstrainedCurve) -> M
     let Nmat = construct_Nmat(a, b);
     let const_mat = constructConstMat(a.curve, b.curve, total_constraints);
 
-    SVD::new(Nmat, true, true).solve(&const_mat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose()
+    let rhs = const_mat.transpose();
+    let svd = SVD::new(Nmat.clone(), true, true);
+    let solve = |rhs: &MatD| svd.solve(rhs, f64::EPSILON.sqrt()).unwrap();
+
+    // The decomposition is only accurate up to about the square root of the machine precision,
+    // which the spread of the singular values amplifies. Refine until the residual stops decreasing.
+    let mut solution = solve(&rhs);
+    let mut residual = &rhs - &Nmat * &solution;
+    for _ in 0..100 {
+        let refined = &solution + solve(&residual);
+        let refined_residual = &rhs - &Nmat * &refined;
+        if !(refined_residual.norm() < residual.norm()) {
+            break;
+        }
+        solution = refined;
+        residual = refined_residual;
+    }
+
+    solution.transpose()
 }
 
 fn generate_shifted_control_point_vectors_of_spline1and2(a: &Curve, b: &Curve, shifts: &MatD) -> (MatD, MatD) {
-- 
2.43.0


From 3dbdf1e2af4e442aa5a239c000835fbe501e1b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:48 +0000
Subject: [PATCH 08/19] fix: fixed-end fits panicked without internal control
 points and for too high difference orders

---
 src/curve/points/methods/fit/fixed.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 0124b5c..a5546eb 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -20,15 +20,28 @@ pub fn fit(
 ) -> Result<MatD, FitError> {
     input_checks(knots, points, params, &penalization)?;
 
-    let Q = generate_qvectors(knots, points, params);
-    let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
-    let Nmat = calculate_coefficient_matrix(knots, points, params);
-
-    let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
-    let internal_control_points = svd.solve(&Qmat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose();
-
     let n = knots.segments();
     let m = points.segments();
+
+    // only the differences of the `n - 1` internal control points are penalized
+    if let Some(pen) = &penalization {
+        if n < pen.kappa.saturating_add(2) {
+            return Err(FitError::RequestedPolynomialSegmentAndPenalizationKappaMismatch { n, kappa: pen.kappa });
+        }
+    }
+
+    let internal_control_points = if n > 1 {
+        let Q = generate_qvectors(knots, points, params);
+        let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
+        let Nmat = calculate_coefficient_matrix(knots, points, params);
+
+        let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
+        svd.solve(&Qmat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose()
+    } else {
+        // a single segment has no internal control points
+        MatD::zeros(points.dimension(), 0)
+    };
+
     let mut control_points = MatD::zeros(points.dimension(), n + 1);
 
     // Set the first and last control point to the original data points
-- 
2.43.0


From 9bc968bc7326bf79602aecced41d100ea00518e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:53 +0000
Subject: [PATCH 09/19] fix: fits with a NaN or infinite penalization weight
 panicked or did not return

---
 src/curve/points/methods/fit/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/curve/points/methods/fit/mod.rs b/src/curve/points/methods/fit/mod.rs
index ab60832..45b5e3d 100644
--- a/src/curve/points/methods/fit/mod.rs
+++ b/src/curve/points/methods/fit/mod.rs
@@ -23,6 +23,9 @@ pub enum FitError {
     #[error("The penalization parameter `lambda = {lambda}` cannot be negative.")]
     NegativeLambda { lambda: f64 },
 
+    #[error("The penalization parameter `lambda = {lambda}` must be finite.")]
+    NonFiniteLambda { lambda: f64 },
+
     #[error(
         "The number of data point segments m = {m} must be greater than the requested polynomial segments n = {n}"
     )]
@@ -81,6 +84,7 @@ pub fn compute_svd(
     match penalization {
         Some(penalization) => match penalization.lambda {
             l if l < 0.0 => return Err(FitError::NegativeLambda { lambda: l }),
+            l if !l.is_finite() => return Err(FitError::NonFiniteLambda { lambda: l }),
             l if l > 0.0 && !is_uniform(knots).unwrap() /*TODO refactor errors and eliminate unwrap*/ => return Err(FitError::NonUniformKnots),
             l => {
                 let delta_mat = calculate_finite_difference_matrix(penalization.kappa, knots);
-- 
2.43.0


From ccc64e3d77aa8567e706a16219baddaa7ddd5309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:16 +0000
Subject: [PATCH 10/19] fix: rounded chord length and centripetal parameters
 could exceed one

---
 src/curve/parameters/methods.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/curve/parameters/methods.rs b/src/curve/parameters/methods.rs
index 68bacf9..3877cba 100644
--- a/src/curve/parameters/methods.rs
+++ b/src/curve/parameters/methods.rs
@@ -36,9 +36,12 @@ pub fn centripetal(points: &DataPoints) -> Parameters {
 
     let mut u_bar = VecD::zeros(m + 1);
 
+    // Divide the partial sums instead of adding up quotients, whose rounding errors could exceed the last parameter.
+    let mut partial_sum = 0.0;
     for g in 1..m {
         let diff = points.get(g) - points.get(g - 1);
-        u_bar[g] = u_bar[g - 1] + diff.norm().sqrt() / sum;
+        partial_sum += diff.norm().sqrt();
+        u_bar[g] = partial_sum / sum;
     }
 
     u_bar[m] = 1.0;
@@ -57,9 +60,13 @@ pub fn chord_length(points: &DataPoints) -> Parameters {
     }
 
     let mut u_bar = VecD::zeros(m + 1);
+
+    // Divide the partial sums instead of adding up quotients, whose rounding errors could exceed the last parameter.
+    let mut partial_sum = 0f64;
     for g in 1..m {
         let diff = points.get(g) - points.get(g - 1);
-        u_bar[g] = u_bar[g - 1] + diff.norm() / sum;
+        partial_sum += diff.norm();
+        u_bar[g] = partial_sum / sum;
     }
 
     u_bar[m] = 1f64;
-- 
2.43.0


From 3a2b51eb9f95e3b604738136ef6e227d07eb4acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:33 +0000
Subject: [PATCH 11/19] fix: de Boor knots left out parameters when fitting
 fewer segments than data points

---
 src/curve/knots/methods.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/methods.rs b/src/curve/knots/methods.rs
index fd42ee1..a238764 100644
--- a/src/curve/knots/methods.rs
+++ b/src/curve/knots/methods.rs
@@ -87,7 +87,7 @@ pub fn de_boor(degree: usize, segments: usize, parameters: &Parameters) -> Resul
     let internal_knot_count = n - p;
     let internal_knot_spans = internal_knot_count + 1;
 
-    let d = (n + 1) as f64 / (internal_knot_spans) as f64; // eq. 9.68 in `Piegl1997`
+    let d = U_bar.len() as f64 / (internal_knot_spans) as f64; // eq. 9.68 in `Piegl1997`
 
     let mut U = VecD::zeros(p + n + 2);
 
-- 
2.43.0


From fedee398379ce5ce63dd67479eeb8497ec81ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 12/19] fix: number of segments of high derivatives underflowed

---
 src/curve/knots/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index 77e24ac..870bc62 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -108,7 +108,7 @@ impl Knots {
     }
 
     pub fn segments_derivative(&self, k: usize) -> usize {
-        self.Uk[k].len() - (self.p + 2 - 2 * k)
+        self.Uk[k].len() + 2 * k - (self.p + 2)
     }
 
     pub fn len(&self, k: usize) -> usize {
-- 
2.43.0


From 054aceae22c3e6e38cee658b73da650e56d21236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 13/19] fix: curves could be built from knots not matching
 their degree and control points

---
 src/curve/generation/mod.rs |  5 ++++-
 src/curve/mod.rs            | 12 ++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/curve/generation/mod.rs b/src/curve/generation/mod.rs
index 11fa6ee..de4b545 100644
--- a/src/curve/generation/mod.rs
+++ b/src/curve/generation/mod.rs
@@ -91,7 +91,10 @@ pub fn generate(generation: Generation) -> Result<Curve, CurveError> {
             let data_points = DataPoints::new(points.matrix().clone());
             let knots = match method {
                 knots::Generation::Uniform => knots::methods::uniform(p, n),
-                knots::Generation::Manual { knots } => Ok(knots.clone()),
+                knots::Generation::Manual { knots } if knots.degree() != p => {
+                    Err(CurveError::DegreeAndKnotsMismatch { p, q: knots.degree() })
+                }
+                knots::Generation::Manual { knots } => Ok(knots),
                 knots::Generation::Method {
                     // TODO default methods deBoor + chord length
                     parameter_method,
diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 57c8d3a..d88c2b9 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -57,6 +57,15 @@ pub enum CurveError {
     )]
     DegreeAndSegmentsMismatch { p: usize, n: usize },
 
+    #[error(
+        "The number of knots `{knots}` must be equal to `n + p + 2` \
+        with the number of segments `n = {n}` and the degree `p = {p}`."
+    )]
+    KnotsAndSegmentsMismatch { knots: usize, p: usize, n: usize },
+
+    #[error("The degree `q = {q}` of the knots must be equal to the degree `p = {p}` of the curve.")]
+    DegreeAndKnotsMismatch { p: usize, q: usize },
+
     #[error("The derivative order `k = {k}` cannot be greater than curve degree `p = {p}.")]
     DegreeAndDerivativeOrderMismatch { p: usize, k: usize },
 
@@ -105,6 +114,9 @@ impl Curve {
 
         match (knots.degree(), points.segments()) {
             (p, n) if n < p => Err(CurveError::DegreeAndSegmentsMismatch { p, n }),
+            (p, n) if knots.len(0) != n + p + 2 => {
+                Err(CurveError::KnotsAndSegmentsMismatch { knots: knots.len(0), p, n })
+            }
             _ => {
                 let mut c = Self { knots, points };
                 c.calculate_derivatives();
-- 
2.43.0


From 355c444f697293d05be8dd9f5545a8c2c948211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:12 +0000
Subject: [PATCH 14/19] fix: penalized fits were off by up to a few percent due
 to an inaccurate singular value decomposition

---
 src/curve/points/methods/fit/fixed.rs | 12 +++++++++---
 src/curve/points/methods/fit/loose.rs |  8 ++++----
 src/curve/points/methods/fit/mod.rs   | 11 ++++++-----
 src/curve/points/methods/mod.rs       | 28 +++++++++++++++++++++++++++
 src/manipulation/merge.rs             | 23 ++--------------------
 5 files changed, 49 insertions(+), 33 deletions(-)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index a5546eb..4c67d5f 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -5,7 +5,7 @@ use crate::{
         knots::Knots,
         parameters::Parameters,
         points::{
-            methods::fit::{compute_svd, difference_operator, input_checks, FitError, Penalization},
+            methods::fit::{difference_operator, input_checks, solve_normal_equations, FitError, Penalization},
             DataPoints, Points,
         },
     },
@@ -35,8 +35,14 @@ pub fn fit(
         let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
         let Nmat = calculate_coefficient_matrix(knots, points, params);
 
-        let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
-        svd.solve(&Qmat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose()
+        solve_normal_equations(
+            knots,
+            &Nmat,
+            &penalization,
+            Box::new(calculate_finite_difference_matrix),
+            &Qmat.transpose(),
+        )?
+        .transpose()
     } else {
         // a single segment has no internal control points
         MatD::zeros(points.dimension(), 0)
diff --git a/src/curve/points/methods/fit/loose.rs b/src/curve/points/methods/fit/loose.rs
index 2194e91..7723252 100644
--- a/src/curve/points/methods/fit/loose.rs
+++ b/src/curve/points/methods/fit/loose.rs
@@ -3,7 +3,7 @@ use crate::{
         knots::Knots,
         parameters::Parameters,
         points::{
-            methods::fit::{compute_svd, difference_operator, input_checks, FitError, Penalization},
+            methods::fit::{difference_operator, input_checks, solve_normal_equations, FitError, Penalization},
             DataPoints, Points,
         },
     },
@@ -20,11 +20,11 @@ pub fn fit(
 
     let Nmat = calculate_coefficient_matrix(knots, points, params);
 
-    let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
     let mat = Nmat.transpose() * points.matrix().transpose();
-    let control_points = svd.solve(&mat, f64::EPSILON.sqrt()).unwrap().transpose();
+    let control_points =
+        solve_normal_equations(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix), &mat)?;
 
-    Ok(control_points)
+    Ok(control_points.transpose())
 }
 
 fn calculate_coefficient_matrix(knots: &Knots, points: &DataPoints, params: &Parameters) -> MatD {
diff --git a/src/curve/points/methods/fit/mod.rs b/src/curve/points/methods/fit/mod.rs
index 45b5e3d..8a367dd 100644
--- a/src/curve/points/methods/fit/mod.rs
+++ b/src/curve/points/methods/fit/mod.rs
@@ -1,11 +1,11 @@
-use nalgebra::{DMatrix, Dyn, SVD};
+use nalgebra::DMatrix;
 use thiserror::Error;
 
 use crate::{
     curve::{
         knots::{is_uniform, Knots},
         parameters::Parameters,
-        points::DataPoints,
+        points::{methods::solve_refined, DataPoints},
     },
     types::MatD,
 };
@@ -73,12 +73,13 @@ fn input_checks(
     }
 }
 
-pub fn compute_svd(
+pub fn solve_normal_equations(
     knots: &Knots,
     Nmat: &MatD,
     penalization: &Option<Penalization>,
     calculate_finite_difference_matrix: Box<dyn FnOnce(usize, &Knots) -> MatD>,
-) -> Result<SVD<f64, Dyn, Dyn>, FitError> {
+    rhs: &MatD,
+) -> Result<MatD, FitError> {
     let mut mat = Nmat.transpose() * Nmat;
 
     match penalization {
@@ -94,7 +95,7 @@ pub fn compute_svd(
         None => {}
     }
 
-    Ok(SVD::new(mat, true, true))
+    Ok(solve_refined(&mat, rhs))
 }
 
 // finite difference matrix penalizing BSplines
diff --git a/src/curve/points/methods/mod.rs b/src/curve/points/methods/mod.rs
index 2475cbd..5534e18 100644
--- a/src/curve/points/methods/mod.rs
+++ b/src/curve/points/methods/mod.rs
@@ -1,2 +1,30 @@
+use nalgebra::SVD;
+
+use crate::types::MatD;
+
 pub mod fit;
 pub mod interpolation;
+
+/// Solves the linear equation system `mat * solution = rhs`.
+///
+/// The singular value decomposition of `nalgebra` is only accurate up to about the square root of the machine
+/// precision, sometimes less, which the spread of the singular values amplifies. The solution is therefore refined
+/// until the residual stops decreasing.
+pub(crate) fn solve_refined(mat: &MatD, rhs: &MatD) -> MatD {
+    let svd = SVD::new(mat.clone(), true, true);
+    let solve = |rhs: &MatD| svd.solve(rhs, f64::EPSILON.sqrt()).unwrap();
+
+    let mut solution = solve(rhs);
+    let mut residual = rhs - mat * &solution;
+    for _ in 0..100 {
+        let refined = &solution + solve(&residual);
+        let refined_residual = rhs - mat * &refined;
+        if !(refined_residual.norm() < residual.norm()) {
+            break;
+        }
+        solution = refined;
+        residual = refined_residual;
+    }
+
+    solution
+}
diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index ff7c741..d8ac13c 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -18,7 +18,6 @@ doc = ::embed_doc_image::embed_image!("merge-after-right-start-constrained", "do
 
 use std::ops::{AddAssign, DivAssign, SubAssign};
 
-use nalgebra::SVD;
 use thiserror::Error;
 
 use crate::{
@@ -26,7 +25,7 @@ use crate::{
     curve::{
         basis::basis,
         knots::{is_clamped, is_normed, reversed, Knots},
-        points::{ControlPoints, Points},
+        points::{methods::solve_refined, ControlPoints, Points},
         Curve, CurveError,
     },
     manipulation::merge::MergeError::CurveGenerationFailure,
@@ -397,25 +396,7 @@ fn solve_linear_equation_system(a: &ConstrainedCurve, b: &ConstrainedCurve) -> M
     let Nmat = construct_Nmat(a, b);
     let const_mat = constructConstMat(a.curve, b.curve, total_constraints);
 
-    let rhs = const_mat.transpose();
-    let svd = SVD::new(Nmat.clone(), true, true);
-    let solve = |rhs: &MatD| svd.solve(rhs, f64::EPSILON.sqrt()).unwrap();
-
-    // The decomposition is only accurate up to about the square root of the machine precision,
-    // which the spread of the singular values amplifies. Refine until the residual stops decreasing.
-    let mut solution = solve(&rhs);
-    let mut residual = &rhs - &Nmat * &solution;
-    for _ in 0..100 {
-        let refined = &solution + solve(&residual);
-        let refined_residual = &rhs - &Nmat * &refined;
-        if !(refined_residual.norm() < residual.norm()) {
-            break;
-        }
-        solution = refined;
-        residual = refined_residual;
-    }
-
-    solution.transpose()
+    solve_refined(&Nmat, &const_mat.transpose()).transpose()
 }
 
 fn generate_shifted_control_point_vectors_of_spline1and2(a: &Curve, b: &Curve, shifts: &MatD) -> (MatD, MatD) {
-- 
2.43.0


From e15b3f3096cde84c252f29c51abf45aa9cf9e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 15/19] fix: count the end of an unclamped domain only once in
 the basis functions

---
 src/curve/basis/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/basis/mod.rs b/src/curve/basis/mod.rs
index 81bfb78..3a59fc6 100644
--- a/src/curve/basis/mod.rs
+++ b/src/curve/basis/mod.rs
@@ -28,7 +28,9 @@ use crate::types::VecD;
 /// - `U` the knot vector
 pub fn basis(Uk: &VecD, i: usize, p: usize, k: usize, n: usize, u: f64) -> f64 {
     if p == 0 {
-        if (Uk[i] <= u && u < Uk[i + 1]) || (i == n - k && u == Uk[n + 1 - k]) {
+        // The end of the domain belongs to the last interval only, also if further knots follow.
+        let is_end = u == Uk[n + 1 - k];
+        if (Uk[i] <= u && u < Uk[i + 1] && !is_end) || (i == n - k && is_end) {
             return 1.0;
         }
         return 0.0;
-- 
2.43.0


From f1784c89e046914a8dfcf07c93a6981cd2c8ec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 16/19] fix: refuse insertions and splits outside of the domain
 of a curve on a part of [0,1]

---
 src/manipulation/insert.rs | 8 ++++++--
 src/manipulation/split.rs  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/manipulation/insert.rs b/src/manipulation/insert.rs
index 2a3889d..ec6ff53 100644
--- a/src/manipulation/insert.rs
+++ b/src/manipulation/insert.rs
@@ -33,8 +33,12 @@ pub enum InsertError {
 /// Knot insertion algorithm by Boehm
 /// `u` the knot to be inserted. The value must be in `u ∈ (0, 1)`
 pub fn insert(c: &mut Curve, u: f64) -> Result<(), InsertError> {
-    if !(u > 0.0 && u < 1.0) {
-        return Err(InsertError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
+    // The curve can be defined on a part of [0, 1] only, such as the unnormalized halves of a split curve.
+    let domain = c.knots.domain();
+    let (lower_bound, upper_bound) = (domain[0].max(0.0), domain[domain.len() - 1].min(1.0));
+
+    if !(u > lower_bound && u < upper_bound) {
+        return Err(InsertError::OutOfBounds { u, lower_bound, upper_bound });
     }
 
     let p = c.degree();
diff --git a/src/manipulation/split.rs b/src/manipulation/split.rs
index 1e5dc7a..f623b06 100644
--- a/src/manipulation/split.rs
+++ b/src/manipulation/split.rs
@@ -43,8 +43,12 @@ pub fn split_and_normalize(
     u: f64,
     normalizeKnotVectors: (bool, bool),
 ) -> Result<(Curve, Curve), SplitError> {
-    if !(u > 0.0 && u < 1.0) {
-        return Err(SplitError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
+    // The curve can be defined on a part of [0, 1] only, such as the unnormalized halves of a split curve.
+    let domain = c.knots.domain();
+    let (lower_bound, upper_bound) = (domain[0].max(0.0), domain[domain.len() - 1].min(1.0));
+
+    if !(u > lower_bound && u < upper_bound) {
+        return Err(SplitError::OutOfBounds { u, lower_bound, upper_bound });
     }
 
     let p = c.degree();
-- 
2.43.0


From 0d6c46e1a2f06ac709cff66b5ee3d20b3f3e94d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 17/19] fix: normalize the derivative knot vectors of unclamped
 knots like the knots themselves

---
 src/curve/knots/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index 870bc62..5af180a 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -155,8 +155,10 @@ impl Knots {
     }
 
     pub fn normalize(&mut self) -> &mut Self {
+        // The derivative knot vectors lack the outermost knots, but must be mapped in the same way.
+        let old_lim = (self.Uk[0].min(), self.Uk[0].max());
         for knots in self.Uk.iter_mut() {
-            normalize(knots);
+            rescale(knots, old_lim, (0.0, 1.0));
         }
         self
     }
-- 
2.43.0


From 48646677726631fc97c120d1e4cda301abefaca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 18/19] fix: interpolated curves missed the data by up to 6e-3
 due to an inaccurate singular value decomposition

---
 src/curve/points/methods/interpolation.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/curve/points/methods/interpolation.rs b/src/curve/points/methods/interpolation.rs
index a864bc0..9b77012 100644
--- a/src/curve/points/methods/interpolation.rs
+++ b/src/curve/points/methods/interpolation.rs
@@ -1,10 +1,8 @@
-use nalgebra::SVD;
-
 use crate::{
     curve::{
         knots::Knots,
         parameters::Parameters,
-        points::{DataPoints, Points},
+        points::{methods::solve_refined, DataPoints, Points},
     },
     types::MatD,
 };
@@ -23,9 +21,8 @@ pub fn interpolate(knots: &Knots, points: &DataPoints, params: &Parameters) -> M
         }
     }
 
-    let svd = SVD::new(Nmat, true, true);
     let mat = points.matrix().transpose();
-    svd.solve(&mat, f64::EPSILON.sqrt()).unwrap().transpose()
+    solve_refined(&Nmat, &mat).transpose()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 00158aa623bbb2530913bba139e705d5aab47bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:36 +0000
Subject: [PATCH 19/19] fix: requests without any points underflowed instead of
 being refused

---
 src/curve/points/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/points/mod.rs b/src/curve/points/mod.rs
index ba06d61..3f76b0b 100644
--- a/src/curve/points/mod.rs
+++ b/src/curve/points/mod.rs
@@ -76,7 +76,7 @@ impl DataPoints {
         self
     }
     pub fn segments(&self) -> usize {
-        self.count() - 1
+        self.count().saturating_sub(1)
     }
 }
 
@@ -103,7 +103,7 @@ impl ControlPoints {
     }
 
     pub fn segments(&self) -> usize {
-        self.count() - 1
+        self.count().saturating_sub(1)
     }
 
     pub fn matrix_derivative(&self, derivative: usize) -> &MatD {
-- 
2.43.0

