From 9c2f074c9119c8032aa2c77efc882f990a3cd601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 01/18] fix: SO3 log of a quaternion with negative w returned
 the inverse rotation

---
 src/variables/so3.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/variables/so3.rs b/src/variables/so3.rs
index d795c1e..c651609 100644
--- a/src/variables/so3.rs
+++ b/src/variables/so3.rs
@@ -135,9 +135,10 @@ impl<T: Numeric> Variable<T> for SO3<T> {
     }
 
     fn log(&self) -> VectorX<T> {
-        let xi = vectorx![self.xyzw.x, self.xyzw.y, self.xyzw.z];
-        // Abs value in case we had a negative quaternion
-        let w = self.xyzw.w.abs();
+        // q and -q are the same rotation, use the one with positive w
+        let sign = T::from(if self.xyzw.w < T::from(0.0) { -1.0 } else { 1.0 });
+        let xi = vectorx![self.xyzw.x, self.xyzw.y, self.xyzw.z] * sign;
+        let w = self.xyzw.w * sign;
 
         let norm_v = xi.norm();
         if norm_v < T::from(1e-3) {
-- 
2.43.0


From d0fa6ea422bdb748dcde9655cfd1e2e7ae81f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 02/18] fix: SO3 exp lost the sign of sin(theta/2) for tangents
 longer than 2 pi

---
 src/variables/so3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/so3.rs b/src/variables/so3.rs
index c651609..898f0c8 100644
--- a/src/variables/so3.rs
+++ b/src/variables/so3.rs
@@ -125,7 +125,7 @@ impl<T: Numeric> Variable<T> for SO3<T> {
             xyzw.w = (theta * T::from(0.5)).cos();
 
             let omega = xi / theta;
-            let sin_theta_half = (T::from(1.0) - xyzw.w * xyzw.w).sqrt();
+            let sin_theta_half = (theta * T::from(0.5)).sin();
             xyzw.x = omega[0] * sin_theta_half;
             xyzw.y = omega[1] * sin_theta_half;
             xyzw.z = omega[2] * sin_theta_half;
-- 
2.43.0


From dd7632d49c8eeba57d582644749f60ce5ee8f70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 03/18] fix: SE2 exp/log treated every negative angle as a
 small angle

The small angle branch also dropped the first order term, which made the
derivative of log wrong close to zero rotation.
---
 src/variables/se2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 444aa04..7ee0c13 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -91,9 +91,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
         } else {
             let A;
             let B;
-            if theta < T::from(1e-5) {
+            if theta.abs() < T::from(1e-5) {
                 A = T::from(1.0);
-                B = T::from(0.0);
+                B = theta / T::from(2.0);
             } else {
                 A = theta.sin() / theta;
                 B = (T::from(1.0) - theta.cos()) / theta;
@@ -115,9 +115,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
         } else {
             let A;
             let B;
-            if theta < T::from(1e-5) {
+            if theta.abs() < T::from(1e-5) {
                 A = T::from(1.0);
-                B = T::from(0.0);
+                B = theta / T::from(2.0);
             } else {
                 A = theta.sin() / theta;
                 B = (T::from(1.0) - theta.cos()) / theta;
-- 
2.43.0


From f236dd3475fe599b5b42ee1efb4d3f483dbd8790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 04/18] fix: SE2 adjoint indexed out of bounds and ignored the
 rotation first ordering

---
 src/variables/se2.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 7ee0c13..7f08a0f 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -161,9 +161,10 @@ impl<T: Numeric> MatrixLieGroup<T> for SE2<T> {
 
         let r_mat = self.rot.to_matrix();
 
-        mat.fixed_view_mut::<2, 2>(0, 0).copy_from(&r_mat);
-        mat[(0, 2)] = self.xy[2];
-        mat[(1, 2)] = -self.xy[1];
+        mat[(0, 0)] = T::from(1.0);
+        mat[(1, 0)] = self.xy[1];
+        mat[(2, 0)] = -self.xy[0];
+        mat.fixed_view_mut::<2, 2>(1, 1).copy_from(&r_mat);
 
         mat
     }
-- 
2.43.0


From 4ba48abfce2121781985e485f8fc4592522ead1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 05/18] fix: SE2 vee read the wrong matrix entries

---
 src/variables/se2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 7f08a0f..7ef91cd 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -181,7 +181,7 @@ impl<T: Numeric> MatrixLieGroup<T> for SE2<T> {
     }
 
     fn vee(xi: MatrixView<3, 3, T>) -> Vector3<T> {
-        Vector3::new(xi[(1, 0)], xi[(0, 1)], xi[(0, 2)])
+        Vector3::new(xi[(1, 0)], xi[(0, 2)], xi[(1, 2)])
     }
 
     fn apply(&self, v: VectorView2<T>) -> Vector2<T> {
-- 
2.43.0


From dd373680f42c24ed1ccb0940744679598f5774f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 06/18] fix: numerical jacobians of several variables overwrote
 each other's columns

---
 src/linalg/numerical_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/numerical_diff.rs b/src/linalg/numerical_diff.rs
index 19f07eb..fc20c39 100644
--- a/src/linalg/numerical_diff.rs
+++ b/src/linalg/numerical_diff.rs
@@ -55,8 +55,8 @@ macro_rules! numerical_maker {
                 let mut jac: MatrixX = MatrixX::zeros(res.len(), dim);
                 let mut tvs = [$( VectorX::zeros($name.dim()), )*];
 
+                let mut curr_dim = 0;
                 for i in 0..$num {
-                    let mut curr_dim = 0;
                     for j in 0..tvs[i].len() {
                         tvs[i][j] = eps;
                         // TODO: It'd be more efficient to not have to add tangent vectors to each variable
@@ -127,8 +127,8 @@ macro_rules! numerical_variable_maker {
                 let mut jac: MatrixX = MatrixX::zeros(VOut::DIM, dim);
                 let mut tvs = [$( VectorX::zeros($name.dim()), )*];
 
+                let mut curr_dim = 0;
                 for i in 0..$num {
-                    let mut curr_dim = 0;
                     for j in 0..tvs[i].len() {
                         tvs[i][j] = eps;
                         // TODO: It'd be more efficient to not have to add tangent vectors to each variable
-- 
2.43.0


From b9f2c78397ee8f5cb2497ccd871ab5212f114e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 07/18] fix: forward_prop_derivative always returned a zero
 derivative

---
 src/linalg/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 3433edd..5dc97b0 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -135,7 +135,7 @@ pub fn forward_prop_derivative<F: Fn(DualScalar) -> DualScalar>(
     f: F,
     x: dtype,
 ) -> DiffResult<dtype, dtype> {
-    let xd = x.into();
+    let xd = DualScalar::from(x).derivative();
     let r = f(xd);
     DiffResult {
         value: r.re,
-- 
2.43.0


From df20ea51d70d3a212a1a02272d5dff475afdac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 08/18] fix: decoding a key truncated its symbol's character to
 one byte

---
 src/containers/symbol.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/containers/symbol.rs b/src/containers/symbol.rs
index d34a6dc..2811c59 100644
--- a/src/containers/symbol.rs
+++ b/src/containers/symbol.rs
@@ -45,7 +45,8 @@ impl Symbol for DefaultSymbol {}
 
 impl From<Key> for DefaultSymbol {
     fn from(key: Key) -> Self {
-        let chr = ((key.0 & CHR_MASK) >> IDX_BITS) as u8 as char;
+        let chr = char::from_u32(((key.0 & CHR_MASK) >> IDX_BITS) as u32)
+            .unwrap_or(char::REPLACEMENT_CHARACTER);
         let idx = key.0 & IDX_MASK;
         Self { chr, idx }
     }
-- 
2.43.0


From fe4cd978faf0206e7dc0ee5b0cca9b1a9f2c817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:44 +0000
Subject: [PATCH 09/18] fix: load_g20 put the prior on the second vertex
 instead of the first

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2317677..43b2003 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -40,7 +40,7 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let key = X(id);
 
                 // Add prior on whatever the first variable is
-                if values.len() == 1 {
+                if values.is_empty() {
                     let factor = fac![PriorResidual::new(var.clone()), key];
                     graph.add_factor(factor);
                 }
@@ -87,7 +87,7 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let key = X(id);
 
                 // Add prior on whatever the first variable is
-                if values.len() == 1 {
+                if values.is_empty() {
                     let noise =
                         GaussianNoise::<6>::from_diag_covs(1e-6, 1e-6, 1e-6, 1e-4, 1e-4, 1e-4);
                     let factor = fac![PriorResidual::new(var.clone()), key, noise];
-- 
2.43.0


From ad6df0fbc0092a940fdf64e4f4cf6f5d0782cfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:44 +0000
Subject: [PATCH 10/18] fix: load_g20 ignored the rotation first ordering for
 SE2 information

---
 src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 43b2003..5360e81 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -61,7 +61,8 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let m22 = parts[9].parse::<dtype>().expect("Failed to parse g20");
                 let m23 = parts[10].parse::<dtype>().expect("Failed to parse g20");
                 let m33 = parts[11].parse::<dtype>().expect("Failed to parse g20");
-                let inf = Matrix3::new(m11, m12, m13, m12, m22, m23, m13, m23, m33);
+                // g2o puts translation first, we put rotation first
+                let inf = Matrix3::new(m33, m13, m23, m13, m11, m12, m23, m12, m22);
 
                 let key1 = X(id_prev);
                 let key2 = X(id_curr);
-- 
2.43.0


From 4e2b8951195f34c10a58bbe00fb1fd041d1ec363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:44 +0000
Subject: [PATCH 11/18] fix: load_g20 transposed the rotation/translation block
 of SE3 information

---
 src/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 5360e81..84cd54c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -132,12 +132,12 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let m66 = parts[30].parse::<dtype>().expect("Failed to parse g20");
                 #[rustfmt::skip]
                 let inf = Matrix6::new(
-                    m44, m45, m46, m14, m15, m16,
-                    m45, m55, m56, m24, m25, m26,
-                    m46, m56, m66, m34, m35, m36,
-                    m14, m24, m34, m11, m12, m13,
-                    m15, m25, m35, m12, m22, m23,
-                    m16, m26, m36, m13, m23, m33,
+                    m44, m45, m46, m14, m24, m34,
+                    m45, m55, m56, m15, m25, m35,
+                    m46, m56, m66, m16, m26, m36,
+                    m14, m15, m16, m11, m12, m13,
+                    m24, m25, m26, m12, m22, m23,
+                    m34, m35, m36, m13, m23, m33,
                 );
 
                 let rot = SO3::from_xyzw(qx, qy, qz, qw);
-- 
2.43.0


From fb5ed1f7589872beac4b132cf011a30e9a9dc117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:44 +0000
Subject: [PATCH 12/18] fix: imu preintegration ignored the gyro noise in its
 covariance

---
 src/residuals/imu_preint/residual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/residuals/imu_preint/residual.rs b/src/residuals/imu_preint/residual.rs
index 0c21949..15b2438 100644
--- a/src/residuals/imu_preint/residual.rs
+++ b/src/residuals/imu_preint/residual.rs
@@ -155,7 +155,7 @@ impl ImuPreintegrator {
         // Copy them into place
         let mut B = Matrix::<15, 15>::zeros();
         // First column (wrt theta)
-        let M = H_theta_w * p.cov_gyro_bias * H_theta_w.transpose()
+        let M = H_theta_w * p.cov_gyro * H_theta_w.transpose()
             + H_theta_winit * p.cov_winit * H_theta_winit.transpose();
         B.fixed_view_mut::<3, 3>(0, 0).copy_from(&M);
 
-- 
2.43.0


From 174656db31668a82e18d3fb1b6c8883f3814f687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:44 +0000
Subject: [PATCH 13/18] fix: reusing an optimizer kept the previous values'
 symbolic factorization

---
 src/optimizers/gauss_newton.rs        | 2 ++
 src/optimizers/levenberg_marquardt.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/optimizers/gauss_newton.rs b/src/optimizers/gauss_newton.rs
index df0390d..7bcbfd5 100644
--- a/src/optimizers/gauss_newton.rs
+++ b/src/optimizers/gauss_newton.rs
@@ -54,6 +54,8 @@ impl<S: LinearSolver> Optimizer for GaussNewton<S> {
     }
 
     fn init(&mut self, _values: &Values) {
+        // The solver caches the sparsity pattern, which is specific to these values
+        self.solver = S::default();
         // TODO: Some way to manual specify how to computer ValuesOrder
         // Precompute the sparsity pattern
         self.graph_order = Some(
diff --git a/src/optimizers/levenberg_marquardt.rs b/src/optimizers/levenberg_marquardt.rs
index 43fa6ac..baf8d3f 100644
--- a/src/optimizers/levenberg_marquardt.rs
+++ b/src/optimizers/levenberg_marquardt.rs
@@ -81,6 +81,8 @@ impl<S: LinearSolver> Optimizer for LevenMarquardt<S> {
     }
 
     fn init(&mut self, _values: &Values) {
+        // The solver caches the sparsity pattern, which is specific to these values
+        self.solver = S::default();
         // TODO: Some way to manual specify how to computer ValuesOrder
         // Precompute the sparsity pattern
         self.graph_order = Some(
-- 
2.43.0


From 51624f85c3dc0a63c622298cf1e1ea570bd4ba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:44 +0000
Subject: [PATCH 14/18] fix: reusing LevenMarquardt kept the damping of the
 previous run

---
 src/optimizers/levenberg_marquardt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/optimizers/levenberg_marquardt.rs b/src/optimizers/levenberg_marquardt.rs
index baf8d3f..2575723 100644
--- a/src/optimizers/levenberg_marquardt.rs
+++ b/src/optimizers/levenberg_marquardt.rs
@@ -11,6 +11,8 @@ use crate::{
     linear::{CholeskySolver, LinearSolver, LinearValues},
 };
 
+const LAMBDA_INIT: dtype = 1e-5;
+
 pub struct LevenParams {
     pub lambda_min: dtype,
     pub lambda_max: dtype,
@@ -59,7 +61,7 @@ impl<S: LinearSolver> GraphOptimizer for LevenMarquardt<S> {
             params_base: OptParams::default(),
             params_leven: LevenParams::default(),
             observers: OptObserverVec::default(),
-            lambda: 1e-5,
+            lambda: LAMBDA_INIT,
             graph_order: None,
         }
     }
@@ -83,6 +85,7 @@ impl<S: LinearSolver> Optimizer for LevenMarquardt<S> {
     fn init(&mut self, _values: &Values) {
         // The solver caches the sparsity pattern, which is specific to these values
         self.solver = S::default();
+        self.lambda = LAMBDA_INIT;
         // TODO: Some way to manual specify how to computer ValuesOrder
         // Precompute the sparsity pattern
         self.graph_order = Some(
-- 
2.43.0


From f82cc5a01adfece1191cf4e4418cb5e3674d2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:44 +0000
Subject: [PATCH 15/18] fix: fac! rejected a single key written as X(0)

---
 factrs-proc/src/fac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factrs-proc/src/fac.rs b/factrs-proc/src/fac.rs
index 9b21744..e82b4bc 100644
--- a/factrs-proc/src/fac.rs
+++ b/factrs-proc/src/fac.rs
@@ -60,7 +60,7 @@ impl Parse for Factor {
             // in parentheses
             Expr::Tuple(t) => t.elems.clone(),
             // a single key for unary factors
-            Expr::Path(_) => {
+            Expr::Path(_) | Expr::Call(_) => {
                 let mut p = Punctuated::<Expr, Token![,]>::new();
                 p.push(input[1].clone());
                 p
-- 
2.43.0


From 61db08e992309a17cff75f342f3a209c94051f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:43 +0000
Subject: [PATCH 16/18] fix: keys of symbols beyond the basic multilingual
 plane decoded to another symbol

The character mask was the bit pattern of char::MAX (0x10FFFF), which lacks
bits 16-19, so those bits of the character were read as part of the index.
---
 src/containers/symbol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/containers/symbol.rs b/src/containers/symbol.rs
index 2811c59..23d564e 100644
--- a/src/containers/symbol.rs
+++ b/src/containers/symbol.rs
@@ -11,7 +11,7 @@ use crate::variables::VariableUmbrella;
 const KEY_BITS: usize = u64::BITS as usize;
 const CHR_BITS: usize = size_of::<char>() * 8;
 const IDX_BITS: usize = KEY_BITS - CHR_BITS;
-const CHR_MASK: u64 = (char::MAX as u64) << IDX_BITS;
+const CHR_MASK: u64 = (u32::MAX as u64) << IDX_BITS;
 const IDX_MASK: u64 = !CHR_MASK;
 
 // ------------------------- Symbol Parser ------------------------- //
-- 
2.43.0


From 9aef17e495989a2b623de18319169fc2272136d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:32 +0000
Subject: [PATCH 17/18] fix: load_g20 accepts any run of whitespace between the
 fields of a line

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 84cd54c..9c9a292 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -28,8 +28,8 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
 
     for line in BufReader::new(file).lines() {
         let line = line.expect("Missing line");
-        let parts = line.split(" ").collect::<Vec<&str>>();
-        match parts[0] {
+        let parts = line.split_whitespace().collect::<Vec<&str>>();
+        match parts.first().copied().unwrap_or_default() {
             "VERTEX_SE2" => {
                 let id = parts[1].parse::<u64>().expect("Failed to parse g20");
                 let x = parts[2].parse::<dtype>().expect("Failed to parse g20");
-- 
2.43.0


From ca7ececf41383d494edcdf3d8cb466df461a7ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:32 +0000
Subject: [PATCH 18/18] fix: load_g20 normalises the rounded quaternions of 3D
 files

---
 src/utils.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 9c9a292..37a9149 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -8,7 +8,7 @@ use crate::{
     assign_symbols,
     containers::{FactorBuilder, Graph, Values},
     dtype, fac,
-    linalg::{Matrix3, Matrix6, Vector3},
+    linalg::{Matrix3, Matrix6, Vector3, Vector4},
     noise::GaussianNoise,
     residuals::{BetweenResidual, PriorResidual},
     variables::*,
@@ -82,7 +82,9 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let qz = parts[7].parse::<dtype>().expect("Failed to parse g20");
                 let qw = parts[8].parse::<dtype>().expect("Failed to parse g20");
 
-                let rot = SO3::from_xyzw(qx, qy, qz, qw);
+                // Files list rounded quaternions, rotations have unit ones
+                let q = Vector4::new(qx, qy, qz, qw).normalize();
+                let rot = SO3::from_xyzw(q[0], q[1], q[2], q[3]);
                 let xyz = Vector3::new(x, y, z);
                 let var = SE3::from_rot_trans(rot, xyz);
                 let key = X(id);
@@ -140,7 +142,9 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                     m34, m35, m36, m13, m23, m33,
                 );
 
-                let rot = SO3::from_xyzw(qx, qy, qz, qw);
+                // Files list rounded quaternions, rotations have unit ones
+                let q = Vector4::new(qx, qy, qz, qw).normalize();
+                let rot = SO3::from_xyzw(q[0], q[1], q[2], q[3]);
                 let xyz = Vector3::new(x, y, z);
                 let var = SE3::from_rot_trans(rot, xyz);
 
-- 
2.43.0

