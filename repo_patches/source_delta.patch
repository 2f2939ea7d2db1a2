From 434cea256dc0a09c32522236c17e24702898125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:26 +0000
Subject: [PATCH 01/72] fix: scale the destination by beta when the inner
 dimension of a product is zero

---
 russell_lab/src/matrix/complex_mat_mat_mul.rs   | 8 ++++++--
 russell_lab/src/matrix/complex_mat_t_mat_mul.rs | 8 ++++++--
 russell_lab/src/matrix/mat_mat_mul.rs           | 8 ++++++--
 russell_lab/src/matrix/mat_t_mat_mul.rs         | 8 ++++++--
 russell_lab/src/matvec/mat_vec_mul_update.rs    | 8 ++++++--
 5 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/russell_lab/src/matrix/complex_mat_mat_mul.rs b/russell_lab/src/matrix/complex_mat_mat_mul.rs
index 60b019f..c908a5a 100644
--- a/russell_lab/src/matrix/complex_mat_mat_mul.rs
+++ b/russell_lab/src/matrix/complex_mat_mat_mul.rs
@@ -1,4 +1,4 @@
-use super::ComplexMatrix;
+use super::{ComplexMatrix, complex_mat_scale};
 use crate::{CBLAS_COL_MAJOR, CBLAS_NO_TRANS, Complex64, StrError, to_i32};
 
 unsafe extern "C" {
@@ -80,7 +80,11 @@ pub fn complex_mat_mat_mul(
     }
     if k == 0 {
         let zero = Complex64::new(0.0, 0.0);
-        c.fill(zero);
+        if beta == zero {
+            c.fill(zero);
+        } else {
+            complex_mat_scale(c, beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/complex_mat_t_mat_mul.rs b/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
index 1ebb410..b8624c7 100644
--- a/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
+++ b/russell_lab/src/matrix/complex_mat_t_mat_mul.rs
@@ -1,4 +1,4 @@
-use super::ComplexMatrix;
+use super::{ComplexMatrix, complex_mat_scale};
 use crate::{CBLAS_COL_MAJOR, CBLAS_NO_TRANS, CBLAS_TRANS, Complex64, StrError, to_i32};
 
 unsafe extern "C" {
@@ -80,7 +80,11 @@ pub fn complex_mat_t_mat_mul(
     }
     if k == 0 {
         let zero = Complex64::new(0.0, 0.0);
-        c.fill(zero);
+        if beta == zero {
+            c.fill(zero);
+        } else {
+            complex_mat_scale(c, beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/mat_mat_mul.rs b/russell_lab/src/matrix/mat_mat_mul.rs
index dffc384..a3a485a 100644
--- a/russell_lab/src/matrix/mat_mat_mul.rs
+++ b/russell_lab/src/matrix/mat_mat_mul.rs
@@ -1,4 +1,4 @@
-use super::Matrix;
+use super::{Matrix, mat_scale};
 use crate::{CBLAS_COL_MAJOR, CBLAS_NO_TRANS, StrError, to_i32};
 
 unsafe extern "C" {
@@ -69,7 +69,11 @@ pub fn mat_mat_mul(c: &mut Matrix, alpha: f64, a: &Matrix, b: &Matrix, beta: f64
         return Ok(());
     }
     if k == 0 {
-        c.fill(0.0);
+        if beta == 0.0 {
+            c.fill(0.0);
+        } else {
+            mat_scale(c, beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matrix/mat_t_mat_mul.rs b/russell_lab/src/matrix/mat_t_mat_mul.rs
index de19cf5..d626570 100644
--- a/russell_lab/src/matrix/mat_t_mat_mul.rs
+++ b/russell_lab/src/matrix/mat_t_mat_mul.rs
@@ -1,4 +1,4 @@
-use super::Matrix;
+use super::{Matrix, mat_scale};
 use crate::{CBLAS_COL_MAJOR, CBLAS_NO_TRANS, CBLAS_TRANS, StrError, to_i32};
 
 unsafe extern "C" {
@@ -67,7 +67,11 @@ pub fn mat_t_mat_mul(c: &mut Matrix, alpha: f64, a: &Matrix, b: &Matrix, beta: f
         return Ok(());
     }
     if k == 0 {
-        c.fill(0.0);
+        if beta == 0.0 {
+            c.fill(0.0);
+        } else {
+            mat_scale(c, beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
diff --git a/russell_lab/src/matvec/mat_vec_mul_update.rs b/russell_lab/src/matvec/mat_vec_mul_update.rs
index e1a5a3b..d79e8ca 100644
--- a/russell_lab/src/matvec/mat_vec_mul_update.rs
+++ b/russell_lab/src/matvec/mat_vec_mul_update.rs
@@ -1,5 +1,5 @@
 use crate::matrix::Matrix;
-use crate::vector::Vector;
+use crate::vector::{Vector, vec_scale};
 use crate::{CBLAS_COL_MAJOR, CBLAS_NO_TRANS, StrError, to_i32};
 
 unsafe extern "C" {
@@ -70,7 +70,11 @@ pub fn mat_vec_mul_update(v: &mut Vector, alpha: f64, a: &Matrix, u: &Vector, be
         return Ok(());
     }
     if n == 0 {
-        v.fill(0.0);
+        if beta == 0.0 {
+            v.fill(0.0);
+        } else {
+            vec_scale(v, beta);
+        }
         return Ok(());
     }
     let m_i32: i32 = to_i32(m);
-- 
2.43.0


From 2e22b20636bda26d35fc149570e133f5b2c62f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:37 +0000
Subject: [PATCH 02/72] fix: small_mat_inv must not swap entries outside the
 active block

---
 russell_lab/src/small/small_mat_inv.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/russell_lab/src/small/small_mat_inv.rs b/russell_lab/src/small/small_mat_inv.rs
index b53742a..db8f516 100644
--- a/russell_lab/src/small/small_mat_inv.rs
+++ b/russell_lab/src/small/small_mat_inv.rs
@@ -155,7 +155,11 @@ where
         // Swap rows if necessary (in both sides)
         if max_index != k {
             a_work.swap(k, max_index);
-            ai.swap(k, max_index);
+            for j in 0..n {
+                let tmp = ai[k][j];
+                ai[k][j] = ai[max_index][j];
+                ai[max_index][j] = tmp;
+            }
             det_accumulator = -det_accumulator; // Rule 1: A row swap flips the sign of the determinant
         }
 
-- 
2.43.0


From 6f752c00ce9ac18e20d11101c846a61bc97499f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:21 +0000
Subject: [PATCH 03/72] fix: compute the left eigenvectors in
 complex_mat_gen_eigen_lr

---
 russell_lab/src/matrix/complex_mat_gen_eigen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/matrix/complex_mat_gen_eigen.rs b/russell_lab/src/matrix/complex_mat_gen_eigen.rs
index 2572f99..52d89a6 100644
--- a/russell_lab/src/matrix/complex_mat_gen_eigen.rs
+++ b/russell_lab/src/matrix/complex_mat_gen_eigen.rs
@@ -284,7 +284,7 @@ pub fn complex_mat_gen_eigen_lr(
     let mut info = 0;
     unsafe {
         c_zggev(
-            C_FALSE,
+            C_TRUE,
             C_TRUE,
             &m_i32,
             a.as_mut_data().as_mut_ptr(),
-- 
2.43.0


From e562a93d66387e7f0528b3e1154087a5b74a741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:09 +0000
Subject: [PATCH 04/72] fix: use the exact rotation angle in the Jacobi
 eigen-solver to avoid stagnation

---
 russell_lab/src/matrix/mat_eigen_sym_jacobi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs b/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs
index fcc526f..864adb3 100644
--- a/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs
+++ b/russell_lab/src/matrix/mat_eigen_sym_jacobi.rs
@@ -140,7 +140,7 @@ pub fn mat_eigen_sym_jacobi(l: &mut Vector, v: &mut Matrix, a: &mut Matrix) -> R
         for p in 0..(n - 1) {
             for q in (p + 1)..n {
                 h = l[q] - l[p];
-                if f64::abs(h) <= TOLERANCE {
+                if h == 0.0 {
                     t = 1.0;
                 } else {
                     theta = 0.5 * h / (a.get(p, q));
-- 
2.43.0


From 8e89ea832529e6fd1bb0ace7eacc1e9afec13661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:49 +0000
Subject: [PATCH 05/72] fix: keep the sign of the Bessel function J1 for tiny
 negative arguments

---
 russell_lab/src/math/bessel_1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/math/bessel_1.rs b/russell_lab/src/math/bessel_1.rs
index 2349983..a76dbda 100644
--- a/russell_lab/src/math/bessel_1.rs
+++ b/russell_lab/src/math/bessel_1.rs
@@ -126,7 +126,7 @@ pub fn bessel_j1(x: f64) -> f64 {
     }
 
     if xx < TWO_M27 {
-        return 0.5 * xx;
+        return 0.5 * x;
     }
 
     let mut z = xx * xx;
-- 
2.43.0


From e7ab104d533009db2238bf966cd56543b19d27a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:49 +0000
Subject: [PATCH 06/72] fix: compute the Bessel function Jn accurately near the
 zeros of J0

---
 russell_lab/src/math/bessel_n.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/russell_lab/src/math/bessel_n.rs b/russell_lab/src/math/bessel_n.rs
index 7b2ad18..f919eca 100755
--- a/russell_lab/src/math/bessel_n.rs
+++ b/russell_lab/src/math/bessel_n.rs
@@ -244,7 +244,14 @@ pub fn bessel_jn(n: i32, x: f64) -> f64 {
                     i -= 1;
                 }
             }
-            b = t * bessel_j0(xx) / b;
+            // normalize with J0, unless it is near a zero where its relative precision is poor
+            let j0 = bessel_j0(xx);
+            let j1 = bessel_j1(xx);
+            if f64::abs(j0) >= 0.1 * f64::abs(j1) {
+                b = t * j0 / b;
+            } else {
+                b = t * j1 / a;
+            }
         }
     }
 
-- 
2.43.0


From cf9dbf2f58e13f0c141d388e57bec41624d634e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:49 +0000
Subject: [PATCH 07/72] fix: modified Bessel function In returned NaN for some
 tiny arguments

---
 russell_lab/src/math/bessel_mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/russell_lab/src/math/bessel_mod.rs b/russell_lab/src/math/bessel_mod.rs
index 3f09522..c200f08 100644
--- a/russell_lab/src/math/bessel_mod.rs
+++ b/russell_lab/src/math/bessel_mod.rs
@@ -125,6 +125,9 @@ pub fn bessel_in(n: usize, x: f64) -> f64 {
         return bessel_i1(x);
     } else if x * x <= 8.0 * f64::MIN_POSITIVE {
         return 0.0;
+    } else if f64::abs(x) < 1e-140 {
+        // the recurrence overflows; the leading term is (x/2)ⁿ/n! and underflows for n > 2
+        return if n == 2 { x * x / 8.0 } else { 0.0 };
     }
     let tox = 2.0 / f64::abs(x);
     let mut bip = 0.0;
-- 
2.43.0


From cd3c84e1dc84d34b1f4241575003df839373b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:59 +0000
Subject: [PATCH 08/72] fix: use the correct interval limit in the log-gamma
 approximation

---
 russell_lab/src/math/ln_gamma.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/math/ln_gamma.rs b/russell_lab/src/math/ln_gamma.rs
index 4025541..855b1d6 100644
--- a/russell_lab/src/math/ln_gamma.rs
+++ b/russell_lab/src/math/ln_gamma.rs
@@ -275,7 +275,7 @@ pub fn ln_gamma(x: f64) -> (f64, i32) {
             if xx >= Y_MIN - 1.0 + 0.27 {
                 // 0.7316 <= x <=  0.9
                 (1.0 - xx, 0)
-            } else if xx >= Y_MIN - 1.0 - 0.27 {
+            } else if xx >= Y_MIN - 1.0 - 0.23 {
                 // 0.2316 <= x < 0.7316
                 (xx - (TC - 1.0), 1)
             } else {
@@ -287,7 +287,7 @@ pub fn ln_gamma(x: f64) -> (f64, i32) {
             if xx >= Y_MIN + 0.27 {
                 // 1.7316 <= x < 2
                 (2.0 - xx, 0)
-            } else if xx >= Y_MIN - 0.27 {
+            } else if xx >= Y_MIN - 0.23 {
                 // 1.2316 <= x < 1.7316
                 (xx - TC, 1)
             } else {
-- 
2.43.0


From f694066baf70019f128a70527df77ed1d8eff1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:59 +0000
Subject: [PATCH 09/72] fix: log-beta returned -Inf for small values and the
 wrong sign for large arguments

---
 russell_lab/src/math/beta.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/russell_lab/src/math/beta.rs b/russell_lab/src/math/beta.rs
index 3606b30..b74505d 100644
--- a/russell_lab/src/math/beta.rs
+++ b/russell_lab/src/math/beta.rs
@@ -236,8 +236,8 @@ pub fn ln_beta(a: f64, b: f64) -> f64 {
 
     // avoid loss of precision in ln_gamma(a + b) - ln_gamma(a)
     if f64::abs(aa) > ASYMPTOTIC_FACTOR * f64::abs(bb) && aa > ASYMPTOTIC_FACTOR {
-        let (ll, sign) = ln_beta_asymptotic(aa, bb);
-        return (sign as f64) * ll;
+        let (ll, _) = ln_beta_asymptotic(aa, bb);
+        return ll;
     }
 
     // use the ln_gamma identity
@@ -274,8 +274,9 @@ pub fn ln_beta(a: f64, b: f64) -> f64 {
         ans *= gb;
     };
 
-    // handle near zero results
-    if f64::abs(ans) < 10.0 * f64::EPSILON {
+    // handle near zero results (cc is a non-positive integer up to rounding)
+    let near_pole = cc < 0.5 && f64::abs(cc - f64::round(cc)) < 10.0 * f64::EPSILON * f64::max(1.0, f64::abs(aa));
+    if near_pole && f64::abs(ans) < 10.0 * f64::EPSILON {
         // noting that f64::exp(f64::NEG_INFINITY))
         return f64::NEG_INFINITY;
     }
-- 
2.43.0


From 3a590f3cdf6e117c95dd4afc24d6249d50c32991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:59 +0000
Subject: [PATCH 10/72] fix: compute the inverse complementary error function
 accurately for small arguments

---
 russell_lab/src/math/erf_inv.rs | 38 ++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/russell_lab/src/math/erf_inv.rs b/russell_lab/src/math/erf_inv.rs
index ac24b2c..a2b888e 100644
--- a/russell_lab/src/math/erf_inv.rs
+++ b/russell_lab/src/math/erf_inv.rs
@@ -119,21 +119,7 @@ pub fn erf_inv(x: f64) -> f64 {
         let z2 = ((((((B7 * r + B6) * r + B5) * r + B4) * r + B3) * r + B2) * r + B1) * r + B0;
         (xx * z1) / z2
     } else {
-        let mut r = f64::sqrt(LN2 - f64::ln(1.0 - xx));
-        let (z1, z2) = if r <= 5.0 {
-            r -= 1.6;
-            (
-                ((((((C7 * r + C6) * r + C5) * r + C4) * r + C3) * r + C2) * r + C1) * r + C0,
-                ((((((D7 * r + D6) * r + D5) * r + D4) * r + D3) * r + D2) * r + D1) * r + D0,
-            )
-        } else {
-            r -= 5.0;
-            (
-                ((((((E7 * r + E6) * r + E5) * r + E4) * r + E3) * r + E2) * r + E1) * r + E0,
-                ((((((F7 * r + F6) * r + F5) * r + F4) * r + F3) * r + F2) * r + F1) * r + F0,
-            )
-        };
-        z1 / z2
+        erfc_inv_tail(1.0 - xx)
     };
 
     if negative {
@@ -168,9 +154,31 @@ pub fn erf_inv(x: f64) -> f64 {
 /// approx_eq(math::erfc_inv(1.0), 0.0, 1e-15);
 /// ```
 pub fn erfc_inv(x: f64) -> f64 {
+    if x > 0.0 && x < 0.15 {
+        return erfc_inv_tail(x); // 1.0 - x would lose the digits of a small x
+    }
     erf_inv(1.0 - x)
 }
 
+/// Evaluates the inverse of the complementary error function for small x (0 < x ≤ 0.15)
+fn erfc_inv_tail(x: f64) -> f64 {
+    let mut r = f64::sqrt(LN2 - f64::ln(x));
+    let (z1, z2) = if r <= 5.0 {
+        r -= 1.6;
+        (
+            ((((((C7 * r + C6) * r + C5) * r + C4) * r + C3) * r + C2) * r + C1) * r + C0,
+            ((((((D7 * r + D6) * r + D5) * r + D4) * r + D3) * r + D2) * r + D1) * r + D0,
+        )
+    } else {
+        r -= 5.0;
+        (
+            ((((((E7 * r + E6) * r + E5) * r + E4) * r + E3) * r + E2) * r + E1) * r + E0,
+            ((((((F7 * r + F6) * r + F5) * r + F4) * r + F3) * r + F2) * r + F1) * r + F0,
+        )
+    };
+    z1 / z2
+}
+
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 
 #[cfg(test)]
-- 
2.43.0


From 067b12f6b0599fc9a8980ec576e7bd3d9cbe5539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:59 +0000
Subject: [PATCH 11/72] fix: elliptic integral of the third kind failed for
 large negative characteristics

---
 russell_lab/src/math/elliptic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/math/elliptic.rs b/russell_lab/src/math/elliptic.rs
index e2a96f0..c8e8dd6 100644
--- a/russell_lab/src/math/elliptic.rs
+++ b/russell_lab/src/math/elliptic.rs
@@ -499,7 +499,7 @@ fn rc(x: f64, y: f64) -> Result<f64, StrError> {
 
 // constants --------------------------------------
 
-const N_MAX_ITERATIONS: usize = 11;
+const N_MAX_ITERATIONS: usize = 200;
 
 const RF_ERR_TOL: f64 = 0.0025; // a value of 0.0025 for the error tolerance parameter gives full double precision (16 sig ant digits)
 const RF_C1: f64 = 1.0 / 24.0;
-- 
2.43.0


From e0de998e3a6814436330998d8da471adc2b6076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:55 +0000
Subject: [PATCH 12/72] fix: weights of the two-point Gauss-Lobatto-Legendre
 rule were zero

---
 russell_lab/src/math/legendre.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/math/legendre.rs b/russell_lab/src/math/legendre.rs
index 9773d7e..5c4bd95 100644
--- a/russell_lab/src/math/legendre.rs
+++ b/russell_lab/src/math/legendre.rs
@@ -301,7 +301,7 @@ pub fn legendre_lobatto_points(nn: usize) -> Vector {
 /// ```
 pub fn legendre_lobatto_weights(nn: usize) -> Vector {
     let mut ww = Vector::new(nn + 1);
-    if nn < 2 {
+    if nn < 1 {
         return ww;
     }
     let np1 = (nn + 1) as f64;
-- 
2.43.0


From fa4b4a1a650ca3c1a99e5ac5f65fe9b4f7fa859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:55 +0000
Subject: [PATCH 13/72] fix: integer overflow with extreme exponents in the
 imaginary powers and float composition

---
 russell_lab/src/math/complex.rs     | 4 ++--
 russell_lab/src/math/composition.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/russell_lab/src/math/complex.rs b/russell_lab/src/math/complex.rs
index 127b91c..beb43a2 100644
--- a/russell_lab/src/math/complex.rs
+++ b/russell_lab/src/math/complex.rs
@@ -48,7 +48,7 @@ pub fn i_pow_n(n: i32) -> Complex64 {
             _ => Complex64::new(1.0, 0.0),  //  1
         }
     } else {
-        match (-n) % 4 {
+        match -(n % 4) {
             1 => Complex64::new(0.0, -1.0), // -i
             2 => Complex64::new(-1.0, 0.0), // -1
             3 => Complex64::new(0.0, 1.0),  //  i
@@ -107,7 +107,7 @@ pub fn x_times_i_pow_n(x: f64, n: i32) -> Complex64 {
         }
     } else {
         let xn = f64::powi(x, n);
-        match (-n) % 4 {
+        match -(n % 4) {
             1 => Complex64::new(0.0, -xn), // -i⋅xn
             2 => Complex64::new(-xn, 0.0), // -1⋅xn
             3 => Complex64::new(0.0, xn),  //  i⋅xn
diff --git a/russell_lab/src/math/composition.rs b/russell_lab/src/math/composition.rs
index c7bf732..ecda688 100644
--- a/russell_lab/src/math/composition.rs
+++ b/russell_lab/src/math/composition.rs
@@ -211,9 +211,9 @@ pub fn float_compose(mantissa: f64, exponent: i32) -> f64 {
         (mantissa, 0)
     };
     // composition
-    let mut exp = exponent + e;
+    let mut exp = exponent.saturating_add(e);
     let mut x = frac.to_bits();
-    exp += ((x >> 52) & 0x7ff) as i32 - 0x3ff;
+    exp = exp.saturating_add(((x >> 52) & 0x7ff) as i32 - 0x3ff);
     if exp < -1075 {
         return f64::copysign(0.0, frac); // underflow
     }
-- 
2.43.0


From b761a0f7d777fc8167f53b2de6c36a3a6735bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:01 +0000
Subject: [PATCH 14/72] fix: linspace and mapped_linspace must end exactly at
 the stop value

---
 russell_lab/src/vector/num_vector.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/vector/num_vector.rs b/russell_lab/src/vector/num_vector.rs
index a6bce14..df6b453 100644
--- a/russell_lab/src/vector/num_vector.rs
+++ b/russell_lab/src/vector/num_vector.rs
@@ -261,7 +261,9 @@ where
         }
         let den = cast::<usize, T>(count - 1).unwrap();
         let step = (stop - start) / den;
-        for i in 1..count {
+        let real = T::one() / (T::one() + T::one()) != T::zero(); // the stop value is exact, except with integers
+        let last = if real { count - 1 } else { count };
+        for i in 1..last {
             let p = cast::<usize, T>(i).unwrap();
             res.data[i] = start + p * step;
         }
@@ -312,7 +314,9 @@ where
         }
         let den = cast::<usize, T>(count - 1).unwrap();
         let step = (stop - start) / den;
-        for i in 1..count {
+        let real = T::one() / (T::one() + T::one()) != T::zero(); // the stop value is exact, except with integers
+        let last = if real { count - 1 } else { count };
+        for i in 1..last {
             let p = cast::<usize, T>(i).unwrap();
             res.data[i] = function(start + p * step);
         }
-- 
2.43.0


From 0af3cb12e59fbb04075453b7fe28c0baac20dad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:01 +0000
Subject: [PATCH 15/72] fix: derivatives of the Lagrange interpolant at the end
 points with Chebyshev-Gauss nodes

---
 russell_lab/src/algo/interp_lagrange.rs | 40 ++++++++-----------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/russell_lab/src/algo/interp_lagrange.rs b/russell_lab/src/algo/interp_lagrange.rs
index efc5df3..04d5ef2 100644
--- a/russell_lab/src/algo/interp_lagrange.rs
+++ b/russell_lab/src/algo/interp_lagrange.rs
@@ -612,20 +612,12 @@ impl InterpLagrange {
         }
         let mut at_node = false;
         let mut at_node_index = 0;
-        if x == -1.0 {
-            at_node = true;
-            at_node_index = 0;
-        } else if x == 1.0 {
-            at_node = true;
-            at_node_index = self.nn;
-        } else {
-            for j in 0..self.npoint {
-                let dx = x - self.xx[j];
-                if f64::abs(dx) < DX_EPSILON {
-                    at_node = true;
-                    at_node_index = j;
-                    break;
-                }
+        for j in 0..self.npoint {
+            let dx = x - self.xx[j];
+            if f64::abs(dx) < DX_EPSILON {
+                at_node = true;
+                at_node_index = j;
+                break;
             }
         }
         if at_node {
@@ -731,20 +723,12 @@ impl InterpLagrange {
         }
         let mut at_node = false;
         let mut at_node_index = 0;
-        if x == -1.0 {
-            at_node = true;
-            at_node_index = 0;
-        } else if x == 1.0 {
-            at_node = true;
-            at_node_index = self.nn;
-        } else {
-            for j in 0..self.npoint {
-                let dx = x - self.xx[j];
-                if f64::abs(dx) < DX_EPSILON {
-                    at_node = true;
-                    at_node_index = j;
-                    break;
-                }
+        for j in 0..self.npoint {
+            let dx = x - self.xx[j];
+            if f64::abs(dx) < DX_EPSILON {
+                at_node = true;
+                at_node_index = j;
+                break;
             }
         }
         if at_node {
-- 
2.43.0


From 40e5eee995e56a4fc1c81c70671b68284cb823e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:01 +0000
Subject: [PATCH 16/72] fix: Chebyshev interpolant must propagate errors, not
 stay ready after them, and return constant data

---
 russell_lab/src/algo/interp_chebyshev.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/algo/interp_chebyshev.rs b/russell_lab/src/algo/interp_chebyshev.rs
index b990e43..7706e5c 100644
--- a/russell_lab/src/algo/interp_chebyshev.rs
+++ b/russell_lab/src/algo/interp_chebyshev.rs
@@ -167,6 +167,7 @@ impl InterpChebyshev {
         if nn > self.nn_max {
             return Err("nn must be ≤ nn_max");
         }
+        self.ready = false; // in case of errors
         self.nn = nn;
         if self.nn == 0 {
             self.constant_fx = f((self.xa + self.xb) / 2.0, args)?;
@@ -333,6 +334,11 @@ impl InterpChebyshev {
         let np = self.nn + 1;
         let mut xx = Vector::new(np);
         let mut uu = Vector::new(np);
+        if self.nn == 0 {
+            xx[0] = (self.xa + self.xb) / 2.0;
+            uu[0] = self.constant_fx;
+            return Ok((xx, uu));
+        }
         let zz = InterpChebyshev::points(self.nn);
         for i in 0..np {
             let z = zz[i];
@@ -388,6 +394,7 @@ impl InterpChebyshev {
     where
         F: FnMut(f64, &mut A) -> Result<f64, StrError>,
     {
+        self.ready = false; // in case of errors
         let mut an_prev = 0.0;
         for nn in 1..=self.nn_max {
             chebyshev_data_vector(&mut self.uu_rev, nn, self.xa, self.xb, args, &mut f)?;
@@ -395,8 +402,7 @@ impl InterpChebyshev {
             let an = self.a[nn];
             if nn > 1 && f64::abs(an_prev) < tol && f64::abs(an) < tol {
                 let actual_nn = nn - 2; // -2 because the last two coefficients are zero
-                self.set_function(actual_nn, args, f).unwrap();
-                return Ok(());
+                return self.set_function(actual_nn, args, f);
             }
             an_prev = an;
         }
-- 
2.43.0


From f87845935b5b0a2470a84604447f65ef1e1a0e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:26 +0000
Subject: [PATCH 17/72] fix: set_gen_data panicked when the last grid point
 exceeds the upper limit by round-off

---
 russell_lab/src/algo/interp_chebyshev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/interp_chebyshev.rs b/russell_lab/src/algo/interp_chebyshev.rs
index 7706e5c..c98ec04 100644
--- a/russell_lab/src/algo/interp_chebyshev.rs
+++ b/russell_lab/src/algo/interp_chebyshev.rs
@@ -287,7 +287,7 @@ impl InterpChebyshev {
             let zz = InterpChebyshev::points(self.nn);
             for i_cheby in 0..zz.dim() {
                 let z = zz[i_cheby];
-                let x = (self.xb + self.xa + self.dx * z) / 2.0;
+                let x = f64::min(self.xb, (self.xb + self.xa + self.dx * z) / 2.0); // min because of round-off
                 // perform linear interpolation
                 let mut found = false;
                 for i_gen in 0..np {
-- 
2.43.0


From 8c3c5edec9277843e03475e1283c13f45c2f7802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:26 +0000
Subject: [PATCH 18/72] fix: B-spline derivatives after setting control points
 with another dimension

---
 russell_lab/src/algo/bspline.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/russell_lab/src/algo/bspline.rs b/russell_lab/src/algo/bspline.rs
index f89d833..a09131b 100644
--- a/russell_lab/src/algo/bspline.rs
+++ b/russell_lab/src/algo/bspline.rs
@@ -222,6 +222,8 @@ impl Bspline {
             }
             self.pp.push(point);
         }
+        self.cc_ders.clear(); // the dimension may have changed
+        self.pp_ders.clear();
         Ok(())
     }
 
-- 
2.43.0


From f49b296a75d08803465140a6b5065eccf1a2bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:26 +0000
Subject: [PATCH 19/72] fix: keep the knot span in step with the B-spline basis
 tables

---
 russell_lab/src/algo/bspline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/russell_lab/src/algo/bspline.rs b/russell_lab/src/algo/bspline.rs
index a09131b..6486b39 100644
--- a/russell_lab/src/algo/bspline.rs
+++ b/russell_lab/src/algo/bspline.rs
@@ -336,6 +336,7 @@ impl Bspline {
         } else {
             // Piegl & Tiller: A3.1 p82
             let span = self.find_span(u);
+            self.span = span;
             self.basis_funs(u, span);
             cc.fill(0.0);
             for i in 0..=self.p {
@@ -591,6 +592,7 @@ impl Bspline {
             self.cc_ders = vec![vec![0.0; ndim]; self.p + 1];
         }
         let span = self.find_span(u);
+        self.span = span;
         self.ders_basis_funs(u, span, upto);
         for k in 0..=upto {
             self.cc_ders[k].fill(0.0);
@@ -660,6 +662,7 @@ impl Bspline {
             self.cc_ders = vec![vec![0.0; ndim]; self.p + 1];
         }
         let span = self.find_span(u);
+        self.span = span;
         self.ders_basis_funs(u, span, upto);
         self.curve_deriv_cpts(upto, span - self.p, span);
         for k in 0..=upto {
-- 
2.43.0


From b6f2623e7a6853dc3e9646806ce017d0114d9eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:26 +0000
Subject: [PATCH 20/72] fix: recursive B-spline basis vanished at the end of
 large knot vectors

---
 russell_lab/src/algo/bspline.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/algo/bspline.rs b/russell_lab/src/algo/bspline.rs
index 6486b39..ccb1aa2 100644
--- a/russell_lab/src/algo/bspline.rs
+++ b/russell_lab/src/algo/bspline.rs
@@ -413,14 +413,15 @@ impl Bspline {
     fn recursive_nn(&self, u: f64, i: usize, p: usize) -> f64 {
         // remove noise, e.g., 1.000000000000002
         let u = if f64::abs(u - self.u_max) < 1e-14 {
-            self.u_max - 1e-14
+            self.u_max
         } else {
             u
         };
 
         // exit point
         if p == 0 {
-            if u >= self.uu[i] && u < self.uu[i + 1] {
+            let at_end = u == self.u_max && self.uu[i + 1] == self.u_max; // the last nonzero span is closed
+            if u >= self.uu[i] && (u < self.uu[i + 1] || (at_end && self.uu[i] < self.u_max)) {
                 return 1.0;
             } else {
                 return 0.0;
-- 
2.43.0


From b90d277a8b7bce4e1d3bef2b7df2ace255936c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:26 +0000
Subject: [PATCH 21/72] fix: quadrature underflow with very close bounds

---
 russell_lab/src/algo/quadrature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/quadrature.rs b/russell_lab/src/algo/quadrature.rs
index 2625cab..f7f2575 100644
--- a/russell_lab/src/algo/quadrature.rs
+++ b/russell_lab/src/algo/quadrature.rs
@@ -248,7 +248,7 @@ impl Quadrature {
                     //
                     n_ib = 0.5 - f64::ln(c) / LN2;
                     let nib = n_ib as usize;
-                    lmx = usize::min(n_lmx, n_bit - nib - 7);
+                    lmx = usize::min(n_lmx, n_bit.saturating_sub(nib + 7));
                     if lmx < 1 {
                         return Err("the lower and upper bounds must not be so close one from another");
                     }
-- 
2.43.0


From f882afb70cc85c2a25dfcf4087eff39623803ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:26 +0000
Subject: [PATCH 22/72] fix: accept brackets with small function values and
 reject NaN in the root finder

---
 russell_lab/src/algo/root_finder_brent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/root_finder_brent.rs b/russell_lab/src/algo/root_finder_brent.rs
index 03d4bc6..9a99075 100644
--- a/russell_lab/src/algo/root_finder_brent.rs
+++ b/russell_lab/src/algo/root_finder_brent.rs
@@ -85,7 +85,7 @@ impl RootFinder {
         self.stats.inc_n_function(2);
 
         // check
-        if fa * fb >= -f64::EPSILON {
+        if !((fa < 0.0 && fb > 0.0) || (fa > 0.0 && fb < 0.0)) {
             return Err("xa and xb must bracket the root and f(xa) × f(xb) < 0");
         }
 
-- 
2.43.0


From b7bf33a23ff960fe57b060c77c96a12206700380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:26 +0000
Subject: [PATCH 23/72] fix: move the root of linear functions back to the
 boundary

---
 russell_lab/src/algo/root_finder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_lab/src/algo/root_finder.rs b/russell_lab/src/algo/root_finder.rs
index 4d28a77..8c9f819 100644
--- a/russell_lab/src/algo/root_finder.rs
+++ b/russell_lab/src/algo/root_finder.rs
@@ -173,7 +173,7 @@ impl RootFinder {
             let z = -a[0] / a[1];
             if f64::abs(z) <= 1.0 + self.tol_abs_boundary {
                 let root = (xb + xa + dx * z) / 2.0;
-                return Ok(vec![root]);
+                return Ok(vec![f64::max(xa, f64::min(xb, root))]);
             } else {
                 return Ok(Vec::new());
             }
-- 
2.43.0


From bda94bb8d5284a187b28d7f76e22e3ec2b5a8247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:26 +0000
Subject: [PATCH 24/72] fix: use tolerances relative to the coefficients in the
 cubic equation solver

---
 russell_lab/src/algo/cubic.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/russell_lab/src/algo/cubic.rs b/russell_lab/src/algo/cubic.rs
index d3381a5..b6f48fa 100644
--- a/russell_lab/src/algo/cubic.rs
+++ b/russell_lab/src/algo/cubic.rs
@@ -7,6 +7,7 @@ use crate::StrError;
 use std::f64::consts::PI;
 
 const EPS: f64 = 1e-12;
+const TOL: f64 = 8.0 * f64::EPSILON;
 
 /// Solve cubic equation: a·x³ + b·x² + c·x + d = 0
 ///
@@ -46,17 +47,22 @@ pub fn solve_cubic(a: f64, b: f64, c: f64, d: f64) -> Result<Vec<f64>, StrError>
     let third_a = aa / 3.0;
     let delta = half_b * half_b + third_a.powf(3.0);
 
+    // tolerances based on the round-off errors in aa and bb
+    let tol_a = TOL * (q.abs() + p_sq / 3.0);
+    let tol_b = TOL * (r.abs() + (p * q).abs() / 3.0 + 2.0 * p.abs() * p_sq / 27.0);
+    let tol_delta = half_b.abs() * tol_b + third_a * third_a * tol_a + tol_b * tol_b + tol_a * tol_a * tol_a;
+
     let mut ys = Vec::with_capacity(3);
 
     match delta {
-        d if d > EPS => {
+        d if d > tol_delta => {
             let sqrt_delta = delta.sqrt();
             let u = (-half_b + sqrt_delta).cbrt();
             let v = (-half_b - sqrt_delta).cbrt();
             ys.push(u + v);
         }
 
-        d if d < -EPS => {
+        d if d < -tol_delta => {
             let sqrt_neg_third_a = (-third_a).sqrt();
             let radicand = -half_b / sqrt_neg_third_a.powf(3.0);
             let radicand_clamped = radicand.clamp(-1.0, 1.0);
@@ -70,7 +76,7 @@ pub fn solve_cubic(a: f64, b: f64, c: f64, d: f64) -> Result<Vec<f64>, StrError>
         }
 
         _ => {
-            if half_b.abs() < EPS {
+            if half_b.abs() <= tol_b {
                 ys.extend_from_slice(&[0.0, 0.0, 0.0]);
             } else {
                 let u = (-half_b).cbrt();
-- 
2.43.0


From 8629e6d4e92a093470037fa3827b30c8d8451875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:26 +0000
Subject: [PATCH 25/72] fix: scientific formatting of vectors with NaN or Inf
 panicked

---
 russell_lab/src/vector/vec_fmt_scientific.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/russell_lab/src/vector/vec_fmt_scientific.rs b/russell_lab/src/vector/vec_fmt_scientific.rs
index a714420..5328400 100644
--- a/russell_lab/src/vector/vec_fmt_scientific.rs
+++ b/russell_lab/src/vector/vec_fmt_scientific.rs
@@ -16,7 +16,9 @@ pub fn vec_fmt_scientific(u: &Vector, precision: usize) -> String {
     let mut buf = String::new();
     for i in 0..u.dim() {
         write!(&mut buf, "{:.1$e}", u[i], precision).unwrap();
-        let _ = buf.split_off(buf.find('e').unwrap());
+        if let Some(pos) = buf.find('e') {
+            buf.truncate(pos); // NaN and Inf have no exponent
+        }
         width = cmp::max(buf.chars().count(), width);
         buf.clear();
     }
-- 
2.43.0


From 93c626afc4dbe0f872d2b75bf0887533481bee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:26 +0000
Subject: [PATCH 26/72] fix: unreadable lines in text tables must return an
 error

---
 russell_lab/src/base/read_table.rs   | 2 +-
 russell_lab/src/matrix/num_matrix.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/base/read_table.rs b/russell_lab/src/base/read_table.rs
index e48de2b..e40a8b7 100644
--- a/russell_lab/src/base/read_table.rs
+++ b/russell_lab/src/base/read_table.rs
@@ -134,7 +134,7 @@ where
         match lines_iter.next() {
             Some(v) => {
                 // extract line
-                let line = v.unwrap(); // must panic because no error expected here
+                let line = v.map_err(|_| "cannot read line")?;
 
                 // ignore comments or empty lines
                 let maybe_data = line.trim_start().trim_end_matches("\n");
diff --git a/russell_lab/src/matrix/num_matrix.rs b/russell_lab/src/matrix/num_matrix.rs
index ebe04dc..585035c 100644
--- a/russell_lab/src/matrix/num_matrix.rs
+++ b/russell_lab/src/matrix/num_matrix.rs
@@ -560,7 +560,7 @@ where
             match lines_iter.next() {
                 Some(v) => {
                     // extract line
-                    let line = v.unwrap(); // must panic because no error expected here
+                    let line = v.map_err(|_| "cannot read line")?;
 
                     // ignore comments or empty lines
                     let maybe_data = line.trim_start().trim_end_matches("\n");
-- 
2.43.0


From 9469d529e715eb1e4432868c217a979d866e8e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:50 +0000
Subject: [PATCH 27/72] fix: cancellation in solve_cubic with one real root

The smaller of the two cube roots was computed from a difference of nearly
equal numbers when the linear coefficient of the depressed cubic is small.
---
 russell_lab/src/algo/cubic.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/russell_lab/src/algo/cubic.rs b/russell_lab/src/algo/cubic.rs
index b6f48fa..b2219de 100644
--- a/russell_lab/src/algo/cubic.rs
+++ b/russell_lab/src/algo/cubic.rs
@@ -57,8 +57,13 @@ pub fn solve_cubic(a: f64, b: f64, c: f64, d: f64) -> Result<Vec<f64>, StrError>
     match delta {
         d if d > tol_delta => {
             let sqrt_delta = delta.sqrt();
-            let u = (-half_b + sqrt_delta).cbrt();
-            let v = (-half_b - sqrt_delta).cbrt();
+            // avoid the cancellation in the smaller of -B/2 ± sqrt(delta)
+            let u = if half_b > 0.0 {
+                (-half_b - sqrt_delta).cbrt()
+            } else {
+                (-half_b + sqrt_delta).cbrt()
+            };
+            let v = -third_a / u;
             ys.push(u + v);
         }
 
-- 
2.43.0


From a394e47bef0f3340537c1a698a0846cd45afa752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:29 +0000
Subject: [PATCH 28/72] fix: Newton solver reported success with NaN residuals

The maximum norm may skip NaN components, thus the convergence check passed
with a residual vector that contains NaN.
---
 russell_lab/src/algo/newton_solver.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/russell_lab/src/algo/newton_solver.rs b/russell_lab/src/algo/newton_solver.rs
index bd7772a..bdb2699 100644
--- a/russell_lab/src/algo/newton_solver.rs
+++ b/russell_lab/src/algo/newton_solver.rs
@@ -265,6 +265,12 @@ impl NewtonSolver {
         for it in 0..self.max_iterations {
             self.stats.inc_n_iterations(1);
 
+            // Check for invalid numbers (the norm may skip NaN components)
+            if self.r.as_data().iter().any(|r| r.is_nan()) {
+                self.stats.stop_sw_total();
+                return Err("residual vector contains NaN");
+            }
+
             // Check convergence
             if residual_norm < self.tolerance {
                 self.stats.stop_sw_total();
-- 
2.43.0


From 093d15ea5d9317993f91ae0c18c04f8a8c256933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:07 +0000
Subject: [PATCH 29/72] fix: validate the pointers and triangle of arrays given
 to CSC and CSR matrices

Malformed pointers caused an out-of-bounds panic instead of an error, and arrays
with a nonzero first pointer or entries in the wrong triangle were accepted.
---
 russell_sparse/src/csc_matrix.rs | 13 +++++++++++++
 russell_sparse/src/csr_matrix.rs | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/russell_sparse/src/csc_matrix.rs b/russell_sparse/src/csc_matrix.rs
index 9f9bafa..59fe3c8 100644
--- a/russell_sparse/src/csc_matrix.rs
+++ b/russell_sparse/src/csc_matrix.rs
@@ -232,8 +232,12 @@ where
             if col_pointers[j] > col_pointers[j + 1] {
                 return Err("col pointers must be sorted in ascending order");
             }
+            if col_pointers[j + 1] > nnz {
+                return Err("col pointers must be ≤ nnz");
+            }
             let start = col_pointers[j] as usize;
             let end = col_pointers[j + 1] as usize;
+            let jj = to_i32(j);
             for p in start..end {
                 let i = row_indices[p];
                 if i < 0 {
@@ -242,6 +246,12 @@ where
                 if i >= m {
                     return Err("row indices must be < nrow");
                 }
+                if symmetric == Sym::YesLower && jj > i {
+                    return Err("j > i is incorrect for lower triangular storage");
+                }
+                if symmetric == Sym::YesUpper && jj < i {
+                    return Err("j < i is incorrect for upper triangular storage");
+                }
                 if p > start {
                     if row_indices[p - 1] > row_indices[p] {
                         return Err("row indices must be sorted in ascending order (within their column)");
@@ -249,6 +259,9 @@ where
                 }
             }
         }
+        if col_pointers[0] > 0 {
+            return Err("col_pointers[0] must be = 0");
+        }
         Ok(NumCscMatrix {
             symmetric,
             nrow,
diff --git a/russell_sparse/src/csr_matrix.rs b/russell_sparse/src/csr_matrix.rs
index ac01ddd..1b7ee56 100644
--- a/russell_sparse/src/csr_matrix.rs
+++ b/russell_sparse/src/csr_matrix.rs
@@ -228,8 +228,12 @@ where
             if row_pointers[i] > row_pointers[i + 1] {
                 return Err("row pointers must be sorted in ascending order");
             }
+            if row_pointers[i + 1] > nnz {
+                return Err("row pointers must be ≤ nnz");
+            }
             let start = row_pointers[i] as usize;
             let end = row_pointers[i + 1] as usize;
+            let ii = to_i32(i);
             for p in start..end {
                 let j = col_indices[p];
                 if j < 0 {
@@ -238,6 +242,12 @@ where
                 if j >= n {
                     return Err("column indices must be < ncol");
                 }
+                if symmetric == Sym::YesLower && j > ii {
+                    return Err("j > i is incorrect for lower triangular storage");
+                }
+                if symmetric == Sym::YesUpper && j < ii {
+                    return Err("j < i is incorrect for upper triangular storage");
+                }
                 if p > start {
                     if col_indices[p - 1] > col_indices[p] {
                         return Err("column indices must be sorted in ascending order (within their row)");
@@ -245,6 +255,9 @@ where
                 }
             }
         }
+        if row_pointers[0] > 0 {
+            return Err("row_pointers[0] must be = 0");
+        }
         Ok(NumCsrMatrix {
             symmetric,
             nrow,
-- 
2.43.0


From ad67dc5d330c02ec2df4a3eb3ec04076a6aea77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:07 +0000
Subject: [PATCH 30/72] fix: reject wrong-triangle triplets and non-square
 symmetric matrices in CooMatrix::from

---
 russell_sparse/src/coo_matrix.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/russell_sparse/src/coo_matrix.rs b/russell_sparse/src/coo_matrix.rs
index 9805be4..c017da6 100644
--- a/russell_sparse/src/coo_matrix.rs
+++ b/russell_sparse/src/coo_matrix.rs
@@ -267,6 +267,9 @@ where
         if values.len() != nnz {
             return Err("values.len() must be = nnz");
         }
+        if symmetric != Sym::No && nrow != ncol {
+            return Err("symmetric storage requires a square matrix");
+        }
         let m = to_i32(nrow);
         let n = to_i32(ncol);
         for k in 0..nnz {
@@ -276,6 +279,12 @@ where
             if col_indices[k] < 0 || col_indices[k] >= n {
                 return Err("col index is out-of-range");
             }
+            if symmetric == Sym::YesLower && col_indices[k] > row_indices[k] {
+                return Err("j > i is incorrect for lower triangular storage");
+            }
+            if symmetric == Sym::YesUpper && col_indices[k] < row_indices[k] {
+                return Err("j < i is incorrect for upper triangular storage");
+            }
         }
         Ok(NumCooMatrix {
             symmetric,
-- 
2.43.0


From 2e6f1041b8b34a83fc6cae655e7b9f85ca25346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:07 +0000
Subject: [PATCH 31/72] fix: write purely imaginary entries to complex
 MatrixMarket files

The entries counted in the header and the entries written did not match.
---
 russell_sparse/src/write_matrix_market.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_sparse/src/write_matrix_market.rs b/russell_sparse/src/write_matrix_market.rs
index b65e7f3..0f07239 100644
--- a/russell_sparse/src/write_matrix_market.rs
+++ b/russell_sparse/src/write_matrix_market.rs
@@ -258,7 +258,7 @@ impl ComplexCscMatrix {
                 for p in self.col_pointers[j]..self.col_pointers[j + 1] {
                     let i = self.row_indices[p as usize] as usize;
                     let aij = self.values[p as usize];
-                    if f64::abs(aij.re) > tol || f64::abs(aij.im) < tol {
+                    if f64::abs(aij.re) > tol || f64::abs(aij.im) > tol {
                         match self.symmetric {
                             Sym::No => write!(&mut buffer, "{} {} {:?} {:?}\n", i + 1, j + 1, aij.re, aij.im).unwrap(),
                             Sym::YesLower => {
-- 
2.43.0


From efc9cc2cf8d11d398e239be4ceb7cc9b102286bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:07 +0000
Subject: [PATCH 32/72] fix: restore the y vector if the function fails during
 the numerical Jacobian

---
 russell_sparse/src/numerical_jacobian.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/russell_sparse/src/numerical_jacobian.rs b/russell_sparse/src/numerical_jacobian.rs
index 936c469..b688bee 100644
--- a/russell_sparse/src/numerical_jacobian.rs
+++ b/russell_sparse/src/numerical_jacobian.rs
@@ -173,7 +173,9 @@ where
         let original_yj = y[j];
         let delta_yj = f64::sqrt(f64::EPSILON * f64::max(THRESHOLD, f64::abs(y[j])));
         y[j] += delta_yj; // Yⱼ := yⱼ + Δyⱼ
-        function(w2, x, y, args)?; // F := f(x, y + Δy)
+        let res = function(w2, x, y, args); // F := f(x, y + Δy)
+        y[j] = original_yj; // restore yⱼ
+        res?;
         let (start, endp1) = match jj.symmetric {
             Sym::YesLower => (j, ndim),
             Sym::YesUpper => (0, j + 1),
@@ -183,7 +185,6 @@ where
             let delta_fi = w2[i] - w1[i]; // Δfᵢ := Fᵢ - fᵢ
             jj.put(i, j, alpha * delta_fi / delta_yj).unwrap(); // Δfᵢ/Δyⱼ
         }
-        y[j] = original_yj; // restore yⱼ
     }
     Ok(())
 }
-- 
2.43.0


From b0a472b69768175f7af4777b7c53b254a4cb6c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:07 +0000
Subject: [PATCH 33/72] fix: report malformed MatrixMarket files as errors
 instead of panicking

A file without the dimensions line, with bytes that are not UTF-8, with entries in the
upper triangle of a symmetric matrix, with extreme indices or with a huge number of
entries in the dimensions line caused a panic (or an attempt to allocate huge arrays).
---
 russell_sparse/src/read_matrix_market.rs | 58 +++++++++++++-----------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/russell_sparse/src/read_matrix_market.rs b/russell_sparse/src/read_matrix_market.rs
index 5a0ce55..14d2090 100644
--- a/russell_sparse/src/read_matrix_market.rs
+++ b/russell_sparse/src/read_matrix_market.rs
@@ -170,13 +170,13 @@ impl MatrixMarketData {
             };
         }
 
-        self.i -= 1; // MatrixMarket is one-based, so make it zero-based here
-        self.j -= 1;
-
-        if self.i < 0 || self.i >= self.m || self.j < 0 || self.j >= self.n {
+        if self.i < 1 || self.i > self.m || self.j < 1 || self.j > self.n {
             return Err("found an invalid index");
         }
 
+        self.i -= 1; // MatrixMarket is one-based, so make it zero-based here
+        self.j -= 1;
+
         self.pos += 1; // next position
 
         Ok(true) // returns true == parsed
@@ -352,6 +352,7 @@ where
 {
     let path = Path::new(full_path).to_path_buf();
     let input = File::open(path).map_err(|_| "cannot open file")?;
+    let metadata = input.metadata().map_err(|_| "cannot read file metadata")?;
     let buffered = BufReader::new(input);
     let mut lines_iter = buffered.lines();
 
@@ -360,7 +361,7 @@ where
 
     // read first line
     let header = match lines_iter.next() {
-        Some(v) => v.unwrap(), // must panic because no error expected here
+        Some(v) => v.map_err(|_| "cannot read line")?,
         None => return Err("the file is empty"),
     };
 
@@ -369,7 +370,10 @@ where
 
     // read and parse dimensions
     loop {
-        let line = lines_iter.next().unwrap().unwrap(); // must panic because no error expected here
+        let line = match lines_iter.next() {
+            Some(v) => v.map_err(|_| "cannot read line")?,
+            None => return Err("cannot find the dimensions line"),
+        };
         if data.parse_dimensions(&line)? {
             break;
         }
@@ -392,41 +396,41 @@ where
     };
 
     // set max number of entries
-    let mut max = data.nnz;
+    let mut max = data.nnz as usize;
     if data.symmetric && symmetric_handling == MMsym::MakeItFull {
-        max = 2 * data.nnz;
+        max *= 2;
+    }
+
+    // check the number of entries before allocating memory (each entry needs a line in the file)
+    if metadata.is_file() && data.nnz as u64 > metadata.len() {
+        return Err("not all values have been found");
     }
 
     // read and parse values
     if data.complex {
-        let mut coo = ComplexCooMatrix::new(data.m as usize, data.n as usize, max as usize, sym).unwrap();
+        let mut coo = ComplexCooMatrix::new(data.m as usize, data.n as usize, max, sym).unwrap();
         loop {
             match lines_iter.next() {
                 Some(v) => {
-                    let line = v.unwrap(); // must panic because no error expected here
+                    let line = v.map_err(|_| "cannot read line")?;
                     if data.parse_values(&line)? {
                         if data.symmetric {
                             match symmetric_handling {
                                 MMsym::LeaveAsLower => {
-                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))
-                                        .unwrap();
+                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))?;
                                 }
                                 MMsym::SwapToUpper => {
-                                    coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))
-                                        .unwrap();
+                                    coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))?;
                                 }
                                 MMsym::MakeItFull => {
-                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))
-                                        .unwrap();
+                                    coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))?;
                                     if data.i != data.j {
-                                        coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))
-                                            .unwrap();
+                                        coo.put(data.j as usize, data.i as usize, cpx!(data.aij, data.bij))?;
                                     }
                                 }
                             }
                         } else {
-                            coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))
-                                .unwrap();
+                            coo.put(data.i as usize, data.j as usize, cpx!(data.aij, data.bij))?;
                         };
                     }
                 }
@@ -438,29 +442,29 @@ where
         }
         Ok((None, Some(coo)))
     } else {
-        let mut coo = CooMatrix::new(data.m as usize, data.n as usize, max as usize, sym).unwrap();
+        let mut coo = CooMatrix::new(data.m as usize, data.n as usize, max, sym).unwrap();
         loop {
             match lines_iter.next() {
                 Some(v) => {
-                    let line = v.unwrap(); // must panic because no error expected here
+                    let line = v.map_err(|_| "cannot read line")?;
                     if data.parse_values(&line)? {
                         if data.symmetric {
                             match symmetric_handling {
                                 MMsym::LeaveAsLower => {
-                                    coo.put(data.i as usize, data.j as usize, data.aij).unwrap();
+                                    coo.put(data.i as usize, data.j as usize, data.aij)?;
                                 }
                                 MMsym::SwapToUpper => {
-                                    coo.put(data.j as usize, data.i as usize, data.aij).unwrap();
+                                    coo.put(data.j as usize, data.i as usize, data.aij)?;
                                 }
                                 MMsym::MakeItFull => {
-                                    coo.put(data.i as usize, data.j as usize, data.aij).unwrap();
+                                    coo.put(data.i as usize, data.j as usize, data.aij)?;
                                     if data.i != data.j {
-                                        coo.put(data.j as usize, data.i as usize, data.aij).unwrap();
+                                        coo.put(data.j as usize, data.i as usize, data.aij)?;
                                     }
                                 }
                             }
                         } else {
-                            coo.put(data.i as usize, data.j as usize, data.aij).unwrap();
+                            coo.put(data.i as usize, data.j as usize, data.aij)?;
                         };
                     }
                 }
-- 
2.43.0


From 23886c48f4ff65f93e1b91da4b57ff0647b435c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:50 +0000
Subject: [PATCH 34/72] fix: reject a changed non-zero pattern when
 refactorizing with UMFPACK

The symbolic factorization is computed just once, and UMFPACK reads out of
bounds if the numeric factorization gets another pattern with the same number
of entries.
---
 russell_sparse/src/complex_solver_umfpack.rs | 11 ++++++++++-
 russell_sparse/src/solver_umfpack.rs         | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/russell_sparse/src/complex_solver_umfpack.rs b/russell_sparse/src/complex_solver_umfpack.rs
index 8691eb6..63c3883 100644
--- a/russell_sparse/src/complex_solver_umfpack.rs
+++ b/russell_sparse/src/complex_solver_umfpack.rs
@@ -260,7 +260,16 @@ impl ComplexLinSolTrait for ComplexSolverUMFPACK {
             if params.is_some() {
                 return Err("subsequent factorizations must not change LinSolParams");
             }
-            self.csc.as_mut().unwrap().update_from_coo(mat)?;
+            if mat.ncol != self.initialized_ndim {
+                return Err("subsequent factorizations must use the same matrix (ncol differs)");
+            }
+            let csc = ComplexCscMatrix::from_coo(mat)?;
+            let previous = self.csc.as_ref().unwrap();
+            let nnz = csc.col_pointers[csc.ncol] as usize;
+            if csc.col_pointers != previous.col_pointers || csc.row_indices[..nnz] != previous.row_indices[..nnz] {
+                return Err("subsequent factorizations must use the same matrix (non-zero pattern differs)");
+            }
+            self.csc = Some(csc);
         } else {
             if mat.nrow != mat.ncol {
                 return Err("the matrix must be square");
diff --git a/russell_sparse/src/solver_umfpack.rs b/russell_sparse/src/solver_umfpack.rs
index 3653716..8c9a9b8 100644
--- a/russell_sparse/src/solver_umfpack.rs
+++ b/russell_sparse/src/solver_umfpack.rs
@@ -244,7 +244,16 @@ impl LinSolTrait for SolverUMFPACK {
             if params.is_some() {
                 return Err("subsequent factorizations must not change LinSolParams");
             }
-            self.csc.as_mut().unwrap().update_from_coo(mat)?;
+            if mat.ncol != self.initialized_ndim {
+                return Err("subsequent factorizations must use the same matrix (ncol differs)");
+            }
+            let csc = CscMatrix::from_coo(mat)?;
+            let previous = self.csc.as_ref().unwrap();
+            let nnz = csc.col_pointers[csc.ncol] as usize;
+            if csc.col_pointers != previous.col_pointers || csc.row_indices[..nnz] != previous.row_indices[..nnz] {
+                return Err("subsequent factorizations must use the same matrix (non-zero pattern differs)");
+            }
+            self.csc = Some(csc);
         } else {
             if mat.nrow != mat.ncol {
                 return Err("the matrix must be square");
-- 
2.43.0


From d3ac0a08813f075f38d597ceb6900489286a5fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:50 +0000
Subject: [PATCH 35/72] fix: report singular matrices in UMFPACK when the
 determinant is requested

The status of the determinant calculation replaced the status of the numeric
factorization. Also, a failed factorization no longer leaves the solver marked
as factorized.
---
 russell_sparse/c_code/interface_complex_umfpack.c | 2 +-
 russell_sparse/c_code/interface_umfpack.c         | 2 +-
 russell_sparse/src/complex_solver_umfpack.rs      | 1 +
 russell_sparse/src/solver_umfpack.rs              | 1 +
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/russell_sparse/c_code/interface_complex_umfpack.c b/russell_sparse/c_code/interface_complex_umfpack.c
index c14b231..fa7038b 100644
--- a/russell_sparse/c_code/interface_complex_umfpack.c
+++ b/russell_sparse/c_code/interface_complex_umfpack.c
@@ -188,7 +188,7 @@ int32_t complex_solver_umfpack_factorize(struct InterfaceComplexUMFPACK *solver,
     *rcond_estimate = solver->info[UMFPACK_RCOND];
 
     // compute determinant
-    if (compute_determinant == C_TRUE) {
+    if (compute_determinant == C_TRUE && code == UMFPACK_OK) {
         code = umfpack_zi_get_determinant(determinant_coefficient_real,
                                           determinant_coefficient_imag,
                                           determinant_exponent,
diff --git a/russell_sparse/c_code/interface_umfpack.c b/russell_sparse/c_code/interface_umfpack.c
index 2133ffb..471bf12 100644
--- a/russell_sparse/c_code/interface_umfpack.c
+++ b/russell_sparse/c_code/interface_umfpack.c
@@ -184,7 +184,7 @@ int32_t solver_umfpack_factorize(struct InterfaceUMFPACK *solver,
     *rcond_estimate = solver->info[UMFPACK_RCOND];
 
     // compute determinant
-    if (compute_determinant == C_TRUE) {
+    if (compute_determinant == C_TRUE && code == UMFPACK_OK) {
         code = umfpack_di_get_determinant(determinant_coefficient,
                                           determinant_exponent,
                                           solver->numeric,
diff --git a/russell_sparse/src/complex_solver_umfpack.rs b/russell_sparse/src/complex_solver_umfpack.rs
index 63c3883..b5e07d0 100644
--- a/russell_sparse/src/complex_solver_umfpack.rs
+++ b/russell_sparse/src/complex_solver_umfpack.rs
@@ -326,6 +326,7 @@ impl ComplexLinSolTrait for ComplexSolverUMFPACK {
         }
 
         // call factorize
+        self.factorized = false;
         self.stopwatch.reset();
         unsafe {
             let status = complex_solver_umfpack_factorize(
diff --git a/russell_sparse/src/solver_umfpack.rs b/russell_sparse/src/solver_umfpack.rs
index 8c9a9b8..bf46bf6 100644
--- a/russell_sparse/src/solver_umfpack.rs
+++ b/russell_sparse/src/solver_umfpack.rs
@@ -310,6 +310,7 @@ impl LinSolTrait for SolverUMFPACK {
         }
 
         // call factorize
+        self.factorized = false;
         self.stopwatch.reset();
         unsafe {
             let status = solver_umfpack_factorize(
-- 
2.43.0


From 0b93b145d34f1afb01855b322f71faa1a64d0fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:50 +0000
Subject: [PATCH 36/72] fix: keep the request for the determinant in subsequent
 UMFPACK factorizations

The parameters must be None when calling factorize again, thus the determinant
was reset to zero.
---
 russell_sparse/src/complex_solver_umfpack.rs | 9 ++++++++-
 russell_sparse/src/solver_umfpack.rs         | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/russell_sparse/src/complex_solver_umfpack.rs b/russell_sparse/src/complex_solver_umfpack.rs
index b5e07d0..73319bf 100644
--- a/russell_sparse/src/complex_solver_umfpack.rs
+++ b/russell_sparse/src/complex_solver_umfpack.rs
@@ -139,6 +139,9 @@ pub struct ComplexSolverUMFPACK {
     /// Holds the number of non-zeros saved in initialize
     initialized_nnz: usize,
 
+    /// Holds the request to compute the determinant saved in initialize
+    initialized_compute_determinant: bool,
+
     /// Holds the used strategy (after factorize)
     effective_strategy: i32,
 
@@ -204,6 +207,7 @@ impl ComplexSolverUMFPACK {
                 initialized_sym: Sym::No,
                 initialized_ndim: 0,
                 initialized_nnz: 0,
+                initialized_compute_determinant: false,
                 effective_strategy: -1,
                 effective_ordering: -1,
                 effective_scaling: -1,
@@ -295,7 +299,10 @@ impl ComplexLinSolTrait for ComplexSolverUMFPACK {
         let scaling = umfpack_scaling(par.scaling);
 
         // requests
-        let compute_determinant = if par.compute_determinant { 1 } else { 0 };
+        if !self.initialized {
+            self.initialized_compute_determinant = par.compute_determinant;
+        }
+        let compute_determinant = if self.initialized_compute_determinant { 1 } else { 0 };
         let verbose = if par.verbose { 1 } else { 0 };
 
         // matrix config
diff --git a/russell_sparse/src/solver_umfpack.rs b/russell_sparse/src/solver_umfpack.rs
index bf46bf6..c19caad 100644
--- a/russell_sparse/src/solver_umfpack.rs
+++ b/russell_sparse/src/solver_umfpack.rs
@@ -129,6 +129,9 @@ pub struct SolverUMFPACK {
     /// Holds the number of non-zeros saved in initialize
     initialized_nnz: usize,
 
+    /// Holds the request to compute the determinant saved in initialize
+    initialized_compute_determinant: bool,
+
     /// Holds the used strategy (after factorize)
     effective_strategy: i32,
 
@@ -189,6 +192,7 @@ impl SolverUMFPACK {
                 initialized_sym: Sym::No,
                 initialized_ndim: 0,
                 initialized_nnz: 0,
+                initialized_compute_determinant: false,
                 effective_strategy: -1,
                 effective_ordering: -1,
                 effective_scaling: -1,
@@ -279,7 +283,10 @@ impl LinSolTrait for SolverUMFPACK {
         let scaling = umfpack_scaling(par.scaling);
 
         // requests
-        let compute_determinant = if par.compute_determinant { 1 } else { 0 };
+        if !self.initialized {
+            self.initialized_compute_determinant = par.compute_determinant;
+        }
+        let compute_determinant = if self.initialized_compute_determinant { 1 } else { 0 };
         let verbose = if par.verbose { 1 } else { 0 };
 
         // matrix config
-- 
2.43.0


From 91aa391ab99f8019db65ab66e7e1edfb5a3890e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:09 +0000
Subject: [PATCH 37/72] fix: reject invalid parameters of the Normal and
 Lognormal distributions

Negative or zero standard deviations gave negative or NaN densities.
---
 russell_stat/src/distribution_lognormal.rs | 6 ++++++
 russell_stat/src/distribution_normal.rs    | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/russell_stat/src/distribution_lognormal.rs b/russell_stat/src/distribution_lognormal.rs
index 17e19ea..9b1651f 100644
--- a/russell_stat/src/distribution_lognormal.rs
+++ b/russell_stat/src/distribution_lognormal.rs
@@ -27,6 +27,9 @@ impl DistributionLognormal {
     /// * `mu_logx` -- mean (μ) of log(x)
     /// * `sig_logx` -- standard deviation (σ) of log(x)
     pub fn new(mu_logx: f64, sig_logx: f64) -> Result<Self, StrError> {
+        if !mu_logx.is_finite() || sig_logx <= 0.0 {
+            return Err("invalid parameters");
+        }
         Ok(DistributionLognormal {
             mu_logx,
             sig_logx,
@@ -45,6 +48,9 @@ impl DistributionLognormal {
     ///
     /// This function will hence calculate `mu_logx` (mean of log(x)) and `sig_logx` (std-dev of log(x))
     pub fn new_from_mu_sig(mu: f64, sig: f64) -> Result<Self, StrError> {
+        if !mu.is_finite() || mu <= 0.0 || sig <= 0.0 {
+            return Err("invalid parameters");
+        }
         let d = sig / mu;
         let v = f64::ln(1.0 + d * d);
         let sig_logx = f64::sqrt(v);
diff --git a/russell_stat/src/distribution_normal.rs b/russell_stat/src/distribution_normal.rs
index e5e04f3..01f0e1b 100644
--- a/russell_stat/src/distribution_normal.rs
+++ b/russell_stat/src/distribution_normal.rs
@@ -25,6 +25,9 @@ impl DistributionNormal {
     /// * `mu` -- mean μ
     /// * `sig` -- standard deviation σ
     pub fn new(mu: f64, sig: f64) -> Result<Self, StrError> {
+        if !mu.is_finite() || sig <= 0.0 {
+            return Err("invalid parameters");
+        }
         Ok(DistributionNormal {
             mu,
             sig,
-- 
2.43.0


From 9988e5bc45a8295866461e6ea840d8fd758b56c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:09 +0000
Subject: [PATCH 38/72] fix: loss of digits in the Lognormal variance with a
 small coefficient of variation

---
 russell_stat/src/distribution_lognormal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_stat/src/distribution_lognormal.rs b/russell_stat/src/distribution_lognormal.rs
index 9b1651f..c5fbf4c 100644
--- a/russell_stat/src/distribution_lognormal.rs
+++ b/russell_stat/src/distribution_lognormal.rs
@@ -52,7 +52,7 @@ impl DistributionLognormal {
             return Err("invalid parameters");
         }
         let d = sig / mu;
-        let v = f64::ln(1.0 + d * d);
+        let v = f64::ln_1p(d * d);
         let sig_logx = f64::sqrt(v);
         let mu_logx = f64::ln(mu) - v / 2.0;
         Ok(DistributionLognormal {
@@ -146,7 +146,7 @@ impl ProbabilityDistribution for DistributionLognormal {
     /// ```
     fn variance(&self) -> f64 {
         let ss = self.sig_logx * self.sig_logx;
-        (f64::exp(ss) - 1.0) * f64::exp(2.0 * self.mu_logx + ss)
+        f64::exp_m1(ss) * f64::exp(2.0 * self.mu_logx + ss)
     }
 
     /// Generates a pseudo-random number belonging to this probability distribution
-- 
2.43.0


From 20f29ba415a8d2a9c01183b48fa2501836c233ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:09 +0000
Subject: [PATCH 39/72] fix: Lognormal and Frechet distributions with small
 scales

The density and cumulative functions were zero up to 1e-15 above the lower limit.
---
 russell_stat/src/distribution_frechet.rs   | 6 ++----
 russell_stat/src/distribution_lognormal.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/russell_stat/src/distribution_frechet.rs b/russell_stat/src/distribution_frechet.rs
index e61a2df..dd74d0e 100644
--- a/russell_stat/src/distribution_frechet.rs
+++ b/russell_stat/src/distribution_frechet.rs
@@ -3,8 +3,6 @@ use rand::Rng;
 use rand_distr::{Distribution, Frechet};
 use russell_lab::math::gamma;
 
-const FRECHET_MIN_DELTA_X: f64 = 1e-15;
-
 /// Implements the Frechet distribution
 ///
 /// This is a Type II Extreme Value Distribution (largest value)
@@ -55,7 +53,7 @@ impl ProbabilityDistribution for DistributionFrechet {
     /// }
     /// ```
     fn pdf(&self, x: f64) -> f64 {
-        if x - self.location < FRECHET_MIN_DELTA_X {
+        if x <= self.location {
             return 0.0;
         }
         let z = (x - self.location) / self.scale;
@@ -82,7 +80,7 @@ impl ProbabilityDistribution for DistributionFrechet {
     /// }
     /// ```
     fn cdf(&self, x: f64) -> f64 {
-        if x - self.location < FRECHET_MIN_DELTA_X {
+        if x <= self.location {
             return 0.0;
         }
         let z = (x - self.location) / self.scale;
diff --git a/russell_stat/src/distribution_lognormal.rs b/russell_stat/src/distribution_lognormal.rs
index c5fbf4c..533554e 100644
--- a/russell_stat/src/distribution_lognormal.rs
+++ b/russell_stat/src/distribution_lognormal.rs
@@ -3,8 +3,6 @@ use rand::Rng;
 use rand_distr::{Distribution, LogNormal};
 use russell_lab::math::{SQRT_2, SQRT_PI, erf};
 
-const LOGNORMAL_MIN_X: f64 = 1e-15;
-
 /// Implements the Lognormal distribution
 ///
 /// See: <https://en.wikipedia.org/wiki/Log-normal_distribution>
@@ -82,7 +80,7 @@ impl ProbabilityDistribution for DistributionLognormal {
     /// }
     /// ```
     fn pdf(&self, x: f64) -> f64 {
-        if x < LOGNORMAL_MIN_X {
+        if x <= 0.0 {
             return 0.0;
         }
         self.a * f64::exp(self.b * f64::powf(f64::ln(x) - self.mu_logx, 2.0)) / x
@@ -104,7 +102,7 @@ impl ProbabilityDistribution for DistributionLognormal {
     /// }
     /// ```
     fn cdf(&self, x: f64) -> f64 {
-        if x < LOGNORMAL_MIN_X {
+        if x <= 0.0 {
             return 0.0;
         }
         (1.0 + erf((f64::ln(x) - self.mu_logx) / (self.sig_logx * SQRT_2))) / 2.0
-- 
2.43.0


From 3abcf9b07fe49c911fcb9772240a7cd15335ad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:09 +0000
Subject: [PATCH 40/72] fix: NaN density in the far left tail of the Gumbel and
 Frechet distributions

---
 russell_stat/src/distribution_frechet.rs | 6 +++++-
 russell_stat/src/distribution_gumbel.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/russell_stat/src/distribution_frechet.rs b/russell_stat/src/distribution_frechet.rs
index dd74d0e..103a797 100644
--- a/russell_stat/src/distribution_frechet.rs
+++ b/russell_stat/src/distribution_frechet.rs
@@ -57,7 +57,11 @@ impl ProbabilityDistribution for DistributionFrechet {
             return 0.0;
         }
         let z = (x - self.location) / self.scale;
-        f64::exp(-f64::powf(z, -self.shape)) * f64::powf(z, -1.0 - self.shape) * self.shape / self.scale
+        let c = f64::exp(-f64::powf(z, -self.shape));
+        if c == 0.0 {
+            return 0.0; // far left tail; pow(z,-1-shape) may be infinite
+        }
+        c * f64::powf(z, -1.0 - self.shape) * self.shape / self.scale
     }
 
     /// Evaluates the Cumulative Distribution Function (CDF)
diff --git a/russell_stat/src/distribution_gumbel.rs b/russell_stat/src/distribution_gumbel.rs
index 4eb7103..6e7f719 100644
--- a/russell_stat/src/distribution_gumbel.rs
+++ b/russell_stat/src/distribution_gumbel.rs
@@ -70,7 +70,11 @@ impl ProbabilityDistribution for DistributionGumbel {
     /// ```
     fn pdf(&self, x: f64) -> f64 {
         let mz = (self.location - x) / self.scale;
-        f64::exp(mz) * f64::exp(-f64::exp(mz)) / self.scale
+        let c = f64::exp(-f64::exp(mz));
+        if c == 0.0 {
+            return 0.0; // far left tail; exp(mz) may be infinite
+        }
+        f64::exp(mz) * c / self.scale
     }
 
     /// Evaluates the Cumulative Distribution Function (CDF)
-- 
2.43.0


From df3b72ac78bb044564a0ff4aac8bfd06c716cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:09 +0000
Subject: [PATCH 41/72] fix: the histogram counted NaN in the first bin

---
 russell_stat/src/histogram.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/russell_stat/src/histogram.rs b/russell_stat/src/histogram.rs
index 54a066f..cf09c80 100644
--- a/russell_stat/src/histogram.rs
+++ b/russell_stat/src/histogram.rs
@@ -137,10 +137,11 @@ where
     fn find_bin(&self, x: T) -> Option<usize> {
         // handle values outside range
         let nstation = self.stations.len();
-        if x < self.stations[0] {
+        // (the comparisons are false with NaN)
+        if !(x >= self.stations[0]) {
             return None;
         }
-        if x >= self.stations[nstation - 1] {
+        if !(x < self.stations[nstation - 1]) {
             return None;
         }
 
-- 
2.43.0


From 1218d222864239fb853071fd709f44a2c5fa5a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:02 +0000
Subject: [PATCH 42/72] fix: write all components of plane tensors to the
 standard matrix and array

The out-of-plane entries of a previously used destination kept their old values.
---
 russell_tensor/src/tensor2.rs |  2 +-
 russell_tensor/src/tensor3.rs | 12 ++++++------
 russell_tensor/src/tensor4.rs |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/russell_tensor/src/tensor2.rs b/russell_tensor/src/tensor2.rs
index b96c2c2..8132096 100644
--- a/russell_tensor/src/tensor2.rs
+++ b/russell_tensor/src/tensor2.rs
@@ -656,7 +656,7 @@ impl Tensor2 {
     /// ```
     pub fn to_std_matrix(&self, mat: &mut Matrix) {
         assert_eq!(mat.dims(), (3, 3));
-        if self.dim < 9 {
+        if self.dim == 6 {
             for m in 0..self.dim {
                 let (i, j) = M_TO_IJ[m];
                 mat.set(i, j, self.get_std(i, j));
diff --git a/russell_tensor/src/tensor3.rs b/russell_tensor/src/tensor3.rs
index e522958..b1729bb 100644
--- a/russell_tensor/src/tensor3.rs
+++ b/russell_tensor/src/tensor3.rs
@@ -970,8 +970,8 @@ impl Tensor3 {
     /// ```
     pub fn to_std_array(&self, dd: &mut Vec<Vec<Vec<f64>>>) {
         if self.case_a {
-            if self.nrow == 9 {
-                // General
+            if self.nrow != 6 {
+                // General / Symmetric2D (with out-of-plane zeros)
                 for i in 0..3 {
                     for j in 0..3 {
                         for k in 0..3 {
@@ -980,7 +980,7 @@ impl Tensor3 {
                     }
                 }
             } else {
-                // Symmetric / Symmetric2D
+                // Symmetric
                 for m in 0..self.nrow {
                     for n in 0..self.ncol {
                         let (i, j, k) = MN_TO_IJK_CASE_A[m][n];
@@ -992,8 +992,8 @@ impl Tensor3 {
                 }
             }
         } else {
-            if self.ncol == 9 {
-                // General
+            if self.ncol != 6 {
+                // General / Symmetric2D (with out-of-plane zeros)
                 for i in 0..3 {
                     for j in 0..3 {
                         for k in 0..3 {
@@ -1002,7 +1002,7 @@ impl Tensor3 {
                     }
                 }
             } else {
-                // Symmetric / Symmetric2D
+                // Symmetric
                 for m in 0..self.nrow {
                     for n in 0..self.ncol {
                         let (i, j, k) = MN_TO_IJK_CASE_B[m][n];
diff --git a/russell_tensor/src/tensor4.rs b/russell_tensor/src/tensor4.rs
index 3b74333..b166bec 100644
--- a/russell_tensor/src/tensor4.rs
+++ b/russell_tensor/src/tensor4.rs
@@ -881,7 +881,7 @@ impl Tensor4 {
     /// ```
     pub fn to_std_array(&self, dd: &mut Vec<Vec<Vec<Vec<f64>>>>) {
         let dim = self.dim;
-        if dim < 9 {
+        if dim == 6 {
             for m in 0..dim {
                 for n in 0..dim {
                     let (i, j, k, l) = MN_TO_IJKL[m][n];
-- 
2.43.0


From f8dc866e2640e7574a506b7b141ef6e354f3f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:02 +0000
Subject: [PATCH 43/72] fix: clear the skew components of the symmetric part in
 Tensor2 decompose

A previously used destination tensor kept its old skew components.
---
 russell_tensor/src/tensor2.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/russell_tensor/src/tensor2.rs b/russell_tensor/src/tensor2.rs
index 8132096..b29f67d 100644
--- a/russell_tensor/src/tensor2.rs
+++ b/russell_tensor/src/tensor2.rs
@@ -1740,9 +1740,10 @@ impl Tensor2 {
                 sym.vec[m] = self.vec[m];
                 skw.vec[m] = 0.0;
             }
-            skw.set(6, self.vec[6]);
-            skw.set(7, self.vec[7]);
-            skw.set(8, self.vec[8]);
+            for m in 6..9 {
+                sym.vec[m] = 0.0;
+                skw.vec[m] = self.vec[m];
+            }
         } else {
             // There is only symmetric part
             for m in 0..self.dim {
-- 
2.43.0


From 806f1714eaed6d5f0c2f294f019d5efcbbfc535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:26 +0000
Subject: [PATCH 44/72] fix: keep the Lode invariant of symmetric tensors in
 its range

With two equal principal values round-off gave values just beyond one, which
new_from_octahedral then rejected.
---
 russell_tensor/src/tensor2.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/russell_tensor/src/tensor2.rs b/russell_tensor/src/tensor2.rs
index b29f67d..e30f8f3 100644
--- a/russell_tensor/src/tensor2.rs
+++ b/russell_tensor/src/tensor2.rs
@@ -2216,7 +2216,13 @@ impl Tensor2 {
         let jj2 = self.invariant_jj2();
         if jj2 > TOL_J2 {
             let jj3 = self.invariant_jj3();
-            Some(1.5 * SQRT_3 * jj3 / f64::powf(jj2, 1.5))
+            let lode = 1.5 * SQRT_3 * jj3 / f64::powf(jj2, 1.5);
+            if self.rep.symmetric() {
+                // remove the round-off that would take the invariant out of its range
+                Some(f64::max(-1.0, f64::min(1.0, lode)))
+            } else {
+                Some(lode)
+            }
         } else {
             None
         }
-- 
2.43.0


From 07c973ea24b7d374f5521f21edc9a91f675c443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:32 +0000
Subject: [PATCH 45/72] fix: equal stepping could take one step past the final
 station

The number of steps was recomputed from the rounded stepsize, and the
quotient may land just above the integer already used to get it.
---
 russell_ode/src/ode_solver.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index 5f99a82..ab2b1b3 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -195,22 +195,22 @@ impl<'a, A> OdeSolver<'a, A> {
         let info = self.params.method.information();
 
         // initial stepsize
-        let (equal_stepping, mut h) = match h_equal {
+        let (equal_stepping, nstep, mut h) = match h_equal {
             Some(h_eq) => {
                 if h_eq < 10.0 * f64::EPSILON {
                     return Err("h_equal must be ≥ 10.0 * f64::EPSILON");
                 }
                 let n = f64::ceil((x1 - x0) / h_eq) as usize;
                 let h = (x1 - x0) / (n as f64);
-                (true, h)
+                (true, n, h)
             }
             None => {
                 if info.embedded {
                     let h = f64::min(self.params.step.h_ini, x1 - x0);
-                    (false, h)
+                    (false, 0, h)
                 } else {
                     let h = (x1 - x0) / (N_EQUAL_STEPS as f64);
-                    (true, h)
+                    (true, N_EQUAL_STEPS, h)
                 }
             }
         };
@@ -237,7 +237,6 @@ impl<'a, A> OdeSolver<'a, A> {
 
         // equal-stepping loop
         if equal_stepping {
-            let nstep = f64::ceil((x1 - x) / h) as usize;
             for _ in 0..nstep {
                 self.work.stats.sw_step.reset();
 
-- 
2.43.0


From ea019ecc7d9a061313b3135e3b418f484889f0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:05 +0000
Subject: [PATCH 46/72] fix: custom linear solver parameters made the second
 factorization fail

---
 russell_ode/src/euler_backward.rs | 12 +++++++++-
 russell_ode/src/radau5.rs         | 38 +++++++++++++++++++------------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/russell_ode/src/euler_backward.rs b/russell_ode/src/euler_backward.rs
index 1b7fd5a..728399c 100644
--- a/russell_ode/src/euler_backward.rs
+++ b/russell_ode/src/euler_backward.rs
@@ -30,6 +30,9 @@ pub(crate) struct EulerBackward<'a, A> {
 
     /// Linear solver
     solver: LinSolver<'a>,
+
+    /// Indicates that the parameters were already given to the linear solver
+    lin_sol_params_given: bool,
 }
 
 impl<'a, A> EulerBackward<'a, A> {
@@ -52,6 +55,7 @@ impl<'a, A> EulerBackward<'a, A> {
             dy: Vector::new(ndim),
             kk: CooMatrix::new(ndim, ndim, nnz, sym).unwrap(),
             solver: LinSolver::new(params.newton.genie).unwrap(),
+            lin_sol_params_given: false,
         }
     }
 }
@@ -124,7 +128,13 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
                 // perform factorization
                 work.stats.sw_factor.reset();
                 work.stats.n_factor += 1;
-                self.solver.actual.factorize(kk, self.params.newton.lin_sol_params)?;
+                let lin_sol_params = if self.lin_sol_params_given {
+                    None // subsequent factorizations must not change the parameters
+                } else {
+                    self.params.newton.lin_sol_params
+                };
+                self.lin_sol_params_given = true;
+                self.solver.actual.factorize(kk, lin_sol_params)?;
                 work.stats.stop_sw_factor();
             }
 
diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 472191c..54f1d17 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -3,7 +3,8 @@ use crate::{OdeSolverTrait, Params, System, Workspace};
 use russell_lab::math::SQRT_6;
 use russell_lab::{ComplexVector, Vector, complex_vec_zip, cpx, format_fortran, vec_copy};
 use russell_sparse::{
-    ComplexCooMatrix, ComplexCscMatrix, ComplexLinSolver, CooMatrix, CscMatrix, Genie, LinSolver, numerical_jacobian,
+    ComplexCooMatrix, ComplexCscMatrix, ComplexLinSolver, CooMatrix, CscMatrix, Genie, LinSolParams, LinSolver,
+    numerical_jacobian,
 };
 use std::thread;
 
@@ -50,6 +51,9 @@ pub(crate) struct Radau5<'a, A> {
     /// Linear solver (for complex system)
     solver_comp: ComplexLinSolver<'a>,
 
+    /// Indicates that the parameters were already given to the linear solvers
+    lin_sol_params_given: bool,
+
     /// Indicates that the Jacobian can be reused (once)
     reuse_jacobian: bool,
 
@@ -152,6 +156,7 @@ impl<'a, A> Radau5<'a, A> {
             kk_comp: ComplexCooMatrix::new(ndim, ndim, nnz, sym).unwrap(),
             solver_real: LinSolver::new(params.newton.genie).unwrap(),
             solver_comp: ComplexLinSolver::new(params.newton.genie).unwrap(),
+            lin_sol_params_given: false,
             reuse_jacobian: false,
             reuse_jacobian_kk_and_fact: false,
             jacobian_computed: false,
@@ -256,30 +261,33 @@ impl<'a, A> Radau5<'a, A> {
         Ok(())
     }
 
+    /// Returns the parameters for the linear solvers at the first factorization only
+    fn lin_sol_params(&mut self) -> Option<LinSolParams> {
+        if self.lin_sol_params_given {
+            return None; // subsequent factorizations must not change the parameters
+        }
+        self.lin_sol_params_given = true;
+        self.params.newton.lin_sol_params
+    }
+
     /// Factorizes the real and complex systems in serial
     fn factorize(&mut self) -> Result<(), StrError> {
-        self.solver_real
-            .actual
-            .factorize(&self.kk_real, self.params.newton.lin_sol_params)?;
-        self.solver_comp
-            .actual
-            .factorize(&self.kk_comp, self.params.newton.lin_sol_params)
+        let params = self.lin_sol_params();
+        let res_real = self.solver_real.actual.factorize(&self.kk_real, params);
+        let res_comp = self.solver_comp.actual.factorize(&self.kk_comp, params);
+        res_real?;
+        res_comp
     }
 
     /// Factorizes the real and complex systems concurrently
     fn factorize_concurrently(&mut self) -> Result<(), StrError> {
+        let params = self.lin_sol_params();
         thread::scope(|scope| {
             let handle_real = scope.spawn(|| {
-                self.solver_real
-                    .actual
-                    .factorize(&self.kk_real, self.params.newton.lin_sol_params)
-                    .unwrap();
+                self.solver_real.actual.factorize(&self.kk_real, params).unwrap();
             });
             let handle_comp = scope.spawn(|| {
-                self.solver_comp
-                    .actual
-                    .factorize(&self.kk_comp, self.params.newton.lin_sol_params)
-                    .unwrap();
+                self.solver_comp.actual.factorize(&self.kk_comp, params).unwrap();
             });
             let err_real = handle_real.join();
             let err_comp = handle_comp.join();
-- 
2.43.0


From 13883513212b08f5f28f09dc3afc7cbc64593212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:51 +0000
Subject: [PATCH 47/72] fix: equal stepping accepted steps whose iterations
 were diverging

---
 russell_ode/src/ode_solver.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index ab2b1b3..5ee9bc1 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -244,6 +244,11 @@ impl<'a, A> OdeSolver<'a, A> {
                 self.work.stats.n_steps += 1;
                 self.actual.step(&mut self.work, x, &y, h, args)?;
 
+                // handle diverging iterations
+                if self.work.iterations_diverging {
+                    return Err("the iterations are diverging with equal stepping");
+                }
+
                 // update x and y
                 self.work.stats.n_accepted += 1; // this must be after `self.actual.step`
                 self.actual.accept(&mut self.work, &mut x, y, h, args)?;
-- 
2.43.0


From 5d31feeb137bb133803521ada1dc5f79fe710ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:51 +0000
Subject: [PATCH 48/72] fix: running out of steps with dense output caused a
 panic

---
 russell_ode/src/ode_solver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index 5ee9bc1..c27d7bd 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -369,8 +369,8 @@ impl<'a, A> OdeSolver<'a, A> {
             }
         }
 
-        // last output
-        if let Some(out) = output.as_deref_mut() {
+        // last output (the dense output cannot be completed if x1 was not reached)
+        if let Some(out) = output.as_deref_mut().filter(|out| success || !out.with_dense_output()) {
             out.last(&self.work, h, x, y, args)?;
         }
 
-- 
2.43.0


From f73b8738bce709813a3b00f79e563d249e80eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:51 +0000
Subject: [PATCH 49/72] fix: Radau5 reused the Jacobian and factorization of a
 previous simulation

---
 russell_ode/src/radau5.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 54f1d17..5ea2d45 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -342,6 +342,15 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
 
     /// Calculates the quantities required to update x and y
     fn step(&mut self, work: &mut Workspace, x: f64, y: &Vector, h: f64, args: &mut A) -> Result<(), StrError> {
+        // Discard the data from a previous simulation
+        if work.stats.n_steps == 1 {
+            self.reuse_jacobian = false;
+            self.reuse_jacobian_kk_and_fact = false;
+            self.jacobian_computed = false;
+            self.eta = 1.0;
+            self.theta = self.params.radau5.theta_max;
+        }
+
         // Perform the initialization for the first time
         if work.stats.n_accepted == 0 {
             self.initialize(work, x, y, args)?;
-- 
2.43.0


From 005c520a9e3585a03ce0edd8484898c61d9a101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:51 +0000
Subject: [PATCH 50/72] fix: BwEuler with modified Newton failed if the first
 step needed no iteration

---
 russell_ode/src/euler_backward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_ode/src/euler_backward.rs b/russell_ode/src/euler_backward.rs
index 728399c..cd9b4d3 100644
--- a/russell_ode/src/euler_backward.rs
+++ b/russell_ode/src/euler_backward.rs
@@ -101,7 +101,7 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
             }
 
             // compute K matrix (augmented Jacobian)
-            if traditional_newton || work.stats.n_accepted == 0 {
+            if traditional_newton || work.stats.n_accepted == 0 || work.stats.n_factor == 0 {
                 // stats
                 work.stats.sw_jacobian.reset();
                 work.stats.n_jacobian += 1;
-- 
2.43.0


From e67d38632558535d1e30817305b2f2e9fec63040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:51 +0000
Subject: [PATCH 51/72] fix: updating the parameters of explicit methods
 ignored the step multipliers

---
 russell_ode/src/explicit_runge_kutta.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/russell_ode/src/explicit_runge_kutta.rs b/russell_ode/src/explicit_runge_kutta.rs
index 021977c..6d3c83b 100644
--- a/russell_ode/src/explicit_runge_kutta.rs
+++ b/russell_ode/src/explicit_runge_kutta.rs
@@ -359,6 +359,10 @@ impl<'a, A> OdeSolverTrait<A> for ExplicitRungeKutta<'a, A> {
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
         self.params = params;
+        self.lund_factor =
+            1.0 / ((self.info.order_of_estimator + 1) as f64) - params.erk.lund_beta * params.erk.lund_m;
+        self.d_min = 1.0 / params.step.m_min;
+        self.d_max = 1.0 / params.step.m_max;
     }
 }
 
-- 
2.43.0


From 1c07806712823e949dd9dcb564450d2274c60fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:51 +0000
Subject: [PATCH 52/72] fix: Radau5 dense output could panic due to rounding

---
 russell_ode/src/radau5.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 5ea2d45..5c27e82 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -684,7 +684,8 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
 
     /// Computes the dense output with x-h ≤ x_out ≤ x
     fn dense_output(&self, y_out: &mut Vector, x_out: f64, x: f64, y: &Vector, h: f64) {
-        assert!(x_out >= x - h && x_out <= x);
+        let tol = 10.0 * f64::EPSILON * f64::abs(x); // because x - h is subject to rounding
+        assert!(x_out >= x - h - tol && x_out <= x);
         let s = (x_out - x) / h;
         for m in 0..self.system.ndim {
             y_out[m] = y[m] + s * (self.yc0[m] + (s - MU4) * (self.yc1[m] + (s - MU3) * self.yc2[m]));
-- 
2.43.0


From d70faf8ca7f34fe38823f85ef84a6f90b4652c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:13 +0000
Subject: [PATCH 53/72] fix: the dense output of DoPri8 used a stage value in
 place of f at the new state

---
 russell_ode/src/erk_dense_out.rs        | 28 ++++++++++++++++---------
 russell_ode/src/explicit_runge_kutta.rs |  5 ++++-
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/russell_ode/src/erk_dense_out.rs b/russell_ode/src/erk_dense_out.rs
index 044daf2..a135897 100644
--- a/russell_ode/src/erk_dense_out.rs
+++ b/russell_ode/src/erk_dense_out.rs
@@ -50,7 +50,7 @@ impl ErkDenseOut {
                 method,
                 ndim,
                 d: vec![Vector::new(ndim); 8],
-                kd: vec![Vector::new(ndim); 3],
+                kd: vec![Vector::new(ndim); 4],
                 yd: Vector::new(ndim),
             }),
         }
@@ -93,6 +93,9 @@ impl ErkDenseOut {
             let ccd = &DORMAND_PRINCE_8_CD;
             let dd = &DORMAND_PRINCE_8_D;
 
+            // function evaluation at the updated state (K13)
+            (system.function)(&mut self.kd[3], x + h, w, args)?;
+
             // first function evaluation
             for m in 0..self.ndim {
                 self.yd[m] = y[m]
@@ -103,7 +106,7 @@ impl ErkDenseOut {
                         + aad[0][9] * k[9][m]
                         + aad[0][10] * k[10][m]
                         + aad[0][11] * k[11][m]
-                        + aad[0][12] * k[11][m]);
+                        + aad[0][12] * self.kd[3][m]);
             }
             let u = x + ccd[0] * h;
             (system.function)(&mut self.kd[0], u, &self.yd, args)?;
@@ -117,7 +120,7 @@ impl ErkDenseOut {
                         + aad[1][7] * k[7][m]
                         + aad[1][10] * k[10][m]
                         + aad[1][11] * k[11][m]
-                        + aad[1][12] * k[11][m]
+                        + aad[1][12] * self.kd[3][m]
                         + aad[1][13] * self.kd[0][m]);
             }
             let u = x + ccd[1] * h;
@@ -131,7 +134,7 @@ impl ErkDenseOut {
                         + aad[2][6] * k[6][m]
                         + aad[2][7] * k[7][m]
                         + aad[2][8] * k[8][m]
-                        + aad[2][12] * k[11][m]
+                        + aad[2][12] * self.kd[3][m]
                         + aad[2][13] * self.kd[0][m]
                         + aad[2][14] * self.kd[1][m]);
             }
@@ -145,7 +148,7 @@ impl ErkDenseOut {
                 self.d[0][m] = y[m];
                 self.d[1][m] = y_diff;
                 self.d[2][m] = b_spl;
-                self.d[3][m] = y_diff - h * k[11][m] - b_spl;
+                self.d[3][m] = y_diff - h * self.kd[3][m] - b_spl;
                 self.d[4][m] = h
                     * (dd[0][0] * k[0][m]
                         + dd[0][5] * k[5][m]
@@ -155,7 +158,7 @@ impl ErkDenseOut {
                         + dd[0][9] * k[9][m]
                         + dd[0][10] * k[10][m]
                         + dd[0][11] * k[11][m]
-                        + dd[0][12] * k[11][m]
+                        + dd[0][12] * self.kd[3][m]
                         + dd[0][13] * self.kd[0][m]
                         + dd[0][14] * self.kd[1][m]
                         + dd[0][15] * self.kd[2][m]);
@@ -168,7 +171,7 @@ impl ErkDenseOut {
                         + dd[1][9] * k[9][m]
                         + dd[1][10] * k[10][m]
                         + dd[1][11] * k[11][m]
-                        + dd[1][12] * k[11][m]
+                        + dd[1][12] * self.kd[3][m]
                         + dd[1][13] * self.kd[0][m]
                         + dd[1][14] * self.kd[1][m]
                         + dd[1][15] * self.kd[2][m]);
@@ -181,7 +184,7 @@ impl ErkDenseOut {
                         + dd[2][9] * k[9][m]
                         + dd[2][10] * k[10][m]
                         + dd[2][11] * k[11][m]
-                        + dd[2][12] * k[11][m]
+                        + dd[2][12] * self.kd[3][m]
                         + dd[2][13] * self.kd[0][m]
                         + dd[2][14] * self.kd[1][m]
                         + dd[2][15] * self.kd[2][m]);
@@ -194,17 +197,22 @@ impl ErkDenseOut {
                         + dd[3][9] * k[9][m]
                         + dd[3][10] * k[10][m]
                         + dd[3][11] * k[11][m]
-                        + dd[3][12] * k[11][m]
+                        + dd[3][12] * self.kd[3][m]
                         + dd[3][13] * self.kd[0][m]
                         + dd[3][14] * self.kd[1][m]
                         + dd[3][15] * self.kd[2][m]);
             }
-            n_function_eval = 3;
+            n_function_eval = 3; // K13 is counted when it becomes the k0 of the next step
         }
 
         Ok(n_function_eval)
     }
 
+    /// Returns f(x,y) at the end of the last accepted step, if available
+    pub(crate) fn f_last(&self) -> Option<&Vector> {
+        self.kd.get(3)
+    }
+
     /// Calculates the dense output
     pub(crate) fn calculate(&self, y_out: &mut Vector, x_out: f64, x: f64, h: f64) {
         if self.method == Method::DoPri5 {
diff --git a/russell_ode/src/explicit_runge_kutta.rs b/russell_ode/src/explicit_runge_kutta.rs
index 6d3c83b..9aee91d 100644
--- a/russell_ode/src/explicit_runge_kutta.rs
+++ b/russell_ode/src/explicit_runge_kutta.rs
@@ -163,7 +163,10 @@ impl<'a, A> OdeSolverTrait<A> for ExplicitRungeKutta<'a, A> {
         // compute k0 (otherwise, use k0 saved in accept)
         if (work.stats.n_accepted == 0 || !self.info.first_step_same_as_last) && !work.follows_reject_step {
             work.stats.n_function += 1;
-            (self.system.function)(&mut k[0], x, y, args)?; // k0 := f(x0, y0)
+            match self.dense_out.as_ref().and_then(|out| out.f_last()) {
+                Some(f_last) if work.stats.n_accepted > 0 => vec_copy(&mut k[0], f_last).unwrap(), // already computed
+                _ => (self.system.function)(&mut k[0], x, y, args)?, // k0 := f(x0, y0)
+            }
         }
 
         // compute ki
-- 
2.43.0


From e194f1f790f844f0854bc39e88717c2f750ffba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:31 +0000
Subject: [PATCH 54/72] fix: dense output stayed enabled in later simulations
 without it

---
 russell_ode/src/explicit_runge_kutta.rs | 5 +++++
 russell_ode/src/ode_solver.rs           | 3 +++
 russell_ode/src/ode_solver_trait.rs     | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/russell_ode/src/explicit_runge_kutta.rs b/russell_ode/src/explicit_runge_kutta.rs
index 9aee91d..e1ae989 100644
--- a/russell_ode/src/explicit_runge_kutta.rs
+++ b/russell_ode/src/explicit_runge_kutta.rs
@@ -154,6 +154,11 @@ impl<'a, A> OdeSolverTrait<A> for ExplicitRungeKutta<'a, A> {
         Ok(())
     }
 
+    /// Disables dense output
+    fn disable_dense_output(&mut self) {
+        self.dense_out = None;
+    }
+
     /// Calculates the quantities required to update x and y
     fn step(&mut self, work: &mut Workspace, x: f64, y: &Vector, h: f64, args: &mut A) -> Result<(), StrError> {
         // auxiliary
diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index c27d7bd..29eb94d 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -223,6 +223,9 @@ impl<'a, A> OdeSolver<'a, A> {
         let mut x = x0; // will become x1 at the end
         let y = y0; // will become y1 at the end
 
+        // the dense output is enabled for the current simulation only
+        self.actual.disable_dense_output();
+
         // first output
         if let Some(out) = output.as_deref_mut() {
             out.initialize(x0, x1, self.params.stiffness.save_results)?;
diff --git a/russell_ode/src/ode_solver_trait.rs b/russell_ode/src/ode_solver_trait.rs
index 6432222..9c9cec3 100644
--- a/russell_ode/src/ode_solver_trait.rs
+++ b/russell_ode/src/ode_solver_trait.rs
@@ -7,6 +7,9 @@ pub(crate) trait OdeSolverTrait<A>: Send {
     /// Enables dense output
     fn enable_dense_output(&mut self) -> Result<(), StrError>;
 
+    /// Disables dense output
+    fn disable_dense_output(&mut self) {}
+
     /// Calculates the quantities required to update x and y
     fn step(&mut self, work: &mut Workspace, x: f64, y: &Vector, h: f64, args: &mut A) -> Result<(), StrError>;
 
-- 
2.43.0


From ffbab8dd0b8793fd8ac5612cb4b371d733a9ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:28 +0000
Subject: [PATCH 55/72] fix: detect uniform grids with large coordinates

The spacing check used an absolute tolerance, so grids created as uniform
were reported as non-uniform when their coordinates were a few units large.
---
 russell_pde/src/grid_1d.rs | 6 ++++--
 russell_pde/src/grid_2d.rs | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/russell_pde/src/grid_1d.rs b/russell_pde/src/grid_1d.rs
index 3b453b1..a1ebe63 100644
--- a/russell_pde/src/grid_1d.rs
+++ b/russell_pde/src/grid_1d.rs
@@ -354,10 +354,12 @@ impl Grid1d {
     ///
     /// # Notes
     ///
-    /// * The method uses a tolerance of 10·ε to account for floating-point precision
+    /// * The method uses a tolerance of max(10, 3.5·max|x|)·ε to account for floating-point precision
     /// * For grids created with `new_uniform()`, this always returns `Some(dx)`
     /// * For CGL grids or arbitrary grids, this typically returns `None`
     pub fn get_dx(&self) -> Option<f64> {
+        let x_abs_max = f64::max(f64::abs(self.coords[0]), f64::abs(self.coords[self.nx - 1]));
+        let tol = f64::EPSILON * f64::max(10.0, 3.5 * x_abs_max);
         let mut dx = f64::NEG_INFINITY;
         for i in 1..self.nx {
             let x = self.coords[i];
@@ -365,7 +367,7 @@ impl Grid1d {
             if dx == f64::NEG_INFINITY {
                 dx = x - xl;
                 assert!(dx > 0.0);
-            } else if f64::abs(x - xl - dx) > 10.0 * f64::EPSILON {
+            } else if f64::abs(x - xl - dx) > tol {
                 return None; // non-uniform
             }
         }
diff --git a/russell_pde/src/grid_2d.rs b/russell_pde/src/grid_2d.rs
index 457128b..ba9ff40 100644
--- a/russell_pde/src/grid_2d.rs
+++ b/russell_pde/src/grid_2d.rs
@@ -657,6 +657,10 @@ impl Grid2d {
     /// * Chebyshev-Gauss-Lobatto grids are non-uniform and return `None`
     /// * Uses a tolerance of 10×ε to check for uniform spacing
     pub fn get_dx_dy(&self) -> Option<(f64, f64)> {
+        let (xa, ya) = self.coords[0];
+        let (xb, yb) = self.coords[self.nx * self.ny - 1];
+        let tol_x = f64::EPSILON * f64::max(10.0, 3.5 * f64::max(f64::abs(xa), f64::abs(xb)));
+        let tol_y = f64::EPSILON * f64::max(10.0, 3.5 * f64::max(f64::abs(ya), f64::abs(yb)));
         let mut dx = f64::NEG_INFINITY;
         let mut dy = f64::NEG_INFINITY;
         for j in 1..self.ny {
@@ -670,13 +674,13 @@ impl Grid2d {
                 if dx == f64::NEG_INFINITY {
                     dx = x - xl;
                     assert!(dx > 0.0);
-                } else if f64::abs(x - xl - dx) > 10.0 * f64::EPSILON {
+                } else if f64::abs(x - xl - dx) > tol_x {
                     return None; // non-uniform in x
                 }
                 if dy == f64::NEG_INFINITY {
                     dy = y - yb;
                     assert!(dy > 0.0);
-                } else if f64::abs(y - yb - dy) > 10.0 * f64::EPSILON {
+                } else if f64::abs(y - yb - dy) > tol_y {
                     return None; // non-uniform in y
                 }
             }
-- 
2.43.0


From 30bdfb64057891690e3d3de2f6231437b1552f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:28 +0000
Subject: [PATCH 56/72] fix: apply the whole boundary flux at corners of
 periodic 2D grids

A corner row is only halved for the second direction if that direction is
not periodic, so the flux must not be halved there.
---
 russell_pde/src/fdm_2d.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/russell_pde/src/fdm_2d.rs b/russell_pde/src/fdm_2d.rs
index 54ed987..26077cc 100644
--- a/russell_pde/src/fdm_2d.rs
+++ b/russell_pde/src/fdm_2d.rs
@@ -760,7 +760,8 @@ impl<'a> Fdm2d<'a> {
             let iu = self.equations.iu(m);
             let (x, y) = self.grid.coord(m);
             let mut den = 1.0;
-            let cf = if self.grid.is_corner(m) { 0.5 } else { 1.0 };
+            let periodic = self.ebcs.periodic_along_x || self.ebcs.periodic_along_y;
+            let cf = if self.grid.is_corner(m) && !periodic { 0.5 } else { 1.0 };
             if !self.ebcs.periodic_along_x {
                 if self.grid.is_xmin(m) {
                     let wn = self.nbcs.functions[0](x, y);
@@ -847,7 +848,8 @@ impl<'a> Fdm2d<'a> {
         let mut ff = Vector::new(ndim);
         self.grid.for_each_coord(|m, x, y| {
             let mut den = 1.0;
-            let cf = if self.grid.is_corner(m) { 0.5 } else { 1.0 };
+            let periodic = self.ebcs.periodic_along_x || self.ebcs.periodic_along_y;
+            let cf = if self.grid.is_corner(m) && !periodic { 0.5 } else { 1.0 };
             if !self.ebcs.periodic_along_x {
                 if self.grid.is_xmin(m) {
                     let wn = self.nbcs.functions[0](x, y);
-- 
2.43.0


From cc77190449269f1e557495c82562af06361b9c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:37 +0000
Subject: [PATCH 57/72] fix: solve problems without essential boundary
 conditions

The system partitioning strategy panicked when no value was prescribed, for
example with periodic sides or with natural conditions on all sides.
---
 russell_pde/src/fdm_1d.rs     | 5 +++--
 russell_pde/src/fdm_2d.rs     | 5 +++--
 russell_pde/src/spc_1d.rs     | 6 ++++--
 russell_pde/src/spc_2d.rs     | 6 ++++--
 russell_pde/src/spc_map_2d.rs | 6 ++++--
 5 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/russell_pde/src/fdm_1d.rs b/russell_pde/src/fdm_1d.rs
index 615db05..4eee95d 100644
--- a/russell_pde/src/fdm_1d.rs
+++ b/russell_pde/src/fdm_1d.rs
@@ -371,10 +371,11 @@ impl<'a> Fdm1d<'a> {
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
-        let kk_check = kk_check.unwrap();
 
         // update the right-hand side with the prescribed values
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
+        if let Some(kk_check) = kk_check {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
diff --git a/russell_pde/src/fdm_2d.rs b/russell_pde/src/fdm_2d.rs
index 26077cc..dc06153 100644
--- a/russell_pde/src/fdm_2d.rs
+++ b/russell_pde/src/fdm_2d.rs
@@ -447,10 +447,11 @@ impl<'a> Fdm2d<'a> {
         let sym_kk_bar = self.genie.get_sym(self.symmetric);
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
-        let kk_check = kk_check.unwrap();
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if let Some(kk_check) = kk_check {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
diff --git a/russell_pde/src/spc_1d.rs b/russell_pde/src/spc_1d.rs
index 7948e72..3ab2cfc 100644
--- a/russell_pde/src/spc_1d.rs
+++ b/russell_pde/src/spc_1d.rs
@@ -284,7 +284,9 @@ impl<'a> Spc1d<'a> {
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if self.equations.np() > 0 {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
@@ -468,7 +470,7 @@ impl<'a> Spc1d<'a> {
         let nx = self.grid.nx();
         let nnz_wcs = nx * nx; // worst-case scenario
         let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, np, nnz_wcs, Sym::No).unwrap();
+        let mut kk_check = CooMatrix::new(nu, usize::max(np, 1), nnz_wcs, Sym::No).unwrap(); // np may be zero
 
         // spectral derivative matrices
         let d1r = self.interp.get_dd1().unwrap();
diff --git a/russell_pde/src/spc_2d.rs b/russell_pde/src/spc_2d.rs
index 08a8372..a87fd12 100644
--- a/russell_pde/src/spc_2d.rs
+++ b/russell_pde/src/spc_2d.rs
@@ -335,7 +335,9 @@ impl<'a> Spc2d<'a> {
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if self.equations.np() > 0 {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
@@ -537,7 +539,7 @@ impl<'a> Spc2d<'a> {
         let neq = self.equations.neq();
         let nnz_wcs = nx * nx * ny * ny; // worst-case scenario
         let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, np, nnz_wcs, Sym::No).unwrap();
+        let mut kk_check = CooMatrix::new(nu, usize::max(np, 1), nnz_wcs, Sym::No).unwrap(); // np may be zero
 
         // spectral derivative matrices
         let d1r = self.interp_x.get_dd1().unwrap();
diff --git a/russell_pde/src/spc_map_2d.rs b/russell_pde/src/spc_map_2d.rs
index 23ad109..47d9675 100644
--- a/russell_pde/src/spc_map_2d.rs
+++ b/russell_pde/src/spc_map_2d.rs
@@ -387,7 +387,9 @@ impl<'a> SpcMap2d<'a> {
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
         // initialize the right-hand side
-        kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check).unwrap(); // f̄ -= Ǩ ǎ
+        if self.equations.np() > 0 {
+            kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
+        }
 
         // solve the linear system
         let mut solver = LinSolver::new(self.genie)?;
@@ -574,7 +576,7 @@ impl<'a> SpcMap2d<'a> {
         let neq = self.equations.neq();
         let nnz_wcs = nr * nr * ns * ns; // worst-case scenario
         let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, np, nnz_wcs, Sym::No).unwrap();
+        let mut kk_check = CooMatrix::new(nu, usize::max(np, 1), nnz_wcs, Sym::No).unwrap(); // np may be zero
 
         // add all terms to the coefficient matrix
         for m in self.equations.unknown().clone() {
-- 
2.43.0


From bfead30cbb00ad64968974ea21c99010c087f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:37 +0000
Subject: [PATCH 58/72] fix: return the prescribed values when there are no
 unknowns

The system partitioning strategy panicked when essential conditions cover all
nodes of a small grid.
---
 russell_pde/src/fdm_1d.rs     | 12 +++++++++---
 russell_pde/src/fdm_2d.rs     | 12 +++++++++---
 russell_pde/src/spc_1d.rs     | 10 ++++++++--
 russell_pde/src/spc_2d.rs     | 10 ++++++++--
 russell_pde/src/spc_map_2d.rs | 10 ++++++++--
 5 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/russell_pde/src/fdm_1d.rs b/russell_pde/src/fdm_1d.rs
index 4eee95d..a30510e 100644
--- a/russell_pde/src/fdm_1d.rs
+++ b/russell_pde/src/fdm_1d.rs
@@ -372,6 +372,11 @@ impl<'a> Fdm1d<'a> {
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // update the right-hand side with the prescribed values
         if let Some(kk_check) = kk_check {
             kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
@@ -540,14 +545,15 @@ impl<'a> Fdm1d<'a> {
         let nu = self.equations.nu();
         let np = self.equations.np();
         let band = if sym_kk_bar.triangular() { 2 } else { 3 };
-        let nnz_kk_bar = band * nu + extra_nnz;
-        let mut kk_bar = CooMatrix::new(nu, nu, nnz_kk_bar, sym_kk_bar).unwrap();
+        let nnz_kk_bar = usize::max(band * nu + extra_nnz, 1);
+        let dim = usize::max(nu, 1); // nu may be zero
+        let mut kk_bar = CooMatrix::new(dim, dim, nnz_kk_bar, sym_kk_bar).unwrap();
         let mut kk_check = if np == 0 {
             // russell_sparse requires at least a 1x1 matrix with 1 non-zero entry
             CooMatrix::new(1, 1, 1, Sym::No).unwrap()
         } else {
             let nnz_kk_check = 2 * np; // 2 is the max number of neighbors (worst case)
-            CooMatrix::new(nu, np, nnz_kk_check, Sym::No).unwrap()
+            CooMatrix::new(dim, np, nnz_kk_check, Sym::No).unwrap()
         };
         self.equations.unknown().iter().for_each(|&m| {
             let iu = self.equations.iu(m);
diff --git a/russell_pde/src/fdm_2d.rs b/russell_pde/src/fdm_2d.rs
index dc06153..5e364d3 100644
--- a/russell_pde/src/fdm_2d.rs
+++ b/russell_pde/src/fdm_2d.rs
@@ -448,6 +448,11 @@ impl<'a> Fdm2d<'a> {
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0, sym_kk_bar);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // initialize the right-hand side
         if let Some(kk_check) = kk_check {
             kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
@@ -607,14 +612,15 @@ impl<'a> Fdm2d<'a> {
         let nu = self.equations.nu();
         let np = self.equations.np();
         let band = if sym_kk_bar.triangular() { 3 } else { 5 };
-        let nnz_kk_bar = band * nu + extra_nnz;
-        let mut kk_bar = CooMatrix::new(nu, nu, nnz_kk_bar, sym_kk_bar).unwrap();
+        let nnz_kk_bar = usize::max(band * nu + extra_nnz, 1);
+        let dim = usize::max(nu, 1); // nu may be zero
+        let mut kk_bar = CooMatrix::new(dim, dim, nnz_kk_bar, sym_kk_bar).unwrap();
         let mut kk_check = if np == 0 {
             // russell_sparse requires at least a 1x1 matrix with 1 non-zero entry
             CooMatrix::new(1, 1, 1, Sym::No).unwrap()
         } else {
             let nnz_kk_check = 4 * np; // 4 is the max number of neighbors (worst case)
-            CooMatrix::new(nu, np, nnz_kk_check, Sym::No).unwrap()
+            CooMatrix::new(dim, np, nnz_kk_check, Sym::No).unwrap()
         };
         self.equations.unknown().iter().for_each(|&m| {
             let iu = self.equations.iu(m);
diff --git a/russell_pde/src/spc_1d.rs b/russell_pde/src/spc_1d.rs
index 3ab2cfc..cf66690 100644
--- a/russell_pde/src/spc_1d.rs
+++ b/russell_pde/src/spc_1d.rs
@@ -283,6 +283,11 @@ impl<'a> Spc1d<'a> {
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // initialize the right-hand side
         if self.equations.np() > 0 {
             kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
@@ -469,8 +474,9 @@ impl<'a> Spc1d<'a> {
         let np = self.equations.np();
         let nx = self.grid.nx();
         let nnz_wcs = nx * nx; // worst-case scenario
-        let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, usize::max(np, 1), nnz_wcs, Sym::No).unwrap(); // np may be zero
+        let dim = usize::max(nu, 1); // nu may be zero
+        let mut kk_bar = CooMatrix::new(dim, dim, nnz_wcs + extra_nnz, Sym::No).unwrap();
+        let mut kk_check = CooMatrix::new(dim, usize::max(np, 1), nnz_wcs, Sym::No).unwrap(); // np may be zero
 
         // spectral derivative matrices
         let d1r = self.interp.get_dd1().unwrap();
diff --git a/russell_pde/src/spc_2d.rs b/russell_pde/src/spc_2d.rs
index a87fd12..23ae74b 100644
--- a/russell_pde/src/spc_2d.rs
+++ b/russell_pde/src/spc_2d.rs
@@ -334,6 +334,11 @@ impl<'a> Spc2d<'a> {
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // initialize the right-hand side
         if self.equations.np() > 0 {
             kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
@@ -538,8 +543,9 @@ impl<'a> Spc2d<'a> {
         let ny = self.grid.ny();
         let neq = self.equations.neq();
         let nnz_wcs = nx * nx * ny * ny; // worst-case scenario
-        let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, usize::max(np, 1), nnz_wcs, Sym::No).unwrap(); // np may be zero
+        let dim = usize::max(nu, 1); // nu may be zero
+        let mut kk_bar = CooMatrix::new(dim, dim, nnz_wcs + extra_nnz, Sym::No).unwrap();
+        let mut kk_check = CooMatrix::new(dim, usize::max(np, 1), nnz_wcs, Sym::No).unwrap(); // np may be zero
 
         // spectral derivative matrices
         let d1r = self.interp_x.get_dd1().unwrap();
diff --git a/russell_pde/src/spc_map_2d.rs b/russell_pde/src/spc_map_2d.rs
index 47d9675..20b7e5b 100644
--- a/russell_pde/src/spc_map_2d.rs
+++ b/russell_pde/src/spc_map_2d.rs
@@ -386,6 +386,11 @@ impl<'a> SpcMap2d<'a> {
         let (kk_bar, kk_check) = self.get_matrices_sps(alpha, 0);
         let (mut a_bar, a_check, mut f_bar) = self.get_vectors_sps(source);
 
+        // handle the case where all values are prescribed
+        if self.equations.nu() == 0 {
+            return Ok(self.get_joined_vector_sps(&a_bar, &a_check));
+        }
+
         // initialize the right-hand side
         if self.equations.np() > 0 {
             kk_check.mat_vec_mul_update(&mut f_bar, -1.0, &a_check)?; // f̄ -= Ǩ ǎ
@@ -575,8 +580,9 @@ impl<'a> SpcMap2d<'a> {
         let ns = self.grid.ny();
         let neq = self.equations.neq();
         let nnz_wcs = nr * nr * ns * ns; // worst-case scenario
-        let mut kk_bar = CooMatrix::new(nu, nu, nnz_wcs + extra_nnz, Sym::No).unwrap();
-        let mut kk_check = CooMatrix::new(nu, usize::max(np, 1), nnz_wcs, Sym::No).unwrap(); // np may be zero
+        let dim = usize::max(nu, 1); // nu may be zero
+        let mut kk_bar = CooMatrix::new(dim, dim, nnz_wcs + extra_nnz, Sym::No).unwrap();
+        let mut kk_check = CooMatrix::new(dim, usize::max(np, 1), nnz_wcs, Sym::No).unwrap(); // np may be zero
 
         // add all terms to the coefficient matrix
         for m in self.equations.unknown().clone() {
-- 
2.43.0


From 61547bc9712f20e20bbb345e673dfbe92abb8f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:50:45 +0000
Subject: [PATCH 59/72] fix: consider both derivatives in the boundary flux of
 mapped domains

The natural boundary condition only used the derivative across the side. This
is wrong if the coordinate lines are not perpendicular to the side.
---
 russell_pde/src/spc_map_2d.rs | 62 +++++++++++++----------------------
 1 file changed, 22 insertions(+), 40 deletions(-)

diff --git a/russell_pde/src/spc_map_2d.rs b/russell_pde/src/spc_map_2d.rs
index 20b7e5b..544be5f 100644
--- a/russell_pde/src/spc_map_2d.rs
+++ b/russell_pde/src/spc_map_2d.rs
@@ -599,35 +599,19 @@ impl<'a> SpcMap2d<'a> {
                     let mut val = 0.0;
                     if i == 0 {
                         // Xmin
-                        if j == l {
-                            self.calc_unit_normal(Side::Xmin);
-                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
-                            val += self.mk * self.d1r(i, k) * alpha;
-                        }
+                        val += self.flux_coefficient(Side::Xmin, i, j, k, l);
                     }
                     if i == nr - 1 {
                         // Xmax
-                        if j == l {
-                            self.calc_unit_normal(Side::Xmax);
-                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
-                            val += self.mk * self.d1r(i, k) * alpha;
-                        }
+                        val += self.flux_coefficient(Side::Xmax, i, j, k, l);
                     }
                     if j == 0 {
                         // Ymin
-                        if i == k {
-                            self.calc_unit_normal(Side::Ymin);
-                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
-                            val += self.mk * self.d1s(j, l) * beta;
-                        }
+                        val += self.flux_coefficient(Side::Ymin, i, j, k, l);
                     }
                     if j == ns - 1 {
                         // Ymax
-                        if i == k {
-                            self.calc_unit_normal(Side::Ymax);
-                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
-                            val += self.mk * self.d1s(j, l) * beta;
-                        }
+                        val += self.flux_coefficient(Side::Ymax, i, j, k, l);
                     }
                     self.put_val(&mut kk_bar, &mut kk_check, m, n, val);
                 }
@@ -699,35 +683,19 @@ impl<'a> SpcMap2d<'a> {
                     let mut val = 0.0;
                     if i == 0 {
                         // Xmin
-                        if j == l {
-                            self.calc_unit_normal(Side::Xmin);
-                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
-                            val += self.mk * self.d1r(i, k) * alpha;
-                        }
+                        val += self.flux_coefficient(Side::Xmin, i, j, k, l);
                     }
                     if i == nr - 1 {
                         // Xmax
-                        if j == l {
-                            self.calc_unit_normal(Side::Xmax);
-                            let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
-                            val += self.mk * self.d1r(i, k) * alpha;
-                        }
+                        val += self.flux_coefficient(Side::Xmax, i, j, k, l);
                     }
                     if j == 0 {
                         // Ymin
-                        if i == k {
-                            self.calc_unit_normal(Side::Ymin);
-                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
-                            val += self.mk * self.d1s(j, l) * beta;
-                        }
+                        val += self.flux_coefficient(Side::Ymin, i, j, k, l);
                     }
                     if j == ns - 1 {
                         // Ymax
-                        if i == k {
-                            self.calc_unit_normal(Side::Ymax);
-                            let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
-                            val += self.mk * self.d1s(j, l) * beta;
-                        }
+                        val += self.flux_coefficient(Side::Ymax, i, j, k, l);
                     }
                     mm.put(m, n, val).unwrap();
                 }
@@ -961,6 +929,20 @@ impl<'a> SpcMap2d<'a> {
         self.un[1] /= norm_u;
     }
 
+    /// Calculates the coefficient of the value at (k,l) in the boundary flux wₙ = -k ∇ϕ · n at (i,j)
+    ///
+    /// **Note**: The contravariant vectors are not orthogonal in general;
+    /// thus the derivatives along r and s both contribute to the flux.
+    fn flux_coefficient(&mut self, side: Side, i: usize, j: usize, k: usize, l: usize) -> f64 {
+        if i != k && j != l {
+            return 0.0;
+        }
+        self.calc_unit_normal(side);
+        let alpha = vec_inner(&self.un, &self.metrics.g_ctr[0]);
+        let beta = vec_inner(&self.un, &self.metrics.g_ctr[1]);
+        self.mk * (self.d1r(i, k) * delta(j, l) * alpha + delta(i, k) * self.d1s(j, l) * beta)
+    }
+
     /// Puts the value into the correct position of the coefficient matrix
     fn put_val(&mut self, kk_bar: &mut CooMatrix, kk_check: &mut CooMatrix, m: usize, n: usize, val: f64) {
         // unknown row
-- 
2.43.0


From df27d6a75d4ad131b538ac6948764d845b90f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:20 +0000
Subject: [PATCH 60/72] fix: custom linear solver parameters made the second
 factorization fail in the continuation

---
 russell_nonlin/src/solver_arclength.rs | 20 ++++++++++++++++++--
 russell_nonlin/src/solver_natural.rs   | 12 +++++++++++-
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/russell_nonlin/src/solver_arclength.rs b/russell_nonlin/src/solver_arclength.rs
index 36b1d6d..1c85ae0 100644
--- a/russell_nonlin/src/solver_arclength.rs
+++ b/russell_nonlin/src/solver_arclength.rs
@@ -180,6 +180,9 @@ pub struct SolverArclength<'a, A> {
     /// Linear solver
     ls: LinSolver<'a>,
 
+    /// Indicates that the linear solver parameters have already been given (first factorization)
+    lin_sol_params_given: bool,
+
     /// Auxiliary augmented vector (u, λ) or (δu, δλ)
     ///
     /// The left-hand side vector of the linear problem A x = b
@@ -265,6 +268,7 @@ impl<'a, A> SolverArclength<'a, A> {
             duds_prev: Vector::new(ndim),
             dlds_prev: 0.0,
             ls: LinSolver::new(genie)?,
+            lin_sol_params_given: false,
             x: Vector::new(ndim + 1),
             ggu,
             mdu,
@@ -302,7 +306,13 @@ impl<'a, A> SolverArclength<'a, A> {
         // factorize Gu matrix
         work.stats.sw_factor.reset();
         work.stats.n_factor += 1;
-        self.ls.actual.factorize(&mut self.ggu, self.config.lin_sol_config)?;
+        let params = if self.lin_sol_params_given {
+            None // subsequent factorizations must not change the parameters
+        } else {
+            self.config.lin_sol_config
+        };
+        self.lin_sol_params_given = true;
+        self.ls.actual.factorize(&mut self.ggu, params)?;
         work.stats.stop_sw_factor();
         Ok(())
     }
@@ -383,7 +393,13 @@ impl<'a, A> SolverArclength<'a, A> {
         // factorize matrix A
         work.stats.sw_factor.reset();
         work.stats.n_factor += 1;
-        self.ls.actual.factorize(&mut self.aa, self.config.lin_sol_config)?;
+        let params = if self.lin_sol_params_given {
+            None // subsequent factorizations must not change the parameters
+        } else {
+            self.config.lin_sol_config
+        };
+        self.lin_sol_params_given = true;
+        self.ls.actual.factorize(&mut self.aa, params)?;
         work.stats.stop_sw_factor();
         Ok(())
     }
diff --git a/russell_nonlin/src/solver_natural.rs b/russell_nonlin/src/solver_natural.rs
index 11c3819..bec3af1 100644
--- a/russell_nonlin/src/solver_natural.rs
+++ b/russell_nonlin/src/solver_natural.rs
@@ -40,6 +40,9 @@ pub struct SolverNatural<'a, A> {
     /// Linear solver
     ls: LinSolver<'a>,
 
+    /// Indicates that the linear solver parameters have already been given (first factorization)
+    lin_sol_params_given: bool,
+
     /// Previous u variable for the curvature estimation
     u_prev: Vector,
 }
@@ -74,6 +77,7 @@ impl<'a, A> SolverNatural<'a, A> {
             ggu,
             mdu: Vector::new(ndim),
             ls: LinSolver::new(genie)?,
+            lin_sol_params_given: false,
             u_prev: Vector::new(ndim),
         })
     }
@@ -103,7 +107,13 @@ impl<'a, A> SolverNatural<'a, A> {
         // factorize Gu matrix
         work.stats.sw_factor.reset();
         work.stats.n_factor += 1;
-        self.ls.actual.factorize(&mut self.ggu, self.config.lin_sol_config)?;
+        let params = if self.lin_sol_params_given {
+            None // subsequent factorizations must not change the parameters
+        } else {
+            self.config.lin_sol_config
+        };
+        self.lin_sol_params_given = true;
+        self.ls.actual.factorize(&mut self.ggu, params)?;
         work.stats.stop_sw_factor();
         Ok(())
     }
-- 
2.43.0


From b62da4f87dfa5b341bd937ff807c2cd9c8728bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:20 +0000
Subject: [PATCH 61/72] fix: rejected steps made the continuation miss the
 requested number of steps

---
 russell_nonlin/src/solver.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index 1415433..ae65cf3 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -205,13 +205,13 @@ impl<'a, A> Solver<'a, A> {
 
                 // exit point
                 self.work.stats.stop_sw_step();
-                if stop.now(i, u, *l) {
+                if stop.now(self.work.stats.n_accepted - 1, u, *l) {
                     break;
                 }
             }
         } else {
             // variable stepsize
-            for i in 0..self.config.n_step_max {
+            for _ in 0..self.config.n_step_max {
                 // log
                 self.work.stats.sw_step.reset();
                 self.work.log.step(self.work.h, *l, false);
@@ -303,7 +303,7 @@ impl<'a, A> Solver<'a, A> {
 
                     // exit point
                     self.work.stats.stop_sw_step();
-                    if stop.now(i, u, *l) {
+                    if stop.now(self.work.stats.n_accepted - 1, u, *l) {
                         break;
                     }
                 }
-- 
2.43.0


From 02697930f49f4f3d65c55a00528a6875fc65cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:20 +0000
Subject: [PATCH 62/72] fix: check the Jacobian at the given lambda

---
 russell_nonlin/src/system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_nonlin/src/system.rs b/russell_nonlin/src/system.rs
index f21adc2..c925b57 100644
--- a/russell_nonlin/src/system.rs
+++ b/russell_nonlin/src/system.rs
@@ -262,7 +262,7 @@ impl<'a, A> System<'a, A> {
         (self.calc_jac)(&mut ggu, &mut ggl, l_at, &u_at, args).unwrap();
 
         // numerical Jacobian
-        let num = num_jacobian(self.ndim, 0.0, &u_at, 1.0, args, self.calc_gg.as_ref()).unwrap();
+        let num = num_jacobian(self.ndim, l_at, &u_at, 1.0, args, self.calc_gg.as_ref()).unwrap();
         let ana = ggu.as_dense();
 
         // check
-- 
2.43.0


From 853687df47b5f795bc8e4a86304fee563169c1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:20 +0000
Subject: [PATCH 63/72] fix: a failed secondary update at the predictor made
 the rejection panic when debugging

---
 russell_nonlin/src/solver_arclength.rs | 18 +++++++++---------
 russell_nonlin/src/solver_natural.rs   | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/russell_nonlin/src/solver_arclength.rs b/russell_nonlin/src/solver_arclength.rs
index 1c85ae0..5086a94 100644
--- a/russell_nonlin/src/solver_arclength.rs
+++ b/russell_nonlin/src/solver_arclength.rs
@@ -748,15 +748,6 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
             }
         }
 
-        // predictor: update secondary variables (e.g., local state)
-        if let Some(f) = self.system.update_secondary_state.as_ref() {
-            let do_backup = true;
-            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
-            if status.failure() {
-                return Ok(status);
-            }
-        }
-
         // record the predictor for debugging
         if self.config.debug_predictor {
             if work.predictor_values_debug.is_none() {
@@ -770,6 +761,15 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
             }
         }
 
+        // predictor: update secondary variables (e.g., local state)
+        if let Some(f) = self.system.update_secondary_state.as_ref() {
+            let do_backup = true;
+            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
+            if status.failure() {
+                return Ok(status);
+            }
+        }
+
         // iteration loop
         let mut status = Status::Success;
         work.n_iteration = 0;
diff --git a/russell_nonlin/src/solver_natural.rs b/russell_nonlin/src/solver_natural.rs
index bec3af1..6999804 100644
--- a/russell_nonlin/src/solver_natural.rs
+++ b/russell_nonlin/src/solver_natural.rs
@@ -296,15 +296,6 @@ impl<'a, A> SolverTrait<A> for SolverNatural<'a, A> {
             vec_copy(&mut work.u, &u).unwrap();
         }
 
-        // predictor: update secondary variables (e.g., local state)
-        if let Some(f) = self.system.update_secondary_state.as_ref() {
-            let do_backup = true;
-            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
-            if status.failure() {
-                return Ok(status);
-            }
-        }
-
         // record the predictor for debugging
         if self.config.debug_predictor {
             if work.predictor_values_debug.is_none() {
@@ -318,6 +309,15 @@ impl<'a, A> SolverTrait<A> for SolverNatural<'a, A> {
             }
         }
 
+        // predictor: update secondary variables (e.g., local state)
+        if let Some(f) = self.system.update_secondary_state.as_ref() {
+            let do_backup = true;
+            let status = Status::from_sup(f(do_backup, &u, &work.u, l, work.l, args));
+            if status.failure() {
+                return Ok(status);
+            }
+        }
+
         // iteration loop
         let mut status = Status::Success;
         work.n_iteration = 0;
-- 
2.43.0


From 7b47c9954f0f8380d79e9997a05a8730bb01d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:46 +0000
Subject: [PATCH 64/72] fix: NaN in some components of the residual could be
 taken as convergence

---
 russell_nonlin/src/iteration_error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_nonlin/src/iteration_error.rs b/russell_nonlin/src/iteration_error.rs
index bd190a5..0bd75aa 100644
--- a/russell_nonlin/src/iteration_error.rs
+++ b/russell_nonlin/src/iteration_error.rs
@@ -134,7 +134,7 @@ impl IterationError {
         self.residual_max = f64::max(vec_norm(gg, Norm::Max), f64::abs(nn));
 
         // check for NaN or Inf
-        if !self.residual_max.is_finite() {
+        if !self.residual_max.is_finite() || gg.as_data().iter().any(|v| !v.is_finite()) {
             return true;
         }
 
@@ -175,7 +175,7 @@ impl IterationError {
         self.delta_max = vec_norm(x, Norm::Max);
 
         // check for NaN or Inf
-        if !self.delta_max.is_finite() {
+        if !self.delta_max.is_finite() || x.as_data().iter().any(|v| !v.is_finite()) {
             return true;
         }
 
-- 
2.43.0


From 4eea174c167067716a7d8ab8de3e445f1297bcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:46 +0000
Subject: [PATCH 65/72] fix: the recorded predictor values included those of
 previous runs

---
 russell_nonlin/src/workspace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/russell_nonlin/src/workspace.rs b/russell_nonlin/src/workspace.rs
index 13c953a..b28c8a0 100644
--- a/russell_nonlin/src/workspace.rs
+++ b/russell_nonlin/src/workspace.rs
@@ -130,5 +130,6 @@ impl Workspace {
         self.follows_rejection = false;
         self.target_reached = false;
         self.stop_gracefully = false;
+        self.predictor_values_debug = None;
     }
 }
-- 
2.43.0


From 5ab01767a9c0b60494e2ba522c9261e5944233d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:46 +0000
Subject: [PATCH 66/72] fix: the precise stop replaced the status of failed
 steps

---
 russell_nonlin/src/solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index ae65cf3..b0c2bfd 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -221,7 +221,7 @@ impl<'a, A> Solver<'a, A> {
                 status = self.actual.step(&mut self.work, u, *l, stop, args)?;
 
                 // redo the step if it violates the stop u-component criterion
-                if self.config.enable_precise_stop_u_comp {
+                if self.config.enable_precise_stop_u_comp && status.success() {
                     if let Some((i, u1i, is_min)) = stop.u_comp() {
                         if (is_min && self.work.u[i] < u1i - CONFIG_H_MIN)
                             || (!is_min && self.work.u[i] > u1i + CONFIG_H_MIN)
-- 
2.43.0


From 74299b6fb7b99f5df85dd53a37352c42e127befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:46 +0000
Subject: [PATCH 67/72] fix: a failed attempt to target lambda changed the
 constraint of the next steps

---
 russell_nonlin/src/solver_arclength.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/russell_nonlin/src/solver_arclength.rs b/russell_nonlin/src/solver_arclength.rs
index 5086a94..316a4b0 100644
--- a/russell_nonlin/src/solver_arclength.rs
+++ b/russell_nonlin/src/solver_arclength.rs
@@ -714,6 +714,9 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
         // start the recording of iteration errors
         work.stats.record_iterations_residuals_start();
 
+        // set normal operation (a previous attempt to target lambda may have failed)
+        self.theta = 1.0;
+
         // predictor: λ₁ = λ₀ + (2 - θ) σ · dλds₀
         work.l = l + (2.0 - self.theta) * work.h * work.dlds;
 
-- 
2.43.0


From 204e36fbce80668476c0ffac3b3c83e6105b8add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:08 +0000
Subject: [PATCH 68/72] fix: steps retried after missing the stop component
 used the wrong tangent vector

---
 russell_nonlin/src/solver_arclength.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/russell_nonlin/src/solver_arclength.rs b/russell_nonlin/src/solver_arclength.rs
index 316a4b0..d83b163 100644
--- a/russell_nonlin/src/solver_arclength.rs
+++ b/russell_nonlin/src/solver_arclength.rs
@@ -177,6 +177,9 @@ pub struct SolverArclength<'a, A> {
     // Previous dλ/ds for the stepsize control
     dlds_prev: f64,
 
+    /// Indicates that the tangent vector has been updated in the last step
+    tangent_updated: bool,
+
     /// Linear solver
     ls: LinSolver<'a>,
 
@@ -267,6 +270,7 @@ impl<'a, A> SolverArclength<'a, A> {
             ggl: Vector::new(ndim),
             duds_prev: Vector::new(ndim),
             dlds_prev: 0.0,
+            tangent_updated: false,
             ls: LinSolver::new(genie)?,
             lin_sol_params_given: false,
             x: Vector::new(ndim + 1),
@@ -716,6 +720,7 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
 
         // set normal operation (a previous attempt to target lambda may have failed)
         self.theta = 1.0;
+        self.tangent_updated = false;
 
         // predictor: λ₁ = λ₀ + (2 - θ) σ · dλds₀
         work.l = l + (2.0 - self.theta) * work.h * work.dlds;
@@ -810,6 +815,7 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
         // update the tangent vector
         if status.success() {
             self.update_tangent_vector(work, args)?;
+            self.tangent_updated = true;
         }
 
         // done
@@ -901,6 +907,12 @@ impl<'a, A> SolverTrait<A> for SolverArclength<'a, A> {
             }
         }
 
+        // restore the tangent vector if it has been updated in the rejected step
+        if self.tangent_updated {
+            vec_copy(&mut work.duds, &self.duds_prev).unwrap();
+            work.dlds = self.dlds_prev;
+        }
+
         // remove predictor values
         if self.config.debug_predictor {
             let predictor_values = work.predictor_values_debug.as_mut().unwrap();
-- 
2.43.0


From ea1651352ba4a12e0403eedc6ac3e726a4838028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:32 +0000
Subject: [PATCH 69/72] fix: step control gave NaN after steps without change
 in the tangent vector

---
 russell_nonlin/src/solver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/russell_nonlin/src/solver.rs b/russell_nonlin/src/solver.rs
index b0c2bfd..97227a8 100644
--- a/russell_nonlin/src/solver.rs
+++ b/russell_nonlin/src/solver.rs
@@ -390,11 +390,11 @@ impl<'a, A> Solver<'a, A> {
                 f64::powf(p, KP) * f64::powf(i, KI) * f64::powf(d, KD)
             } else {
                 let mut rho = f64::powf(1.0 / rdiff, self.config.tg_control_beta1);
-                if self.work.stats.n_accepted > 1 {
+                if self.work.stats.n_accepted > 1 && self.rerr_prev > 0.0 {
                     rho *= f64::powf(1.0 / self.rerr_prev, self.config.tg_control_beta2);
                     rho *= f64::powf(self.work.h / self.h_prev, -self.config.tg_control_alpha2);
                 }
-                if self.work.stats.n_accepted > 2 {
+                if self.work.stats.n_accepted > 2 && self.rerr_anc > 0.0 {
                     rho *= f64::powf(1.0 / self.rerr_anc, self.config.tg_control_beta3);
                     rho *= f64::powf(self.h_prev / self.h_anc, -self.config.tg_control_alpha3);
                 }
-- 
2.43.0


From 3cd2b1d6824cdf7e818d757d98c217604b95c19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:00:44 +0000
Subject: [PATCH 70/72] fix: apply the step multiplier limits of Radau5 to the
 multiplier

Radau5 used m_min and m_max as limits of the inverse of the multiplier. Setting m_max did therefore not limit the growth of the step size. The default values are changed accordingly, so the default behaviour is the same as before.
---
 russell_ode/src/params.rs |  2 +-
 russell_ode/src/radau5.rs | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/russell_ode/src/params.rs b/russell_ode/src/params.rs
index 77e1eef..8f7bc73 100644
--- a/russell_ode/src/params.rs
+++ b/russell_ode/src/params.rs
@@ -283,7 +283,7 @@ impl ParamsStep {
     /// Allocates a new instance
     pub(crate) fn new(method: Method) -> Self {
         let (m_min, m_max, m_safety, rel_error_prev_min) = match method {
-            Method::Radau5 => (0.125, 5.0, 0.9, 1e-2), // lines (534, 529, 477, 1018) of radau5.f
+            Method::Radau5 => (0.2, 8.0, 0.9, 1e-2),   // lines (529, 534, 477, 1018) of radau5.f
             Method::DoPri5 => (0.2, 10.0, 0.9, 1e-4),  // lines (276, 281, 265, 471) of dopri5.f
             Method::DoPri8 => (0.333, 6.0, 0.9, 1e-4), // lines (276, 281, 265, 661) of dop853.f
             _ => (0.2, 10.0, 0.9, 1e-4),
diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 5c27e82..75a820a 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -630,8 +630,8 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
         let den = (newt + 2 * self.params.newton.n_iteration_max) as f64;
         let fac = f64::min(self.params.step.m_safety, num / den);
         let div = f64::max(
-            self.params.step.m_min,
-            f64::min(self.params.step.m_max, f64::powf(work.rel_error, 0.25) / fac),
+            1.0 / self.params.step.m_max,
+            f64::min(1.0 / self.params.step.m_min, f64::powf(work.rel_error, 0.25) / fac),
         );
         let mut h_new = h / div;
 
@@ -641,7 +641,7 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
                 let r2 = work.rel_error * work.rel_error;
                 let rp = work.rel_error_prev;
                 let fac = (work.h_prev / h) * f64::powf(r2 / rp, 0.25) / self.params.step.m_safety;
-                let fac = f64::max(self.params.step.m_min, f64::min(self.params.step.m_max, fac));
+                let fac = f64::max(1.0 / self.params.step.m_max, f64::min(1.0 / self.params.step.m_min, fac));
                 let div = f64::max(div, fac);
                 h_new = h / div;
             }
@@ -676,8 +676,8 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
         let den = (newt + 2 * self.params.newton.n_iteration_max) as f64;
         let fac = f64::min(self.params.step.m_safety, num / den);
         let div = f64::max(
-            self.params.step.m_min,
-            f64::min(self.params.step.m_max, f64::powf(work.rel_error, 0.25) / fac),
+            1.0 / self.params.step.m_max,
+            f64::min(1.0 / self.params.step.m_min, f64::powf(work.rel_error, 0.25) / fac),
         );
         work.h_new = h / div;
     }
-- 
2.43.0


From 34f509d7c6459a7c2543ec09d8b573f007fc5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:53 +0000
Subject: [PATCH 71/72] fix: accept a solution reached with the last allowed
 step

The variable stepping loop of the ODE solver reported a failure if x1 was reached with step number n_step_max and the step was not marked as the last one.
---
 russell_ode/src/ode_solver.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/russell_ode/src/ode_solver.rs b/russell_ode/src/ode_solver.rs
index 29eb94d..d1893d2 100644
--- a/russell_ode/src/ode_solver.rs
+++ b/russell_ode/src/ode_solver.rs
@@ -372,6 +372,11 @@ impl<'a, A> OdeSolver<'a, A> {
             }
         }
 
+        // the last allowed step may have reached x1
+        if x1 - x <= 10.0 * f64::EPSILON {
+            success = true;
+        }
+
         // last output (the dense output cannot be completed if x1 was not reached)
         if let Some(out) = output.as_deref_mut().filter(|out| success || !out.with_dense_output()) {
             out.last(&self.work, h, x, y, args)?;
-- 
2.43.0


From 0b45f455d336aa37081e731e4d71c0c4a7ed3cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:51:40 +0000
Subject: [PATCH 72/72] fix: updated parameters of implicit methods ignored the
 Jacobian kind and linear solver settings

---
 russell_ode/src/euler_backward.rs | 3 ++-
 russell_ode/src/radau5.rs         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/russell_ode/src/euler_backward.rs b/russell_ode/src/euler_backward.rs
index cd9b4d3..45eedec 100644
--- a/russell_ode/src/euler_backward.rs
+++ b/russell_ode/src/euler_backward.rs
@@ -178,7 +178,8 @@ impl<'a, A> OdeSolverTrait<A> for EulerBackward<'a, A> {
 
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
-        self.params = params;
+        // the matrix and linear solver depend on the parameters
+        *self = EulerBackward::new(params, self.system.clone());
     }
 }
 
diff --git a/russell_ode/src/radau5.rs b/russell_ode/src/radau5.rs
index 75a820a..cd072a2 100644
--- a/russell_ode/src/radau5.rs
+++ b/russell_ode/src/radau5.rs
@@ -694,7 +694,8 @@ impl<'a, A> OdeSolverTrait<A> for Radau5<'a, A> {
 
     /// Update the parameters (e.g., for sensitive analyses)
     fn update_params(&mut self, params: Params) {
-        self.params = params;
+        // the matrices and linear solvers depend on the parameters
+        *self = Radau5::new(params, self.system.clone());
     }
 }
 
-- 
2.43.0

