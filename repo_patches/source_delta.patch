From fa08388d52a3775e1f01eb826970bf4150f8d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:46 +0000
Subject: [PATCH 1/8] fix: flip the left singular vector instead of zeroing it
 when making singular values non-negative

---
 src/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svd.rs b/src/svd.rs
index e2f6105..caab52a 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -215,7 +215,7 @@ fn svd<A: NdFloat, S: DataMut<Elem = A>>(
         if val.is_sign_negative() {
             diag[i] = -val;
             if let Some(u) = &mut u {
-                u.column_mut(i).mul_assign(-A::zero());
+                u.column_mut(i).mul_assign(-A::one());
             }
         }
     }
-- 
2.43.0


From ac87b1297ede895cb21e1120aac8a3e00aab6b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:46 +0000
Subject: [PATCH 2/8] fix: project with the whole inverse Gram matrix when
 applying LOBPCG constraints

---
 src/lobpcg/algorithm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 9bdce9e..a6d9689 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -67,9 +67,14 @@ fn apply_constraints<A: NdFloat>(
 ) {
     let gram_yv = y.t().dot(&v);
 
+    // `cholesky_yy` is the factor L of `y^T y = L L^T`, both triangular systems have to be solved
     let u = cholesky_yy
         .solve_triangular_into(gram_yv, UPLO::Lower)
         .unwrap();
+    let u = cholesky_yy
+        .t()
+        .solve_triangular_into(u, UPLO::Upper)
+        .unwrap();
 
     // performs `v = -1 y . u + 1 v`, therefore `v -= y.u`
     ndarray::linalg::general_mat_mul(-A::one(), &y, &u, A::one(), &mut v);
-- 
2.43.0


From 389660a61e26e42324c1afaa3a0473bca2274ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:46 +0000
Subject: [PATCH 3/8] fix: return an empty solution instead of panicking for
 zero requested singular values

---
 src/lobpcg/svd.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lobpcg/svd.rs b/src/lobpcg/svd.rs
index ac941af..2983c01 100644
--- a/src/lobpcg/svd.rs
+++ b/src/lobpcg/svd.rs
@@ -30,6 +30,11 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
         // numerate eigenvalues
         let mut a = self.eigvals.iter().enumerate().collect::<Vec<_>>();
 
+        // there is no largest eigenvalue in an empty solution
+        if a.is_empty() {
+            return (Array1::zeros(0), Vec::new());
+        }
+
         let (values, indices) = if self.order == Order::Largest {
             // sort by magnitude
             a.sort_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap().reverse());
-- 
2.43.0


From 036defe92f726ff1bcadf2aac02ccad9b898612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:46 +0000
Subject: [PATCH 4/8] fix: return an error instead of panicking when LOBPCG
 gets an empty initial block

---
 src/lobpcg/algorithm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index a6d9689..30ddcec 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -142,6 +142,10 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
             None,
         ));
     }
+    // there is nothing to iterate on without an initial approximation
+    if size_x == 0 {
+        return Err((LinalgError::EmptyMatrix, None));
+    }
 
     /*let size_y = match y {
         Some(ref y) => y.ncols(),
-- 
2.43.0


From b3e92a0a9e841fbb5b35f9131f72b51e9cceb4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:46 +0000
Subject: [PATCH 5/8] fix: reject NaN pivots in the Cholesky decomposition

---
 src/cholesky.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cholesky.rs b/src/cholesky.rs
index f98091b..26b9067 100644
--- a/src/cholesky.rs
+++ b/src/cholesky.rs
@@ -66,7 +66,8 @@ where
                 d = *self.at((j, j)) - d;
             }
 
-            if d <= A::zero() {
+            // also rejects NaN, which compares false with everything
+            if d.is_nan() || d <= A::zero() {
                 return Err(LinalgError::NotPositiveDefinite);
             }
 
-- 
2.43.0


From 62dd5d34543c8e64ca0647564a884bc48d765ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 6/8] fix: eigh rotates the vectors of a nearly diagonal 2x2
 block together with its values

compute_2x2_eigvals returns the larger value first, so the two values can be
exchanged even when the off-diagonal entry is below machine epsilon (but not
negligible against the diagonal). The rotation was then skipped and the
eigenvectors were paired with the wrong values.
---
 src/eigh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index d99f0ea..8d386f6 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -114,7 +114,7 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
             diag[start + 1] = eigvals.1;
 
             if let (Some(q), Some((rot, _))) =
-                (&mut q_mat, GivensRotation::try_new(basis.0, basis.1, eps))
+                (&mut q_mat, GivensRotation::try_new(basis.0, basis.1, A::zero()))
             {
                 rot.rotate_rows(&mut q.slice_mut(s![.., start..start + 2]))
                     .unwrap();
-- 
2.43.0


From 5ef835416901dd0cb1f1b64ad03b3b939f14354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 7/8] fix: eigh 2x2 step computes its rotation without
 cancellation

The larger eigenvalue was compared with the larger diagonal entry, so for a
small off-diagonal entry the rotation was dominated by rounding errors
(residuals up to sqrt(epsilon)).
---
 src/eigh.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index 8d386f6..0fb8904 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -108,7 +108,13 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
                 diag[start + 1],
             )
             .unwrap(); // XXX not sure when this unwrap panics
-            let basis = (eigvals.0 - diag[start + 1], off_diag[start]);
+            // eigvals.0 is the larger eigenvalue: subtract the smaller diagonal entry from it, the
+            // difference to the larger one would cancel when the off-diagonal entry is small.
+            let basis = if diag[start] >= diag[start + 1] {
+                (eigvals.0 - diag[start + 1], off_diag[start])
+            } else {
+                (off_diag[start], eigvals.0 - diag[start])
+            };
 
             diag[start] = eigvals.0;
             diag[start + 1] = eigvals.1;
-- 
2.43.0


From fd95110d8bce6890f673fd2393ee6702e8523962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 8/8] fix: SVD 2x2 step computes its rotations without
 cancellation

For |m11| < |m22| and small m12 the difference v1 * v1 - m11 * m11 cancels and
the rotation is wrong, e.g. reconstruction errors of 0.1 for nearly diagonal
matrices.
---
 src/svd.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/svd.rs b/src/svd.rs
index caab52a..84d9997 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -378,10 +378,9 @@ fn compute_2x2_uptrig_svd<A: NdFloat>(
     let two = A::from(2.0).unwrap();
     let denom = (m11 + m22).hypot(m12) + (m11 - m22).hypot(m12);
 
-    // NOTE: v1 is the singular value that is the closest to m22.
-    // This prevents cancellation issues when constructing the vector `csv` below. If we chose
-    // otherwise, we would have v1 ~= m11 when m12 is small. This would cause catastrophic
-    // cancellation on `v1 * v1 - m11 * m11` below.
+    // NOTE: v1 is the smaller singular value, so the vector `csv` below is constructed from the
+    // larger of m11 and m22. Otherwise we could have v1 ~= m11 when m12 is small, which would cause
+    // catastrophic cancellation on `v1 * v1 - m11 * m11` below.
     let mut v1 = m11 * m22 * two / denom;
     let mut v2 = denom / two;
 
@@ -389,8 +388,11 @@ fn compute_2x2_uptrig_svd<A: NdFloat>(
     let mut v_t = None;
 
     if compute_v || compute_u {
-        let cv = m11 * m12;
-        let sv = v1 * v1 - m11 * m11;
+        let (cv, sv) = if m11.abs() >= m22.abs() {
+            (m11 * m12, v1 * v1 - m11 * m11)
+        } else {
+            (v1 * v1 - m22 * m22 - m12 * m12, m11 * m12)
+        };
         let (csv, sgn_v) = GivensRotation::new(cv, sv);
         v1 *= sgn_v;
         v2 *= sgn_v;
-- 
2.43.0

