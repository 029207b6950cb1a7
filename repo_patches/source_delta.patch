From d9a1871951d668abe9ef1dd3b7d0ae1312861dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 01/18] fix: sub_matrix: check the requested range against the
 matrix bounds

Only the size of the range was checked, so a column range reaching past the
last column silently picked up elements of the following row, and a range
spanning all rows or all columns was refused.
---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 29a28fe..d76cef1 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -414,7 +414,7 @@ impl<T : Copy> Matrix<T> {
   pub fn sub_matrix(&self, start_row : usize, start_col : usize, end_row : usize, end_col : usize) -> Matrix<T> {
     assert!(start_row < end_row);
     assert!(start_col < end_col);
-    assert!((end_row - start_row) < self.no_rows && (end_col - start_col) < self.cols() && start_row != end_row && start_col != end_col);
+    assert!(end_row <= self.no_rows && end_col <= self.cols());
     let rows = end_row - start_row;
     let cols = end_col - start_col;
     let elems = rows * cols;
-- 
2.43.0


From 7d60ffc68aa81473009c72a847bd3c013652967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 02/18] fix: QR get_q: start from the full identity

For matrices with more rows than columns the trailing diagonal elements were
left zero, so Q had zero columns and was not orthogonal.
---
 src/decomp/qr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 0f23479..2600106 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -154,7 +154,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
     let mut qdata : Vec<T> = vec![num::zero(); m * m];
 
     // Set the diagonal elements to 1
-    for minor in 0..cmp::min(m, n) {
+    for minor in 0..m {
       qdata[minor * m + minor] = num::one();
     }
 
-- 
2.43.0


From 5636b13dea3591e706fd7900d1d137b0409b79b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 03/18] fix: QR: store the Householder vectors scaled, as solve
 expects

solve() applies the reflections as x - <x,u>/u[k] u, which holds for Householder
vectors scaled by the column norm, but new() stored them unscaled: every
solution came out wrong.  The squared norms also under- or overflowed, turning
the factors into NaN for tiny, huge or repeatedly rank deficient columns.
---
 src/decomp/qr.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 2600106..7e371b4 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -46,16 +46,16 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
   fn perform_householder_reflection(minor : usize, qrdata : &mut Vec<T>, m : usize, n : usize, rdiag : &mut Vec<T>) {
     // Calculate the length of the minor:th minor column vector. As we are dealing with a sub matrix from the diagonal down and right,
     // the column vector corresponds to the row range minor .. (m - 1).
-    let mut x_norm_sqr : T = num::zero();
+    // (Accumulated with hypot to avoid under/overflow).
+    let mut x_norm : T = num::zero();
     for i in minor..m {
-      let c = qrdata[i * n + minor].clone();
-      x_norm_sqr = x_norm_sqr + c * c;
+      x_norm = x_norm.hypot(qrdata[i * n + minor].clone());
     }
 
     // We know the size of the reflected coordinate (the lenght of the column vector), but not the sign yet.
     // Reflection will flip the sign of the corresponding coordinate element, so sign of the reflected
     // coordinate will be the opposite of the current coordinate element.
-    let a = if qrdata[minor * n + minor].clone() > num::zero() { - x_norm_sqr.sqrt() } else { x_norm_sqr.sqrt() };
+    let a = if qrdata[minor * n + minor].clone() > num::zero() { - x_norm } else { x_norm };
     rdiag[minor] = a.clone();
 
     // If the length of the column vector is zero, the column is already zero and there's nothing to do.
@@ -73,12 +73,17 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
       //       = 2a^2 - 2a<x, e>
       //       = 2a^2 - 2a*qrdata[k * n + k]	// As <x, e> is the projection of x to the axis aligned unit vector e.
       //       = 2a(a - qrdata[k * n + k])
-      qrdata[minor * n + minor] = qrdata[minor * n + minor].clone() - a;
+      //
+      // The vector is stored scaled by 1 / -a, so that its first element lies between 1 and 2:
+      // u = (x - a * e) / -a = x / -a + e
+      for row in minor..m {
+        qrdata[row * n + minor] = qrdata[row * n + minor].clone() / - a;
+      }
+      qrdata[minor * n + minor] = qrdata[minor * n + minor].clone() + num::one();
 
       // Note that now:
-      // |u|^2 = 2a(a - (qrdata[k * n + k] + a))
-      //       = 2a(- qrdata[k * n + k])
-      //       = -2a*qrdata[k * n + k]
+      // |u|^2 = 2a(a - x[k]) / a^2 = 2(1 - x[k] / a)
+      //       = 2*qrdata[k * n + k]
 
       // Transform the rest of the columns of the minor:
       // The reflection matrix is:
@@ -86,16 +91,16 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
       //   Hx = (I - 2uu'/|u|^2)x
       //      = x - 2uu'x/|u|^2
       //      = x - 2<x,u>/|u|^2 u
-      //      = x - 2<x,u>/(-2a*qrdata[k * n + k]) u
-      //      = x + <x,u>/(a*qrdata[k * n + k]) u
+      //      = x - 2<x,u>/(2*qrdata[k * n + k]) u
+      //      = x - <x,u>/qrdata[k * n + k] u
       //      = x + factor * u
       for column in (minor + 1)..n {
-        // factor = <x, u>/(a * qrdata[k * n + k])
+        // factor = -<x, u>/qrdata[k * n + k]
         let mut x_dot_u : T = num::zero();
         for row in minor..m {
           x_dot_u = x_dot_u + qrdata[row * n + minor].clone() * qrdata[row * n + column].clone();
         }
-        let factor = x_dot_u / (a * qrdata[minor * n + minor].clone());
+        let factor = - x_dot_u / qrdata[minor * n + minor].clone();
 
         // Hx = x + factor * u
         for row in minor..m {
@@ -164,16 +169,15 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
     //   Q = Q_1_inv(Q_2_inv(...(Q_m_inv I))) = Q_1(Q_2(...(Q_m I)))
     for minor in (0..cmp::min(m, n)).rev() {
       if self.qr.get_data()[minor * n + minor].clone() != num::zero() {
-        // |u|^2 = -2a*qrdata[minor * n + minor]
-        //       = -2 * rdiag[minor] * qrdata[minor * n + minor]
+        // |u|^2 = 2*qrdata[minor * n + minor]
         //
         // The reflection matrix is:
         //   H = I - 2uu'/|u|^2.
         //   Hx = (I - 2uu'/|u|^2)x
         //      = x - 2uu'x/|u|^2
         //      = x - 2<x,u>/|u|^2 u
-        //      = x - 2<x,u>/(-2a*qrdata[minor * n + minor]) u
-        //      = x + <x,u>/(a*qrdata[minor * n + minor]) u
+        //      = x - 2<x,u>/(2*qrdata[minor * n + minor]) u
+        //      = x - <x,u>/qrdata[minor * n + minor] u
         //      = x + factor * u
         // Iterate over columns k .. (m - 1) of Q.
         for column in minor..m {
@@ -181,7 +185,7 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
           for row in minor..m {
             x_dot_u = x_dot_u + self.qr.get_data()[row * n + minor].clone() * qdata[row * m + column].clone();
           }
-          let factor = x_dot_u / (self.rdiag[minor].clone() * self.qr.get_data()[minor * n + minor].clone());
+          let factor = - x_dot_u / self.qr.get_data()[minor * n + minor].clone();
 
           for row in minor..m {
             qdata[row * m + column] = qdata[row * m + column].clone() + factor * self.qr.get_data()[row * n + minor].clone();
-- 
2.43.0


From 9154e1fb6e90c3e4399f0aafe442db4d02548439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 04/18] fix: QR solve: accept matrices with more rows than
 columns

The solution was built from all rows of the right-hand side, which panicked for
every overdetermined system.
---
 src/decomp/qr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 7e371b4..251503f 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -226,6 +226,9 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
       }
     }
 
+    // Only the first n rows of Y take part in the back substitution.
+    xdata.truncate(n * nx);
+
     // Solve R*X = Y;
     for k in (0..n).rev() {
       for j in 0..nx {
-- 
2.43.0


From 4870dacf0640e29b6615be0ae4d0f109d144ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 05/18] fix: QR is_full_rank: a matrix with fewer rows than
 columns has no full column rank

It indexed past the end of the diagonal of R instead.
---
 src/decomp/qr.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index 251503f..e62fef3 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -111,6 +111,9 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
   }
 
   pub fn is_full_rank(&self) -> bool {
+    if self.qr.rows() < self.qr.cols() {
+      return false;
+    }
     for j in 0..self.qr.cols() {
       if self.rdiag[j].clone() == num::zero() {
         return false;
-- 
2.43.0


From 769dd7fddb58a74051ccbe9e4834dfc8d1df42a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 06/18] fix: SVD rank: stay on the diagonal and use the scalar
 type's precision

It read past the last column for matrices with more rows than columns, and
compared single precision singular values against double precision noise.
---
 src/decomp/svd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 17c7fb7..3c028bf 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -437,11 +437,11 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
   }
 
   pub fn rank(&self) -> usize {
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     let max_dim : T = num::cast(cmp::max(self.u.rows(), self.v.rows())).unwrap();
     let tol = max_dim * self.s.get(0, 0) * eps;
     let mut r = 0;
-    for i in 0..self.s.rows() {
+    for i in 0..cmp::min(self.s.rows(), self.s.cols()) {
       if self.s.get(i, i) > tol {
         r += 1;
       }
-- 
2.43.0


From fe50dab5843296246d9e126bde46c42f2bc4416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 07/18] fix: vector_p_norm: take the absolute value before
 raising to the power

A negative element raised to a non-integer power is NaN.
---
 src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index d76cef1..1a1c142 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -821,7 +821,7 @@ impl<T : Float + ApproxEq<T> + Signed + Copy> Matrix<T> {
 
     let mut s : T = num::zero();
     for i in 0..self.data.len() {
-      s = s + num::abs(self.data[i].powf(p.clone()));
+      s = s + num::abs(self.data[i].clone()).powf(p.clone());
     }
 
     s.powf(num::one::<T>() / p)
-- 
2.43.0


From d672715919e662e31b664882967cd6f2f0579222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 08/18] fix: eigendecomposition: refuse matrices that are not
 square

For more rows than columns the rows past the last were silently ignored.
---
 src/decomp/eigen.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 5859170..44c87b1 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -753,6 +753,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
   }
 
   pub fn new(a : &Matrix<T>) -> EigenDecomposition<T> {
+    assert!(a.rows() == a.cols());
     let n = a.cols();
 
     let mut vdata = alloc_dirty_vec(n * n);
-- 
2.43.0


From ef89b672e0a1996ef7396b91115da78c71dce80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 09/18] fix: Cholesky: a NaN pivot is not positive definite

A NaN on the diagonal slipped through the comparison and a factor full of NaN
was returned.
---
 src/decomp/cholesky.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomp/cholesky.rs b/src/decomp/cholesky.rs
index ba7c593..e9ad277 100755
--- a/src/decomp/cholesky.rs
+++ b/src/decomp/cholesky.rs
@@ -94,7 +94,7 @@ impl<T : Float + ApproxEq<T>> CholeskyDecomposition<T> {
       // Solve L[j][j]. (Diagonals).
       // L[j][j] = sqrt(A[j][j] - SUM { L[j][0 .. (j - 1)]^2 }).
       d = m.get(j, j) - d;
-      if d <= num::zero() {
+      if !(d > num::zero()) {
         // A is not positive definite; Cholesky decomposition does not exists.
         return None
       }
-- 
2.43.0


From 732a98f16eb63a32064aa691fe2e2243cdde198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 10/18] fix: pinverse: handle matrices with fewer rows than
 columns

A'A is singular for them, so the result was garbage or a panic.
---
 src/matrix.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 1a1c142..6d3c8b3 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -779,6 +779,11 @@ impl<T : Float + ApproxEq<T> + Signed + Copy> Matrix<T> {
     //    = ((QR)' QR)^-1 A'
     //    = (R'Q'QR)^-1 A'
     //    = (R'R)^-1 A'
+    if self.no_rows < self.cols() {
+      // A+ = ((A')+)'
+      return self.t().pinverse().t();
+    }
+
     let qr = qr::QRDecomposition::new(self);
     let r = qr.get_r();
     (r.t() * &r).inverse().unwrap() * &self.t()
-- 
2.43.0


From 4a8ac334bdd7dc51b8b05fec71ae4ca568987a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 11/18] fix: LU: singularity and solve are defined for square
 matrices only

For more rows than columns solve() returned a matrix that solves nothing.
---
 src/decomp/lu.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/decomp/lu.rs b/src/decomp/lu.rs
index c08bb21..6319801 100755
--- a/src/decomp/lu.rs
+++ b/src/decomp/lu.rs
@@ -172,6 +172,7 @@ impl<T : Float + ApproxEq<T> + Signed> LUDecomposition<T> {
   }
 
   pub fn is_non_singular(&self) -> bool {
+    assert!(self.lu.rows() == self.lu.cols());
     let n = self.lu.cols();
     for j in 0..n {
       if self.lu.get_data()[j * n + j].clone() == num::zero() {
-- 
2.43.0


From fab57e2823b141338dfc1ccc3552ca1efe77ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 12/18] fix: m!: refuse rows of different lengths

Rows whose total length happened to divide evenly were silently regrouped, so
m!(1, 2, 3; 4) became a 2x2 matrix.
---
 src/macros.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index cb4928e..e163c47 100755
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -15,9 +15,11 @@ macro_rules! m_one {
 /// Helper macro for m!
 #[macro_export]
 macro_rules! m_rec(
-  ( [ $($row:tt),* ] [$($i:expr),*]) => ({
-     let _rows = 0 $(+ m_one!($row) )*;
+  ( [ $( [ $($e:expr),* ] ),* ] [$($i:expr),*]) => ({
+     let _row_lens : &[usize] = &[ $( 0 $(+ m_one!($e))* ),* ];
+     let _rows = _row_lens.len();
      let _cols = (0 $(+ m_one!($i))*) / _rows;
+     assert!(_row_lens.iter().all(|&len| len == _cols));
      Matrix::new(
        _rows,
        _cols,
-- 
2.43.0


From aa5612aa21c1cf263f32ea8c302e66f23208765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 13/18] fix: constructors: refuse zero and overflowing
 dimensions

id, zero, zero_vector, one_vector and random built matrices without rows or
columns, and in builds without overflow checks even new accepted dimensions
whose product wraps around to the length of the data.
---
 src/matrix.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 6d3c8b3..ce1a53a 100755
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -16,6 +16,12 @@ use decomp::lu;
 use decomp::qr;
 use internalutil::{alloc_dirty_vec};
 
+// Number of elements of a matrix of the given dimensions. Neither dimension may be zero.
+fn elem_count(no_rows : usize, no_cols : usize) -> usize {
+  assert!(no_rows > 0 && no_cols > 0);
+  no_rows.checked_mul(no_cols).expect("matrix dimensions overflow")
+}
+
 #[derive(PartialEq, Clone)]
 pub struct Matrix<T> {
   no_rows : usize,
@@ -24,8 +30,7 @@ pub struct Matrix<T> {
 
 impl<T : Copy> Matrix<T> {
   pub fn new(no_rows : usize, no_cols : usize, data : Vec<T>) -> Matrix<T> {
-    assert!(no_rows * no_cols == data.len());
-    assert!(no_rows > 0 && no_cols > 0);
+    assert!(elem_count(no_rows, no_cols) == data.len());
     Matrix { no_rows : no_rows, data : data }
   }
 
@@ -110,7 +115,7 @@ impl<T : Copy> Matrix<T> {
 
 impl<T : Num + Copy> Matrix<T> {
   pub fn id(m : usize, n : usize) -> Matrix<T> {
-    let elems = m * n;
+    let elems = elem_count(m, n);
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = num::zero();
@@ -122,7 +127,7 @@ impl<T : Num + Copy> Matrix<T> {
   }
 
   pub fn zero(no_rows : usize, no_cols : usize) -> Matrix<T> {
-    let elems = no_rows * no_cols;
+    let elems = elem_count(no_rows, no_cols);
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = num::zero();
@@ -150,7 +155,7 @@ impl<T : Num + Copy> Matrix<T> {
     let min_dim = cmp::min(m, n);
     assert!(data.len() == min_dim);
 
-    let elems = m * n;
+    let elems = elem_count(m, n);
     let mut d : Vec<T> = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = num::zero();
@@ -163,7 +168,7 @@ impl<T : Num + Copy> Matrix<T> {
   }
 
   pub fn zero_vector(no_rows : usize) -> Matrix<T> {
-    let mut d : Vec<T> = alloc_dirty_vec(no_rows);
+    let mut d : Vec<T> = alloc_dirty_vec(elem_count(no_rows, 1));
     for i in 0..no_rows {
       d[i] = num::zero();
     }
@@ -171,7 +176,7 @@ impl<T : Num + Copy> Matrix<T> {
   }
 
   pub fn one_vector(no_rows : usize) -> Matrix<T> {
-    let mut d : Vec<T> = alloc_dirty_vec(no_rows);
+    let mut d : Vec<T> = alloc_dirty_vec(elem_count(no_rows, 1));
     for i in 0..no_rows {
       d[i] = num::one();
     }
@@ -569,7 +574,7 @@ impl<T : Debug + Copy> Debug for Matrix<T> {
 
 impl<T : Rand + Copy> Matrix<T> {
   pub fn random(no_rows : usize, no_cols : usize) -> Matrix<T> {
-    let elems = no_rows * no_cols;
+    let elems = elem_count(no_rows, no_cols);
     let mut d = alloc_dirty_vec(elems);
     for i in 0..elems {
       d[i] = rand::random::<T>();
-- 
2.43.0


From 24306bf1c549acbe0c316a7f1ab568fa74d32ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 14/18] fix: QR: keep the reflections orthogonal when a column
 is subnormal

A matrix like 16x16 ones in single precision reduces to columns of subnormal
numbers, whose norm is too coarse to normalise the Householder vector with: Q
was not orthogonal.
---
 src/decomp/qr.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/decomp/qr.rs b/src/decomp/qr.rs
index e62fef3..2f9644e 100755
--- a/src/decomp/qr.rs
+++ b/src/decomp/qr.rs
@@ -46,17 +46,27 @@ impl<T : Float + ApproxEq<T>> QRDecomposition<T> {
   fn perform_householder_reflection(minor : usize, qrdata : &mut Vec<T>, m : usize, n : usize, rdiag : &mut Vec<T>) {
     // Calculate the length of the minor:th minor column vector. As we are dealing with a sub matrix from the diagonal down and right,
     // the column vector corresponds to the row range minor .. (m - 1).
-    // (Accumulated with hypot to avoid under/overflow).
-    let mut x_norm : T = num::zero();
+    // The column is first scaled by its largest element, to avoid under/overflow and to keep full precision
+    // even if the elements are subnormal.
+    let mut scale : T = num::zero();
     for i in minor..m {
-      x_norm = x_norm.hypot(qrdata[i * n + minor].clone());
+      let x = qrdata[i * n + minor].abs();
+      if x > scale || x.is_nan() { scale = x; }
+    }
+    let mut x_norm : T = num::zero();
+    if scale != num::zero() {
+      for i in minor..m {
+        qrdata[i * n + minor] = qrdata[i * n + minor].clone() / scale;
+        x_norm = x_norm + qrdata[i * n + minor].clone() * qrdata[i * n + minor].clone();
+      }
+      x_norm = x_norm.sqrt();
     }
 
     // We know the size of the reflected coordinate (the lenght of the column vector), but not the sign yet.
     // Reflection will flip the sign of the corresponding coordinate element, so sign of the reflected
     // coordinate will be the opposite of the current coordinate element.
     let a = if qrdata[minor * n + minor].clone() > num::zero() { - x_norm } else { x_norm };
-    rdiag[minor] = a.clone();
+    rdiag[minor] = a * scale;
 
     // If the length of the column vector is zero, the column is already zero and there's nothing to do.
     if a != num::zero() {
-- 
2.43.0


From 6d56472b2bc441d4dd03be2d53b7a144086b976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 15/18] fix: SVD, eigendecomposition: use the scalar type's
 precision

The convergence tests used the precision and range of f64 for every scalar
type. In single precision they could never be met, so that e.g. the SVD of a
9x9 matrix of equal values did not return.
---
 src/decomp/eigen.rs | 4 ++--
 src/decomp/svd.rs   | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 44c87b1..c6d38af 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -148,7 +148,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
 
     let mut f : T = num::zero();
     let mut tst1 : T = num::zero();
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     for l in 0..n {
       // Find small subdiagonal element
       tst1 = tst1.max(num::abs(ddata[l].clone()) + num::abs(edata[l].clone()));
@@ -353,7 +353,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     let mut n = nn - 1;
     let low : isize = 0;
     let high = nn - 1;
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
+    let eps : T = T::epsilon();
     let mut exshift = num::zero();
     let mut p = num::zero();
     let mut q = num::zero();
diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 3c028bf..3e384a8 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -223,8 +223,9 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
 
     // Main iteration loop for the singular values.
     let pp = p - 1;
-    let eps : T = num::cast(2.0f64.powf(-52.0)).unwrap();
-    let tiny : T = num::cast(2.0f64.powf(-966.0)).unwrap();
+    // For f64 these are 2^-52 and 2^-966.
+    let eps : T = T::epsilon();
+    let tiny : T = num::cast::<f64, T>(16.0).unwrap() * (T::min_positive_value() / eps);
     while p > 0 {
       // Here is where a test for too many iterations would go.
 
-- 
2.43.0


From 81f4ffbcdfbe62a088666b322c4752d561e1c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 16/18] fix: SVD: keep the reflections orthogonal when a column
 is subnormal

Matrices of low rank, e.g. a 24x21 integer matrix of rank 3, reduce to columns
of subnormal numbers, whose norm is too coarse to normalise the Householder
vectors with: U and V were not orthogonal.
---
 src/decomp/svd.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 3e384a8..8b3ab09 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -68,12 +68,19 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
       if k < nct {
         // Compute the transformation for the k-th column and
         // place the k-th diagonal in s[k].
-        // Compute 2-norm of k-th column without under/overflow.
-        sdata[k] = num::zero();
+        // Compute 2-norm of k-th column without under/overflow. The column is first scaled by
+        // its largest element, to keep full precision even if the elements are subnormal.
+        let mut scale : T = num::zero();
         for i in k..m {
-          sdata[k] = hypot(sdata[k].clone(), adata[i * n + k].clone());
+          let x = num::abs(adata[i * n + k].clone());
+          if x > scale || x.is_nan() { scale = x; }
         }
-        if sdata[k].clone() != num::zero() {
+        sdata[k] = num::zero();
+        if scale != num::zero() {
+          for i in k..m {
+            adata[i * n + k] = adata[i * n + k].clone() / scale;
+            sdata[k] = hypot(sdata[k].clone(), adata[i * n + k].clone());
+          }
           if adata[k * n + k].clone() < num::zero() {
             sdata[k] = - sdata[k].clone();
           }
@@ -81,6 +88,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
             adata[i * n + k] = adata[i * n + k].clone() / sdata[k].clone();
           }
           adata[k * n + k] = adata[k * n + k].clone() + num::one();
+          sdata[k] = sdata[k].clone() * scale;
         }
         sdata[k] = - sdata[k].clone();
       }
@@ -110,12 +118,18 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
 
       if k < nrt {
         // Compute the k-th row transformation and place the k-th super-diagonal in e[k].
-        // Compute 2-norm without under/overflow.
-        edata[k] = num::zero();
+        // Compute 2-norm without under/overflow, scaled as above.
+        let mut scale : T = num::zero();
         for i in (k + 1)..n {
-          edata[k] = hypot(edata[k].clone(), edata[i].clone());
+          let x = num::abs(edata[i].clone());
+          if x > scale || x.is_nan() { scale = x; }
         }
-        if edata[k].clone() != num::zero() {
+        edata[k] = num::zero();
+        if scale != num::zero() {
+          for i in (k + 1)..n {
+            edata[i] = edata[i].clone() / scale;
+            edata[k] = hypot(edata[k].clone(), edata[i].clone());
+          }
           if edata[k + 1].clone() < num::zero() {
             edata[k] = - edata[k].clone();
           }
@@ -123,6 +137,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
             edata[i] = edata[i].clone() / edata[k].clone();
           }
           edata[k + 1] = edata[k + 1].clone() + num::one();
+          edata[k] = edata[k].clone() * scale;
         }
         edata[k] = - edata[k].clone();
         if (k + 1 < m) && (edata[k].clone() != num::zero()) {
-- 
2.43.0


From 4c4af9c9a9c1470ed1d59e19d8fb5930570c8b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 17/18] fix: eigendecomposition: subnormal intermediate values

Matrices of low rank, e.g. 32x32 equal values in single precision, reduce to
subnormal numbers: no accurate rotation or reflection can be made of these, and
a deflation threshold computed from them is zero. The eigenvectors of symmetric
matrices were not orthogonal, and the iteration for other matrices did not end
or gave NaN.
---
 src/decomp/eigen.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index c6d38af..7eb5339 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -149,6 +149,12 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     let mut f : T = num::zero();
     let mut tst1 : T = num::zero();
     let eps : T = T::epsilon();
+    for l in 0..n {
+      tst1 = tst1.max(num::abs(ddata[l].clone()) + num::abs(edata[l].clone()));
+    }
+    // Elements far below the rounding errors of the tridiagonalization are negligible wherever they are; they
+    // may be subnormal, and no accurate rotation can be made of them.
+    tst1 = tst1 * eps;
     for l in 0..n {
       // Find small subdiagonal element
       tst1 = tst1.max(num::abs(ddata[l].clone()) + num::abs(edata[l].clone()));
@@ -255,13 +261,25 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
     let low = 0;
     let high = n - 1;
 
+    // Columns far below the rounding errors of the whole matrix are negligible; they may be subnormal, and no
+    // accurate reflection can be made of them.
+    let mut norm : T = num::zero();
+    for i in 0..(n * n) {
+      norm = norm + num::abs(hdata[i].clone());
+    }
+    let negligible = T::epsilon() * T::epsilon() * norm;
+
     for m in (low + 1)..high {
       // Scale column.
       let mut scale : T = num::zero();
       for i in m..(high + 1) {
         scale = scale + num::abs(hdata[i * n + (m - 1)].clone());
       }
-      if scale != num::zero() {
+      if scale <= negligible {
+        for i in m..(high + 1) {
+          hdata[i * n + (m - 1)] = num::zero();
+        }
+      } else {
         // Compute Householder transformation.
         let mut h : T = num::zero();
         for i in (m..(high + 1)).rev() {
@@ -388,6 +406,9 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
         if s == num::zero() {
           s = norm.clone();
         }
+        // Elements far below the rounding errors of the whole matrix are always negligible; they may be
+        // subnormal, in which case the iteration would not make progress.
+        s = s.max(eps * norm);
         if num::abs(hdata[(l * nn + (l - 1)) as usize].clone()) < (eps * s) {
           break;
         }
-- 
2.43.0


From c1e9586b5aa187c6330b7f4fae06fc8f6a2e1192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 18/18] fix: SVD, eigendecomposition: give up instead of
 iterating forever

Elements that are not finite, or overflow during the iteration, never meet the
convergence tests.
---
 src/decomp/eigen.rs | 12 +++++++++++-
 src/decomp/svd.rs   |  9 ++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/decomp/eigen.rs b/src/decomp/eigen.rs
index 7eb5339..21bff48 100755
--- a/src/decomp/eigen.rs
+++ b/src/decomp/eigen.rs
@@ -6,6 +6,9 @@ use ApproxEq;
 use Matrix;
 use internalutil::{alloc_dirty_vec, hypot};
 
+// Upper limit for the iterations spent on one eigenvalue; a few are enough as a rule.
+const MAX_ITERATIONS : usize = 500;
+
 /// Eigenvalues and eigenvectors of a real matrix. 
 ///
 /// Ported from JAMA.
@@ -168,7 +171,12 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
 
       // If m == l, d[l] is an eigenvalue, otherwise, iterate.
       if m > l {
+        let mut iter = 0;
         loop {
+          // Values that are not finite do not converge.
+          iter += 1;
+          assert!(iter <= MAX_ITERATIONS);
+
           // Compute implicit shift
           let mut g = ddata[l].clone();
           let tmp : T = num::cast(2.0).unwrap();
@@ -409,7 +417,7 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
         // Elements far below the rounding errors of the whole matrix are always negligible; they may be
         // subnormal, in which case the iteration would not make progress.
         s = s.max(eps * norm);
-        if num::abs(hdata[(l * nn + (l - 1)) as usize].clone()) < (eps * s) {
+        if num::abs(hdata[(l * nn + (l - 1)) as usize].clone()) <= (eps * s) {
           break;
         }
         l -= 1;
@@ -526,7 +534,9 @@ impl<T : Float + ApproxEq<T> + Signed> EigenDecomposition<T> {
           }
         }
 
+        // Values that are not finite do not converge.
         iter += 1;
+        assert!(iter <= MAX_ITERATIONS);
 
         // Look for two consecutive small sub-diagonal elements
         let mut m = n - 2;
diff --git a/src/decomp/svd.rs b/src/decomp/svd.rs
index 8b3ab09..3749848 100755
--- a/src/decomp/svd.rs
+++ b/src/decomp/svd.rs
@@ -7,6 +7,9 @@ use ApproxEq;
 use Matrix;
 use internalutil::{alloc_dirty_vec, hypot};
 
+// Upper limit for the iterations spent on one singular value; a few are enough as a rule.
+const MAX_ITERATIONS : usize = 500;
+
 /// Singular Value Decomposition.
 ///
 /// Ported from JAMA (with changes).
@@ -241,8 +244,11 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
     // For f64 these are 2^-52 and 2^-966.
     let eps : T = T::epsilon();
     let tiny : T = num::cast::<f64, T>(16.0).unwrap() * (T::min_positive_value() / eps);
+    let mut iter = 0;
     while p > 0 {
-      // Here is where a test for too many iterations would go.
+      // Values that are not finite do not converge.
+      iter += 1;
+      assert!(iter <= MAX_ITERATIONS + n);
 
       // This section of the program inspects for
       // negligible elements in the s and e arrays.  On
@@ -430,6 +436,7 @@ impl<T : Float + Signed + ApproxEq<T>> SVD<T> {
         }
 
         p -= 1;
+        iter = 0;
       }
     }
 
-- 
2.43.0

