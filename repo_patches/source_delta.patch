From 045cbb46c98ff42aaf91612b17f12b6ec35f2bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:20 +0000
Subject: [PATCH 001/188] fix: scaling a vector or matrix in place by one of
 its own elements

operator*= and operator/= took the scalar by reference, so the scalar changed
as soon as the aliased element was updated.
---
 mml/base/Matrix/Matrix.h   | 4 ++--
 mml/base/Matrix/Matrix3D.h | 4 ++--
 mml/base/Matrix/MatrixNM.h | 2 +-
 mml/base/Vector/VectorN.h  | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 2067be1..b5a2336 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -1005,7 +1005,7 @@ namespace MML
 		}
 		
 		/// @brief In-place scalar multiplication
-		Matrix& operator*=(const Type& scalar)
+		Matrix& operator*=(Type scalar)
 		{
 			for (auto& elem : _data)
 				elem *= scalar;
@@ -1022,7 +1022,7 @@ namespace MML
 		}
 		
 		/// @brief In-place scalar division
-		Matrix& operator/=(const Type& scalar)
+		Matrix& operator/=(Type scalar)
 		{
 			for (auto& elem : _data)
 				elem /= scalar;
diff --git a/mml/base/Matrix/Matrix3D.h b/mml/base/Matrix/Matrix3D.h
index db2389f..3167879 100644
--- a/mml/base/Matrix/Matrix3D.h
+++ b/mml/base/Matrix/Matrix3D.h
@@ -356,13 +356,13 @@ namespace MML {
 		/// @{ */
 
 		/// @brief In-place scalar multiplication.
-		Matrix3D& operator*=(const Type& scalar) {
+		Matrix3D& operator*=(Type scalar) {
 			for (auto& elem : _data) elem *= scalar;
 			return *this;
 		}
 
 		/// @brief In-place scalar division.
-		Matrix3D& operator/=(const Type& scalar) {
+		Matrix3D& operator/=(Type scalar) {
 			for (auto& elem : _data) elem /= scalar;
 			return *this;
 		}
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index ca41849..18e5d6e 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -478,7 +478,7 @@ namespace MML {
 		}
 
 		/// @brief In-place scalar multiplication (A *= b).
-		MatrixNM& operator*=(const Type& b) {
+		MatrixNM& operator*=(Type b) {
 			int i, j;
 
 			for (i = 0; i < rows(); i++)
diff --git a/mml/base/Vector/VectorN.h b/mml/base/Vector/VectorN.h
index 0e01755..175175a 100644
--- a/mml/base/Vector/VectorN.h
+++ b/mml/base/Vector/VectorN.h
@@ -249,7 +249,7 @@ namespace MML
 		}
 		/// @brief In-place scalar multiplication.
 		/// @param b Scalar multiplier
-		VectorN& operator*=(const Type& b)
+		VectorN& operator*=(Type b)
 		{
 			for (int i = 0; i < N; i++)
 				_val[i] *= b;
@@ -266,7 +266,7 @@ namespace MML
 		}		
 		/// @brief In-place scalar division.
 		/// @param b Scalar divisor
-		VectorN& operator/=(const Type& b)
+		VectorN& operator/=(Type b)
 		{
 			for (int i = 0; i < N; i++)
 				_val[i] /= b;
-- 
2.43.0


From 6197651e63ce05d89c819ec4980b5e883922c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:34 +0000
Subject: [PATCH 002/188] fix: anti-symmetry test ignored the diagonal, which
 must be zero

---
 mml/base/Matrix/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index b5a2336..330c6ae 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -707,7 +707,7 @@ namespace MML
 			if (_rows != _cols) return false;
 			
 			for (int i = 0; i < _rows; ++i) {
-				for (int j = i + 1; j < _cols; ++j) {
+				for (int j = i; j < _cols; ++j) {
 					if (IsMatrixTypeComplex()) {
 						if (Abs((*this)(i, j) + std::conj((*this)(j, i))) > eps)
 							return false;
-- 
2.43.0


From 333f1a5631101666559fb734743fd9bdf7e0c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:34 +0000
Subject: [PATCH 003/188] fix: a zero matrix was not reported as singular

The singularity threshold is relative to the largest element, so it is zero
for the zero matrix and a strict comparison never fires.
---
 mml/base/Matrix/Matrix.h                | 2 +-
 mml/base/Matrix/MatrixNM.h              | 2 +-
 mml/core/LinAlgEqSolvers/LinAlgDirect.h | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 330c6ae..dc6bf32 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -1135,7 +1135,7 @@ namespace MML
 				indxr[i] = irow;
 				indxc[i] = icol;
 				
-				if (Abs(a(icol, icol)) < singularity_threshold)
+				if (Abs(a(icol, icol)) <= singularity_threshold)
 					throw SingularMatrixError("Matrix::Invert - Singular Matrix", Abs(a(icol, icol)));
 				
 				Type pivinv = Type{1} / a(icol, icol);
diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index 18e5d6e..1056dd7 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -659,7 +659,7 @@ namespace MML {
 				indxr[i] = irow;
 				indxc[i] = icol;
 
-				if (std::abs(a._vals[icol][icol]) < singularity_threshold)
+				if (std::abs(a._vals[icol][icol]) <= singularity_threshold)
 					throw SingularMatrixError("MatrixNM::Invert, gaussj: Singular Matrix", std::abs(a._vals[icol][icol]));
 
 				pivinv = 1.0 / a._vals[icol][icol];
diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index 3705caf..02c1a1c 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -157,7 +157,7 @@ namespace MML
 				indxr[i] = irow;
 				indxc[i] = icol;
 
-				if (Abs(a[icol][icol]) < singularity_threshold)
+				if (Abs(a[icol][icol]) <= singularity_threshold)
 					throw SingularMatrixError("GaussJordanSolver::SolveInPlace - Singular Matrix", Abs(a[icol][icol]));
 
 				pivinv = Real{ 1.0 } / a[icol][icol];
@@ -343,7 +343,7 @@ namespace MML
 				}
 
 				_indx[k] = imax;
-				if (Abs(_lu[k][k]) < singularity_threshold) 
+				if (Abs(_lu[k][k]) <= singularity_threshold) 
 					throw SingularMatrixError("LUSolver::ctor - Singular Matrix", Abs(_lu[k][k]));
 				
 				for (i = k + 1; i < _n; i++) 
@@ -537,7 +537,7 @@ namespace MML
 					vv[imax] = vv[k];
 				}
 				_indx[k] = imax;
-				if (Abs(_lu[k][k]) < singularity_threshold)
+				if (Abs(_lu[k][k]) <= singularity_threshold)
 					throw SingularMatrixError("LUSolverInPlace::ctor - Singular Matrix", Abs(_lu[k][k]));
 
 				for (i = k + 1; i < _n; i++) {
@@ -738,7 +738,7 @@ namespace MML
 				
 				_indx[k] = i + 1;  // Store 1-based index for compatibility
 				
-				if (Abs(dum) < singularity_threshold)
+				if (Abs(dum) <= singularity_threshold)
 					throw SingularMatrixError("BandDiagonalSolver::ctor - Singular Matrix", Abs(dum));
 				
 				// Interchange rows if necessary
-- 
2.43.0


From 6423f18d6004bfcfc59c0ccd0c495f8416da7750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 004/188] fix: MatrixNM scalar constructor and Identity wrote
 past the array for N > M

---
 mml/base/Matrix/MatrixNM.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index 1056dd7..1cddaa8 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -187,7 +187,7 @@ namespace MML {
 		/// @endcode
 
 		MatrixNM(const Type& m) {
-			for (int i = 0; i < N; i++)
+			for (int i = 0; i < N && i < M; i++)
 				_vals[i][i] = Type{m};
 		}
 		/// /** @} */
@@ -215,7 +215,7 @@ namespace MML {
 		static MatrixNM Identity() {
 			MatrixNM unitMat;
 
-			for (int i = 0; i < N; i++)
+			for (int i = 0; i < N && i < M; i++)
 				unitMat._vals[i][i] = 1.0;
 
 			return unitMat;
-- 
2.43.0


From 3a342fea338a13add61d59c89633f12f93bc6d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 005/188] fix: pivot indices were uninitialised when a matrix
 holds only NaN

---
 mml/base/Matrix/MatrixNM.h              | 2 +-
 mml/core/LinAlgEqSolvers/LinAlgDirect.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Matrix/MatrixNM.h b/mml/base/Matrix/MatrixNM.h
index 1cddaa8..e910dfd 100644
--- a/mml/base/Matrix/MatrixNM.h
+++ b/mml/base/Matrix/MatrixNM.h
@@ -618,7 +618,7 @@ namespace MML {
 
 			b(0, 0) = 1.0;
 
-			int i, icol, irow, j, k, l, ll;
+			int i, icol = 0, irow = 0, j, k, l, ll;
 			Type big, dum, pivinv;
 
 			int n = rows();
diff --git a/mml/core/LinAlgEqSolvers/LinAlgDirect.h b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
index 02c1a1c..64b64b5 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgDirect.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgDirect.h
@@ -109,7 +109,7 @@ namespace MML
 		/// @throws MatrixNumericalError if pivot inverse is non-finite
 		static void SolveInPlace(Matrix<Type>& a, Matrix<Type>& b)
 		{
-			int i, icol, irow, j, k, l, ll;
+			int i, icol = 0, irow = 0, j, k, l, ll;
 			Real big;
 			Type dum, pivinv;
 
-- 
2.43.0


From 5f2d0f7d8bf8788c4cdbcc31df18c3152fa252b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:56 +0000
Subject: [PATCH 006/188] fix: TridiagonalMatrix::Solve read and wrote out of
 bounds for vectors of the wrong size

---
 mml/base/Matrix/MatrixTriDiag.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mml/base/Matrix/MatrixTriDiag.h b/mml/base/Matrix/MatrixTriDiag.h
index 83209b0..6c5d766 100644
--- a/mml/base/Matrix/MatrixTriDiag.h
+++ b/mml/base/Matrix/MatrixTriDiag.h
@@ -212,6 +212,10 @@ namespace MML
 		void Solve(const Vector<Type>& rhs, Vector<Type>& sol)
 		{
 			int j, n = _belowDiag.size();
+			if (rhs.size() != n)
+				throw MatrixDimensionError("TridiagonalMatrix::Solve - right-hand side size must match matrix dimension", _dim, _dim, rhs.size(), -1);
+			if (sol.size() != n)
+				sol.Resize(n);
 			Type bet;  // Must be Type to work with complex matrices
 			Vector<Type> gam(n);
 
-- 
2.43.0


From 250b0ca78297785e67a64130e78a8e7f7b288589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:56 +0000
Subject: [PATCH 007/188] fix: TridiagonalMatrix::IsEqualTo compared storage
 that is not part of the matrix

---
 mml/base/Matrix/MatrixTriDiag.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Matrix/MatrixTriDiag.h b/mml/base/Matrix/MatrixTriDiag.h
index 6c5d766..8ad62ec 100644
--- a/mml/base/Matrix/MatrixTriDiag.h
+++ b/mml/base/Matrix/MatrixTriDiag.h
@@ -98,9 +98,9 @@ namespace MML
 			for (int i = 0; i < _dim; i++) {
 				if (std::abs(_diag[i] - b._diag[i]) > eps)
 					return false;
-				if (std::abs(_belowDiag[i] - b._belowDiag[i]) > eps)
+				if (i > 0 && std::abs(_belowDiag[i] - b._belowDiag[i]) > eps)
 					return false;
-				if (std::abs(_aboveDiag[i] - b._aboveDiag[i]) > eps)
+				if (i < _dim - 1 && std::abs(_aboveDiag[i] - b._aboveDiag[i]) > eps)
 					return false;
 			}
 			return true;
-- 
2.43.0


From d74201f25b4aab4212f0d3b5d995d522f797d7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 008/188] fix: Matrix3D += by one of its own elements

---
 mml/base/Matrix/Matrix3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Matrix/Matrix3D.h b/mml/base/Matrix/Matrix3D.h
index 3167879..9c09178 100644
--- a/mml/base/Matrix/Matrix3D.h
+++ b/mml/base/Matrix/Matrix3D.h
@@ -368,7 +368,7 @@ namespace MML {
 		}
 
 		/// @brief In-place scalar addition.
-		Matrix3D& operator+=(const Type& scalar) {
+		Matrix3D& operator+=(Type scalar) {
 			for (auto& elem : _data) elem += scalar;
 			return *this;
 		}
-- 
2.43.0


From a6a5cddcbf32efcdb646af4ce5be36388c83691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 009/188] fix: QRSolver singularity test missed dependent inner
 columns and rejected small regular matrices

---
 mml/core/LinAlgEqSolvers/LinAlgQR.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgQR.h b/mml/core/LinAlgEqSolvers/LinAlgQR.h
index 66bd518..e42d507 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgQR.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgQR.h
@@ -69,7 +69,7 @@ namespace MML
 				for (i = k; i < _m; i++)
 					scale = std::max(scale, Abs(_QR[i][k]));
 
-				if (scale < std::numeric_limits<Real>::epsilon())
+				if (scale == 0.0)
 				{
 					// Singular case: column below diagonal is effectively zero
 					_sing = true;
@@ -113,14 +113,17 @@ namespace MML
 			if (_m == _n)
 			{
 				_d[_n - 1] = _QR[_n - 1][_n - 1];
-				// Use norm-scaled threshold instead of exact zero
-				Real norm_a = 0.0;
-				for (int ii = 0; ii < _m; ii++)
-					for (int jj = 0; jj < _n; jj++)
-						if (Abs(a(ii, jj)) > norm_a)
-							norm_a = Abs(a(ii, jj));
-				Real threshold = std::numeric_limits<Real>::epsilon() * norm_a * _n;
-				if (Abs(_d[_n - 1]) < threshold)
+			}
+
+			// A column that depends on the preceding ones leaves a diagonal element of R that is
+			// negligible relative to that column; this must hold for every column, at any scale
+			for (j = 0; j < _n; j++)
+			{
+				Real norm_col = 0.0;
+				for (i = 0; i < _m; i++)
+					norm_col = std::max(norm_col, Abs(a(i, j)));
+				Real threshold = 10 * std::numeric_limits<Real>::epsilon() * norm_col * _m;
+				if (Abs(_d[j]) <= threshold)
 					_sing = true;
 			}
 		}
-- 
2.43.0


From 252ec3aa1bc555d23042e029742e62e92bd53b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 010/188] fix: iterative solvers reported maxIter+1 iterations
 and a zero residual when no iteration ran

---
 .../LinAlgEqSolvers/LinAlgEqSolvers_iterative.h    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h b/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
index 8b748d2..9107c63 100644
--- a/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
+++ b/mml/core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h
@@ -169,7 +169,7 @@ namespace MML
 			if (b_norm == 0.0) b_norm = 1.0;  // Avoid division by zero
 			
 			int iter = 0;
-			Real residual = 0.0;
+			Real residual = Vector<Real>(A * x - b).NormL2() / b_norm;
 			bool converged = false;
 			
 			for (iter = 1; iter <= maxIter; iter++)
@@ -202,7 +202,7 @@ namespace MML
 				x = x_new;
 			}
 			
-			return IterativeSolverResult(x, iter, residual, converged);
+			return IterativeSolverResult(x, converged ? iter : maxIter, residual, converged);
 		}
 		
 		/**
@@ -322,7 +322,7 @@ namespace MML
 			if (b_norm == 0.0) b_norm = 1.0;
 			
 			int iter = 0;
-			Real residual = 0.0;
+			Real residual = Vector<Real>(A * x - b).NormL2() / b_norm;
 			bool converged = false;
 			
 			for (iter = 1; iter <= maxIter; iter++)
@@ -353,7 +353,7 @@ namespace MML
 				}
 			}
 			
-			return IterativeSolverResult(x, iter, residual, converged);
+			return IterativeSolverResult(x, converged ? iter : maxIter, residual, converged);
 		}
 		
 		/**
@@ -490,7 +490,7 @@ namespace MML
 			if (b_norm == 0.0) b_norm = 1.0;
 			
 			int iter = 0;
-			Real residual = 0.0;
+			Real residual = Vector<Real>(A * x - b).NormL2() / b_norm;
 			bool converged = false;
 			
 			for (iter = 1; iter <= maxIter; iter++)
@@ -525,7 +525,7 @@ namespace MML
 				}
 			}
 			
-			return IterativeSolverResult(x, iter, residual, converged);
+			return IterativeSolverResult(x, converged ? iter : maxIter, residual, converged);
 		}
 		
 		/**
@@ -542,7 +542,7 @@ namespace MML
 		                                           int maxIter = 1000)
 		{
 			int n = A.rows();
-			Real omega = 2.0 / (1.0 + std::sin(Constants::PI / n));
+			Real omega = n > 1 ? 2.0 / (1.0 + std::sin(Constants::PI / n)) : 1.0;
 			return Solve(A, b, omega, x0, tol, maxIter);
 		}
 		
-- 
2.43.0


From eac3919352ee487c27d74ba56a35b38ceba88440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 011/188] fix: general eigensolver skipped undeflated blocks
 and returned wrong eigenvectors for complex pairs

---
 mml/algorithms/EigenSolverHelpers.h | 223 +++++++++++++++-------------
 mml/algorithms/EigenSystemSolvers.h | 169 ++++++++++-----------
 2 files changed, 194 insertions(+), 198 deletions(-)

diff --git a/mml/algorithms/EigenSolverHelpers.h b/mml/algorithms/EigenSolverHelpers.h
index d921ef6..6dead14 100644
--- a/mml/algorithms/EigenSolverHelpers.h
+++ b/mml/algorithms/EigenSolverHelpers.h
@@ -25,6 +25,7 @@
 #include <cmath>
 #include <algorithm>
 #include <complex>
+#include <limits>
 
 namespace MML {
 	/// @class EigenSolverHelpers
@@ -421,7 +422,7 @@ namespace MML {
 		/// @param iHi Ending index of active submatrix (usually n-1)
 		/// @param accumulateQ If true, accumulates Q for eigenvector computation
 		/// @return DoubleShiftResult with updated H and Q
-		static DoubleShiftResult FrancisDoubleShift(const Matrix<Real>& H, int iLo, int iHi, bool accumulateQ = true) {
+		static DoubleShiftResult FrancisDoubleShift(const Matrix<Real>& H, int iLo, int iHi, bool accumulateQ = true, bool exceptionalShift = false) {
 			int n = H.rows();
 			DoubleShiftResult result(n);
 			result.H = H;
@@ -455,6 +456,12 @@ namespace MML {
 			// M = H² - sH + pI where s = σ₁+σ₂ (trace) and p = σ₁σ₂ (det)
 			Real s = h11 + h22;				// trace of 2x2 = sum of shifts
 			Real p = h11 * h22 - h12 * h21; // det of 2x2 = product of shifts
+			if (exceptionalShift) {
+				// Ad hoc shift that breaks cycling of the standard shifts (EISPACK hqr)
+				Real w = std::abs(h21) + std::abs(result.H(iHi - 1, iHi - 2));
+				s = 1.5 * w;
+				p = w * w;
+			}
 
 			// First column of M = (H - σ₁I)(H - σ₂I):
 			// M[0,0] = H[0,0]² + H[0,1]*H[1,0] - s*H[0,0] + p
@@ -826,6 +833,60 @@ namespace MML {
 			std::vector<bool> isComplexPair; // isComplexPair[i] = true if columns i,i+1 form complex pair
 		};
 
+		/// Back-substitute rows top..0 of (T - lambda*I) x = 0 for quasi-upper-triangular T.
+		/// The entries x[top+1..] must be set; rows that belong to a 2x2 diagonal block are solved together.
+		static void BackSubstituteEigenvector(const Matrix<Real>& T, std::complex<Real> lambda, int top, std::vector<std::complex<Real>>& x) {
+			int n = T.rows();
+			Real scale = 0.0;
+			for (int i = 0; i < n; i++)
+				for (int j = 0; j < n; j++)
+					scale = std::max(scale, std::abs(T(i, j)));
+			Real smin = std::max(std::numeric_limits<Real>::epsilon() * scale, PrecisionValues<Real>::DivisionSafetyThreshold);
+
+			auto rhs = [&](int row, int from) {
+				std::complex<Real> sum(0.0, 0.0);
+				for (int j = from; j < n; j++)
+					sum -= T(row, j) * x[j];
+				return sum;
+			};
+
+			for (int i = top; i >= 0; i--) {
+				if (i > 0 && T(i, i - 1) != 0.0) {
+					std::complex<Real> r0 = rhs(i - 1, i + 1), r1 = rhs(i, i + 1);
+					// Gaussian elimination with complete pivoting; a vanishing last pivot is replaced by smin
+					std::complex<Real> m[2][2] = {{T(i - 1, i - 1) - lambda, T(i - 1, i)}, {T(i, i - 1), T(i, i) - lambda}};
+					int pr = 0, pc = 0;
+					for (int r = 0; r < 2; r++)
+						for (int c = 0; c < 2; c++)
+							if (std::abs(m[r][c]) > std::abs(m[pr][pc])) {
+								pr = r;
+								pc = c;
+							}
+					std::complex<Real> f = m[1 - pr][pc] / m[pr][pc];
+					std::complex<Real> last = m[1 - pr][1 - pc] - f * m[pr][1 - pc];
+					if (std::abs(last) < smin)
+						last = smin;
+					std::complex<Real> rp = (pr == 0) ? r0 : r1, ro = (pr == 0) ? r1 : r0;
+					x[i - pc] = (ro - f * rp) / last;
+					x[i - 1 + pc] = (rp - m[pr][1 - pc] * x[i - pc]) / m[pr][pc];
+					i--;
+				} else {
+					std::complex<Real> denom = T(i, i) - lambda;
+					if (std::abs(denom) < smin)
+						denom = smin;
+					x[i] = rhs(i, i + 1) / denom;
+				}
+
+				// Near-multiple eigenvalues make x grow quickly: rescale so that it cannot overflow
+				Real big = 0.0;
+				for (int j = 0; j < n; j++)
+					big = std::max(big, std::abs(x[j]));
+				if (big > 1e20)
+					for (int j = 0; j < n; j++)
+						x[j] /= big;
+			}
+		}
+
 		/// Compute eigenvector for a real eigenvalue using back-substitution.
 		///
 		/// Given upper triangular T with eigenvalue λ = T[k,k], solve (T - λI)x = 0
@@ -836,34 +897,16 @@ namespace MML {
 		/// @return Eigenvector (normalized)
 		static Vector<Real> ComputeRealEigenvector(const Matrix<Real>& T, int k) {
 			int n = T.rows();
-			Vector<Real> x(n, 0.0);
-
-			// Set x[k] = 1 as starting point
-			x[k] = 1.0;
-			Real lambda = T(k, k);
-
-			// Back-substitute: for i = k-1 down to 0
-			// (T[i,i] - λ) * x[i] + sum_{j=i+1}^{k} T[i,j] * x[j] = 0
-			// x[i] = -sum_{j=i+1}^{k} T[i,j] * x[j] / (T[i,i] - λ)
-
-			for (int i = k - 1; i >= 0; i--) {
-				Real sum = 0.0;
-				for (int j = i + 1; j <= k; j++)
-					sum += T(i, j) * x[j];
-
-				Real denom = T(i, i) - lambda;
-				if (std::abs(denom) > PrecisionValues<Real>::DivisionSafetyThreshold) {
-					x[i] = -sum / denom;
-				} else {
-					// Near-singular: use small perturbation to avoid division by zero
-					x[i] = -sum / PrecisionValues<Real>::DivisionSafetyThreshold;
-				}
-			}
+			std::vector<std::complex<Real>> z(n, std::complex<Real>(0.0, 0.0));
+			z[k] = 1.0;
+			BackSubstituteEigenvector(T, T(k, k), k - 1, z);
 
-			// Normalize
+			Vector<Real> x(n, 0.0);
 			Real norm = 0.0;
-			for (int i = 0; i < n; i++)
+			for (int i = 0; i < n; i++) {
+				x[i] = z[i].real();
 				norm += x[i] * x[i];
+			}
 			norm = std::sqrt(norm);
 
 			if (norm > PrecisionValues<Real>::DivisionSafetyThreshold) {
@@ -884,85 +927,43 @@ namespace MML {
 		/// @return Pair of vectors: (real part, imaginary part)
 		static std::pair<Vector<Real>, Vector<Real>> ComputeComplexEigenvectors(const Matrix<Real>& T, int k) {
 			int n = T.rows();
-			Vector<Real> xr(n, 0.0); // Real part
-			Vector<Real> xi(n, 0.0); // Imaginary part
-
-			// Get the 2x2 block and its eigenvalues
-			Real a = T(k, k);
-			Real b = T(k, k + 1);
-			Real c = T(k + 1, k);
-			Real d = T(k + 1, k + 1);
-
+			Real a = T(k, k), b = T(k, k + 1), c = T(k + 1, k), d = T(k + 1, k + 1);
 			auto eig = Eigenvalues2x2(a, b, c, d);
-			Real alpha = eig.real1; // Real part of eigenvalue
-			Real beta = eig.imag1;	// Imaginary part (positive)
-
-			if (std::abs(beta) < PrecisionValues<Real>::DivisionSafetyThreshold) {
-				// Not actually complex, treat as two real
-				xr = ComputeRealEigenvector(T, k);
-				xi = ComputeRealEigenvector(T, k + 1);
-				return {xr, xi};
-			}
-
-			// For the 2x2 block, the eigenvector of [[a,b],[c,d]] for α+iβ is:
-			// v = [b, α+iβ-a] or [α+iβ-d, c] (up to scaling)
-			// We use [b, (α-a)+iβ] which gives:
-			//   real: [b, α-a]
-			//   imag: [0, β]
-
-			// Initialize at the 2x2 block
-			xr[k] = b;
-			xr[k + 1] = alpha - a;
-			xi[k] = 0.0;
-			xi[k + 1] = beta;
-
-			// Back-substitute for rows k-1 down to 0
-			// We need to solve (T - (α+iβ)I) * (xr + i*xi) = 0
-			// This gives two coupled real equations:
-			// (T - αI) * xr + βI * xi = 0  =>  (T-αI)*xr = -β*xi
-			// (T - αI) * xi - βI * xr = 0  =>  (T-αI)*xi = β*xr
-			for (int i = k - 1; i >= 0; i--) {
-				// sum_r = sum of T[i,j]*xr[j] for j > i
-				// sum_i = sum of T[i,j]*xi[j] for j > i
-				Real sum_r = 0.0;
-				Real sum_i = 0.0;
-				for (int j = i + 1; j <= k + 1; j++) {
-					sum_r += T(i, j) * xr[j];
-					sum_i += T(i, j) * xi[j];
-				}
 
-				// (T[i,i] - α) * xr[i] + β * xi[i] = -sum_r
-				// (T[i,i] - α) * xi[i] - β * xr[i] = -sum_i
-				// Let p = T[i,i] - α
-				// p * xr[i] + β * xi[i] = -sum_r
-				// p * xi[i] - β * xr[i] = -sum_i
-				// Solve 2x2 system:
-				// |p   β | |xr[i]|   |-sum_r|
-				// |-β  p | |xi[i]| = |-sum_i|
-				// det = p² + β²
-
-				Real p = T(i, i) - alpha;
-				Real det = p * p + beta * beta;
-
-				if (det > PrecisionValues<Real>::DivisionSafetyThreshold) {
-					xr[i] = (-sum_r * p - sum_i * beta) / det;
-					xi[i] = (-sum_i * p + sum_r * beta) / det;
+			// Eigenvector of the whole matrix for an eigenvalue of the block, normalized
+			auto eigenvector = [&](std::complex<Real> lambda) {
+				std::vector<std::complex<Real>> x(n, std::complex<Real>(0.0, 0.0));
+				if (std::abs(b) + std::abs(lambda - a) >= std::abs(c) + std::abs(lambda - d)) {
+					x[k] = b;
+					x[k + 1] = lambda - a;
 				} else {
-					xr[i] = 0.0;
-					xi[i] = 0.0;
+					x[k] = lambda - d;
+					x[k + 1] = c;
 				}
-			}
-
-			// Normalize: ||xr||² + ||xi||² = 1 for each eigenvector
-			Real norm_sq = 0.0;
-			for (int i = 0; i < n; i++)
-				norm_sq += xr[i] * xr[i] + xi[i] * xi[i];
-
-			Real norm = std::sqrt(norm_sq);
-			if (norm > PrecisionValues<Real>::DivisionSafetyThreshold) {
+				BackSubstituteEigenvector(T, lambda, k - 1, x);
+				Real norm = 0.0;
+				for (int i = 0; i < n; i++)
+					norm += std::norm(x[i]);
+				norm = std::sqrt(norm);
+				if (norm > PrecisionValues<Real>::DivisionSafetyThreshold)
+					for (int i = 0; i < n; i++)
+						x[i] /= norm;
+				return x;
+			};
+
+			Vector<Real> xr(n, 0.0), xi(n, 0.0);
+			if (!eig.isComplex) {
+				// Two real eigenvalues: one eigenvector for each
+				auto v1 = eigenvector(eig.real1), v2 = eigenvector(eig.real2);
+				for (int i = 0; i < n; i++) {
+					xr[i] = v1[i].real();
+					xi[i] = v2[i].real();
+				}
+			} else {
+				auto v = eigenvector(std::complex<Real>(eig.real1, eig.imag1));
 				for (int i = 0; i < n; i++) {
-					xr[i] /= norm;
-					xi[i] /= norm;
+					xr[i] = v[i].real();
+					xi[i] = v[i].imag();
 				}
 			}
 
@@ -1008,8 +1009,9 @@ namespace MML {
 						Y(j, i) = vr[j];	 // Real part in column i
 						Y(j, i + 1) = vi[j]; // Imaginary part in column i+1
 					}
-					result.isComplexPair[i] = true;
-					result.isComplexPair[i + 1] = true;
+					bool complexPair = Eigenvalues2x2(T(i, i), T(i, i + 1), T(i + 1, i), T(i + 1, i + 1)).isComplex;
+					result.isComplexPair[i] = complexPair;
+					result.isComplexPair[i + 1] = complexPair;
 					i += 2;
 				}
 			}
@@ -1023,17 +1025,24 @@ namespace MML {
 						sum += Q(row, k) * Y(k, col);
 					result.vectors(row, col) = sum;
 				}
+			}
 
-				// Re-normalize after transformation
+			// Re-normalize after transformation; the two columns of a complex pair form one vector,
+			// so they share one factor
+			for (int col = 0; col < n;) {
+				int width = result.isComplexPair[col] ? 2 : 1;
 				Real norm = 0.0;
-				for (int row = 0; row < n; row++)
-					norm += result.vectors(row, col) * result.vectors(row, col);
+				for (int c = col; c < col + width; c++)
+					for (int row = 0; row < n; row++)
+						norm += result.vectors(row, c) * result.vectors(row, c);
 				norm = std::sqrt(norm);
 
 				if (norm > PrecisionValues<Real>::DivisionSafetyThreshold) {
-					for (int row = 0; row < n; row++)
-						result.vectors(row, col) /= norm;
+					for (int c = col; c < col + width; c++)
+						for (int row = 0; row < n; row++)
+							result.vectors(row, c) /= norm;
 				}
+				col += width;
 			}
 
 			return result;
diff --git a/mml/algorithms/EigenSystemSolvers.h b/mml/algorithms/EigenSystemSolvers.h
index 5ca1cec..7186564 100644
--- a/mml/algorithms/EigenSystemSolvers.h
+++ b/mml/algorithms/EigenSystemSolvers.h
@@ -202,6 +202,8 @@ namespace MML {
 		static Result Solve(const Matrix<Real>& A, Real tol = 1e-10, int maxIter = 100) {
 			// Convert to symmetric matrix (average A and A^T)
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("Eigen solver - matrix must be square", n, A.cols(), -1, -1);
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
 				for (int j = i; j < n; j++)
@@ -234,6 +236,8 @@ namespace MML {
 		/// Solve for a regular Matrix using configuration object.
 		static Result Solve(const Matrix<Real>& A, const EigenSolverConfig& config) {
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("Eigen solver - matrix must be square", n, A.cols(), -1, -1);
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
 				for (int j = i; j < n; j++)
@@ -444,6 +448,8 @@ namespace MML {
 		// Overload for regular Matrix (will symmetrize)
 		static Result Solve(const Matrix<Real>& A, Real tol = 1e-10, int maxIter = 1000) {
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("Eigen solver - matrix must be square", n, A.cols(), -1, -1);
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
 				for (int j = i; j < n; j++)
@@ -476,6 +482,8 @@ namespace MML {
 		/// Solve for a regular Matrix using configuration object.
 		static Result Solve(const Matrix<Real>& A, const EigenSolverConfig& config) {
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("Eigen solver - matrix must be square", n, A.cols(), -1, -1);
 			MatrixSym<Real> symA(n);
 			for (int i = 0; i < n; i++)
 				for (int j = i; j < n; j++)
@@ -867,6 +875,8 @@ namespace MML {
 		/// - eigenvectors.Column(k) = vr, Column(k+1) = vi
 		static Result Solve(const Matrix<Real>& A, Real tol = 1e-10, int maxIter = 1000) {
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("EigenSolver::Solve - matrix must be square", n, A.cols(), -1, -1);
 			Result result(n);
 
 			if (n == 0) {
@@ -888,98 +898,37 @@ namespace MML {
 			Matrix<Real> Q = hess.Q; // Accumulated transformation
 
 			// Step 2: QR iteration with deflation
-			int iLo = 0;	 // Start of active region
-			int iHi = n - 1; // End of active region
+			int iHi = n - 1;			 // end of the active part; everything below it is already quasi-triangular
 			int totalIter = 0;
+			int blockIter = 0;			 // steps since the last deflation
 
-			while (iHi > iLo && totalIter < maxIter) {
-				// Check for deflation at bottom of active region
-				auto defl = EigenSolverHelpers::CheckDeflation(H, iLo, iHi, tol);
-
+			while (iHi > 0 && totalIter < maxIter) {
+				// The active block is [iLo, iHi], bounded by the last negligible subdiagonal element
+				int iLo = 0;
+				auto defl = EigenSolverHelpers::CheckDeflation(H, 0, iHi, tol);
 				if (defl.canDeflate) {
-					// Apply deflation
 					EigenSolverHelpers::ApplyDeflation(H, defl.deflationIndex);
-
-					// Shrink active region
-					if (defl.deflationIndex == iHi) {
-						iHi--;
-					} else if (defl.deflationIndex == iHi - 1 && defl.blockSize == 2) {
-						iHi -= 2; // 2x2 block deflated
-					} else {
-						// Middle deflation - just continue
-						iHi = defl.deflationIndex - 1;
-					}
-					continue;
+					iLo = defl.deflationIndex;
 				}
 
-				// Determine if we should use single or double shift
-				// Check if bottom 2x2 has complex eigenvalues
-				bool useDoubleShift = false;
-				if (iHi >= iLo + 1) {
-					Real a = H(iHi - 1, iHi - 1);
-					Real b = H(iHi - 1, iHi);
-					Real c = H(iHi, iHi - 1);
-					Real d = H(iHi, iHi);
-					auto eig = EigenSolverHelpers::Eigenvalues2x2(a, b, c, d);
-					useDoubleShift = eig.isComplex;
-
-					// Special case: if we have only a 2x2 block with complex eigenvalues,
-					// it's already in final form - we're done with this block
-					if (useDoubleShift && iHi == iLo + 1) {
-						// 2x2 block with complex eigenvalues is irreducible - accept it
-						break;
-					}
+				if (iLo == iHi) { // 1x1 block
+					iHi--;
+					blockIter = 0;
+					continue;
 				}
-
-				if (useDoubleShift && iHi >= iLo + 2) {
-					// Apply Francis double-shift
-					auto step = EigenSolverHelpers::FrancisDoubleShift(H, iLo, iHi, true);
-					H = step.H;
-
-					// Update accumulated Q
-					Matrix<Real> newQ(n, n);
-					for (int i = 0; i < n; i++)
-						for (int j = 0; j < n; j++) {
-							newQ(i, j) = 0.0;
-							for (int k = 0; k < n; k++)
-								newQ(i, j) += Q(i, k) * step.Q(k, j);
-						}
-					Q = newQ;
-					totalIter += 2; // Double shift counts as 2 iterations
-				} else {
-					// Apply single Wilkinson shift
-					auto step = EigenSolverHelpers::SingleQRStep(H, true);
-					H = step.H;
-
-					// Update accumulated Q
-					Matrix<Real> newQ(n, n);
-					for (int i = 0; i < n; i++)
-						for (int j = 0; j < n; j++) {
-							newQ(i, j) = 0.0;
-							for (int k = 0; k < n; k++)
-								newQ(i, j) += Q(i, k) * step.Q(k, j);
-						}
-					Q = newQ;
-					totalIter++;
+				if (iLo == iHi - 1) { // 2x2 block: a complex pair stays, a real pair is made triangular
+					SplitRealBlock(H, Q, iLo);
+					iHi -= 2;
+					blockIter = 0;
+					continue;
 				}
 
-				// Apply exceptional shift if stuck (every 30 iterations without progress)
-				if (totalIter % 30 == 29 && iHi >= 2) {
-					// Exceptional shift to break cycles
-					Real exceptionalShift = std::abs(H(iHi, iHi - 1)) + std::abs(H(iHi - 1, iHi - 2));
-					auto step = EigenSolverHelpers::SingleQRStep(H, true, &exceptionalShift);
-					H = step.H;
-
-					Matrix<Real> newQ(n, n);
-					for (int i = 0; i < n; i++)
-						for (int j = 0; j < n; j++) {
-							newQ(i, j) = 0.0;
-							for (int k = 0; k < n; k++)
-								newQ(i, j) += Q(i, k) * step.Q(k, j);
-						}
-					Q = newQ;
-					totalIter++;
-				}
+				bool exceptional = blockIter % 10 == 9;
+				auto step = EigenSolverHelpers::FrancisDoubleShift(H, iLo, iHi, true, exceptional);
+				H = step.H;
+				Q = Q * step.Q;
+				totalIter += 2;
+				blockIter++;
 			}
 
 			// Step 3: Extract eigenvalues from quasi-triangular form
@@ -997,17 +946,22 @@ namespace MML {
 			// Step 5: Compute residuals and check convergence
 			result.iterations = totalIter;
 			result.maxResidual = 0.0;
-			result.converged = (totalIter < maxIter);
+			result.converged = (iHi <= 0);
 
 			// Verify eigenvector quality
-			for (size_t i = 0; i < result.eigenvalues.size(); i++) {
-				if (!result.isComplexPair[i] || (i > 0 && result.isComplexPair[i - 1])) {
-					Vector<Real> v(n);
-					for (int j = 0; j < n; j++)
-						v[j] = result.eigenvectors(j, static_cast<int>(i));
-
-					Real residual = EigenSolverHelpers::EigenvectorResidual(A, v, result.eigenvalues[i].real, result.eigenvalues[i].imag);
+			for (int i = 0; i < n; i++) {
+				if (!result.isComplexPair[i]) {
+					Vector<Real> v = result.eigenvectors.VectorFromColumn(i);
+					Real residual = EigenSolverHelpers::EigenvectorResidual(A, v, result.eigenvalues[i].real);
 					result.maxResidual = std::max(result.maxResidual, residual);
+				} else {
+					// Columns i, i+1 hold the real and imaginary part of the eigenvector of the first of the pair
+					Vector<Real> vr = result.eigenvectors.VectorFromColumn(i), vi = result.eigenvectors.VectorFromColumn(i + 1);
+					Real re = result.eigenvalues[i].real, im = result.eigenvalues[i].imag;
+					Real r1 = Vector<Real>(A * vr - vr * re + vi * im).NormL2();
+					Real r2 = Vector<Real>(A * vi - vi * re - vr * im).NormL2();
+					result.maxResidual = std::max(result.maxResidual, std::sqrt(r1 * r1 + r2 * r2));
+					i++;
 				}
 			}
 
@@ -1034,6 +988,39 @@ namespace MML {
 
 			return result;
 		}
+
+	private:
+		/// Make the 2x2 diagonal block at (k, k+1) upper triangular by a rotation if its eigenvalues are real.
+		static void SplitRealBlock(Matrix<Real>& H, Matrix<Real>& Q, int k) {
+			int n = H.rows();
+			Real a = H(k, k), b = H(k, k + 1), c = H(k + 1, k), d = H(k + 1, k + 1);
+			auto eig = EigenSolverHelpers::Eigenvalues2x2(a, b, c, d);
+			if (eig.isComplex)
+				return;
+
+			// Eigenvector (x, y) of the block for the eigenvalue that is subject to less cancellation
+			Real lambda = (a >= d) ? eig.real1 : eig.real2;
+			Real x = lambda - d, y = c;
+			Real r = std::sqrt(x * x + y * y);
+			if (r < PrecisionValues<Real>::DivisionSafetyThreshold)
+				return;
+			Real cs = x / r, sn = y / r;
+
+			for (int j = k; j < n; j++) {
+				Real t1 = H(k, j), t2 = H(k + 1, j);
+				H(k, j) = cs * t1 + sn * t2;
+				H(k + 1, j) = -sn * t1 + cs * t2;
+			}
+			for (int j = 0; j < n; j++) {
+				Real t1 = H(j, k), t2 = H(j, k + 1);
+				H(j, k) = cs * t1 + sn * t2;
+				H(j, k + 1) = -sn * t1 + cs * t2;
+				t1 = Q(j, k), t2 = Q(j, k + 1);
+				Q(j, k) = cs * t1 + sn * t2;
+				Q(j, k + 1) = -sn * t1 + cs * t2;
+			}
+			H(k + 1, k) = 0.0;
+		}
 	};
 
 } // namespace MML
-- 
2.43.0


From a9ffb0bc828bfb777c7885fd9697fe77682785f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:22 +0000
Subject: [PATCH 012/188] fix: triangular/Hessenberg/diagonal tests read
 outside non-square matrices

---
 mml/core/MatrixUtils.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/core/MatrixUtils.h b/mml/core/MatrixUtils.h
index bf90333..65314ea 100644
--- a/mml/core/MatrixUtils.h
+++ b/mml/core/MatrixUtils.h
@@ -47,7 +47,7 @@ namespace MML
 		{
 			int n = H.rows();
 			for (int i = 2; i < n; i++)
-				for (int j = 0; j < i - 1; j++)
+				for (int j = 0; j < i - 1 && j < H.cols(); j++)
 					if (std::abs(H(i, j)) > tol)
 						return false;
 			return true;
@@ -65,7 +65,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 1; i < n; i++)
-				for (int j = 0; j < i; j++)
+				for (int j = 0; j < i && j < A.cols(); j++)
 					if (std::abs(A(i, j)) > tol)
 						return false;
 			return true;
@@ -83,7 +83,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 0; i < n; i++)
-				for (int j = i + 1; j < n; j++)
+				for (int j = i + 1; j < A.cols(); j++)
 					if (std::abs(A(i, j)) > tol)
 						return false;
 			return true;
@@ -101,7 +101,7 @@ namespace MML
 		{
 			int n = A.rows();
 			for (int i = 0; i < n; i++)
-				for (int j = 0; j < n; j++)
+				for (int j = 0; j < A.cols(); j++)
 					if (i != j && std::abs(A(i, j)) > tol)
 						return false;
 			return true;
-- 
2.43.0


From e88eacc2e1d60532d5837be73bde604363069119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 013/188] fix: Hermitian test ignored the diagonal, 1x1 zero
 matrix was not nilpotent, condition number of wide matrices was infinite

---
 mml/base/BaseUtils/MatrixOps.h | 2 +-
 mml/core/MatrixUtils.h         | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/mml/base/BaseUtils/MatrixOps.h b/mml/base/BaseUtils/MatrixOps.h
index 2a12a54..69e867e 100644
--- a/mml/base/BaseUtils/MatrixOps.h
+++ b/mml/base/BaseUtils/MatrixOps.h
@@ -424,7 +424,7 @@ namespace MML
 				throw MatrixDimensionError("IsHermitian - matrix must be square", mat.rows(), mat.cols(), -1, -1);
 
 			for (int i = 0; i < mat.rows(); i++)
-				for (int j = i + 1; j < mat.cols(); j++)
+				for (int j = i; j < mat.cols(); j++)
 					if (mat[i][j] != std::conj(mat[j][i]))
 						return false;
 			return true;
diff --git a/mml/core/MatrixUtils.h b/mml/core/MatrixUtils.h
index 65314ea..97a3a60 100644
--- a/mml/core/MatrixUtils.h
+++ b/mml/core/MatrixUtils.h
@@ -262,6 +262,8 @@ namespace MML
 		Matrix<Type> SimilarityTransform(const Matrix<Type>& Q, const Matrix<Type>& A)
 		{
 			int n = A.rows();
+			if (A.cols() != n || Q.rows() != n || Q.cols() != n)
+				throw MatrixDimensionError("SimilarityTransform - matrices must be square and of equal size", Q.rows(), Q.cols(), n, A.cols());
 			Matrix<Type> temp(n, n);
 			Matrix<Type> result(n, n);
 			
@@ -301,6 +303,8 @@ namespace MML
 				throw MatrixDimensionError("IsNilpotent - must be square matrix", N, A.cols(), -1, -1);
 			
 			Matrix<Type> M = A;
+			if (M.isZero())
+				return true;
 			for (int k = 1; k < N; k++)
 			{
 				M = A * M;
@@ -537,7 +541,7 @@ namespace MML
 			result.rank = svd.Rank(tol);
 			
 			// Condition number = σ_max / σ_min
-			int n = result.singularValues.size();
+			int n = std::min(A.rows(), A.cols());
 			if (n > 0 && result.singularValues[n-1] > 0)
 				result.conditionNumber = result.singularValues[0] / result.singularValues[n-1];
 			else
@@ -610,7 +614,7 @@ namespace MML
 		{
 			SVDecompositionSolver<Real> svd(A);
 			Vector<Real> w = svd.getW();
-			int n = w.size();
+			int n = std::min(A.rows(), A.cols()); // a wide matrix has only rows() singular values, the rest of w is padding
 			
 			if (n == 0 || w[n-1] <= 0.0)
 				return std::numeric_limits<Real>::infinity();
-- 
2.43.0


From 49b28081502ce4aa9652a4e03993fc51b9d80265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 014/188] fix: zero matrix was classified as indefinite; ragged
 vector lists overran the built matrix

---
 mml/algorithms/MatrixAlg.h     |  8 +++-----
 mml/base/BaseUtils/MatrixOps.h | 10 ++++++++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/mml/algorithms/MatrixAlg.h b/mml/algorithms/MatrixAlg.h
index a247f17..d4f3318 100644
--- a/mml/algorithms/MatrixAlg.h
+++ b/mml/algorithms/MatrixAlg.h
@@ -137,7 +137,7 @@ namespace MML {
 
 			if (numNegative == 0 && numZero == 0)
 				return Definiteness::PositiveDefinite;
-			else if (numNegative == 0 && numPositive > 0)
+			else if (numNegative == 0) // includes the zero matrix
 				return Definiteness::PositiveSemiDefinite;
 			else if (numPositive == 0 && numZero == 0)
 				return Definiteness::NegativeDefinite;
@@ -219,13 +219,11 @@ namespace MML {
 		/// @param tol Tolerance for eigenvalue comparison
 		/// @return true if A is negative semi-definite (includes negative definite)
 		inline bool IsNegativeSemiDefinite(const MatrixSym<Real>& A, Real tol = 1e-10) {
-			auto def = ClassifyDefiniteness(A, tol);
-			return def == Definiteness::NegativeDefinite || def == Definiteness::NegativeSemiDefinite;
+			return IsPositiveSemiDefinite(-A, tol);
 		}
 
 		inline bool IsNegativeSemiDefinite(const Matrix<Real>& A, Real tol = 1e-10) {
-			auto def = ClassifyDefiniteness(A, tol);
-			return def == Definiteness::NegativeDefinite || def == Definiteness::NegativeSemiDefinite;
+			return IsPositiveSemiDefinite(-A, tol);
 		}
 
 		/// Check if matrix is indefinite (has both positive and negative eigenvalues).
diff --git a/mml/base/BaseUtils/MatrixOps.h b/mml/base/BaseUtils/MatrixOps.h
index 69e867e..1d1be53 100644
--- a/mml/base/BaseUtils/MatrixOps.h
+++ b/mml/base/BaseUtils/MatrixOps.h
@@ -78,6 +78,11 @@ namespace MML
 		template<class Type> 
 		static Matrix<Type> MatrixFromVectorsInRows(const std::vector<Vector<Type>>& b)
 		{
+			if (b.empty())
+				throw MatrixDimensionError("MatrixFromVectorsInRows - no vectors given", 0, 0, -1, -1);
+			for (const auto& v : b)
+				if (v.size() != b[0].size())
+					throw MatrixDimensionError("MatrixFromVectorsInRows - vectors must have equal size", (int)b.size(), (int)b[0].size(), -1, (int)v.size());
 			Matrix<Type> ret((int)b.size(), (int)b[0].size());
 			for (int i = 0; i < b.size(); i++)
 				for (int j = 0; j < b[i].size(); j++)
@@ -92,6 +97,11 @@ namespace MML
 		template<class Type> 
 		static Matrix<Type> MatrixFromVectorsInColumns(const std::vector<Vector<Type>>& b)
 		{
+			if (b.empty())
+				throw MatrixDimensionError("MatrixFromVectorsInColumns - no vectors given", 0, 0, -1, -1);
+			for (const auto& v : b)
+				if (v.size() != b[0].size())
+					throw MatrixDimensionError("MatrixFromVectorsInColumns - vectors must have equal size", (int)b[0].size(), (int)b.size(), (int)v.size(), -1);
 			Matrix<Type> ret((int)b[0].size(), (int)b.size());
 			for (int i = 0; i < b.size(); i++)
 				for (int j = 0; j < b[i].size(); j++)
-- 
2.43.0


From aedb430179e194a3f959bf7fc77da4113a379e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:11 +0000
Subject: [PATCH 015/188] fix: ReduceToHessenberg read outside non-square
 matrices

---
 mml/algorithms/EigenSolverHelpers.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/algorithms/EigenSolverHelpers.h b/mml/algorithms/EigenSolverHelpers.h
index 6dead14..d50088c 100644
--- a/mml/algorithms/EigenSolverHelpers.h
+++ b/mml/algorithms/EigenSolverHelpers.h
@@ -65,6 +65,8 @@ namespace MML {
 		/// MatrixAlg::ReduceToHessenberg() delegates to this function.
 		static HessenbergResult ReduceToHessenberg(const Matrix<Real>& A) {
 			int n = A.rows();
+			if (A.cols() != n)
+				throw MatrixDimensionError("ReduceToHessenberg - matrix must be square", n, A.cols(), -1, -1);
 			HessenbergResult result(n);
 
 			if (n <= 2) {
-- 
2.43.0


From 7f1af067f8d89a6ab314a5a6f4fab8184e36c2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:13 +0000
Subject: [PATCH 016/188] fix: Polynom: product with an empty polynomial,
 division by a longer divisor, Derive of an empty polynomial

---
 mml/base/Polynom.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mml/base/Polynom.h b/mml/base/Polynom.h
index f114c3c..e4705bf 100644
--- a/mml/base/Polynom.h
+++ b/mml/base/Polynom.h
@@ -316,6 +316,8 @@ namespace MML
 		Polynom operator*(const Polynom& b) const
 		{
 			Polynom result;
+			if (_vecCoef.empty() || b._vecCoef.empty())
+				return result;
 
 			int n = (int)(_vecCoef.size() + b._vecCoef.size() - 1);
 			result._vecCoef.resize(n);
@@ -396,7 +398,10 @@ namespace MML
 				throw DivisionByZeroError("poldiv: divide by zero polynomial");
 
 			Polynom r = u;
-			Polynom q(u.degree());
+			if (n < nv - 1)
+				r.SetDegree(nv - 1);
+			Polynom q;
+			q.SetDegree(n);
 			for (k = n - nv; k >= 0; k--)
 			{
 				q[k] = r[nv + k] / v[nv];
@@ -434,7 +439,10 @@ namespace MML
 			int  nd = pd.size() - 1;
 			Real cnst = 1.0;
 
-			pd[0] = (*this)[nc];
+			if (nd < 0)
+				return;
+
+			pd[0] = isNull() ? Real(0) : (*this)[nc];
 			for (j = 1; j < nd + 1; j++)
 				pd[j] = 0.0;
 
-- 
2.43.0


From 252bd1a88c2b3d062e46eb54b72b57d87515ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:58 +0000
Subject: [PATCH 017/188] fix: polynomial root finders: zero roots,
 cancellation and scale-dependent convergence tests

---
 .../RootFinding/RootFindingPolynoms.h         | 115 +++++++++++++-----
 1 file changed, 87 insertions(+), 28 deletions(-)

diff --git a/mml/algorithms/RootFinding/RootFindingPolynoms.h b/mml/algorithms/RootFinding/RootFindingPolynoms.h
index 2a6b7e7..4e20962 100644
--- a/mml/algorithms/RootFinding/RootFindingPolynoms.h
+++ b/mml/algorithms/RootFinding/RootFindingPolynoms.h
@@ -54,7 +54,7 @@ namespace MML {
       Real sqrtD = std::sqrt(D);
       Real q = Real(-0.5) * (b + std::copysign(sqrtD, b));
       x1 = q / a;
-      x2 = c / q;
+      x2 = (q == Real(0)) ? Real(0) : c / q;
       return 2;
     } else {
       Complex sqrtD = std::sqrt(Complex(D));
@@ -76,8 +76,14 @@ namespace MML {
 
     Complex D = b * b - Real(4.0) * a * c;
     Complex sqrtD = std::sqrt(D);
-    x1 = (-b + sqrtD) / (Real(2.0) * a);
-    x2 = (-b - sqrtD) / (Real(2.0) * a);
+    // Compute the larger root directly and the smaller one from the product of the
+    // roots (c/a), to avoid catastrophic cancellation in -b +/- sqrt(D)
+    bool minusIsLarger = std::real(std::conj(b) * sqrtD) >= 0;
+    Complex q = Real(-0.5) * (minusIsLarger ? b + sqrtD : b - sqrtD);
+    Complex larger  = q / a;
+    Complex smaller = (q == Complex(0)) ? Complex(0) : c / q;
+    x1 = minusIsLarger ? smaller : larger;
+    x2 = minusIsLarger ? larger : smaller;
   }
 
   /// Solve cubic equation: a*x^3 + b*x^2 + c*x + d = 0 (Cardano's formula)
@@ -104,8 +110,13 @@ namespace MML {
 
     if (D >= 0) // Complex or duplicate roots
     {
-      Real S = std::cbrt(R + std::sqrt(D));
-      Real T = std::cbrt(R - std::sqrt(D));
+      // S and T are cbrt(R +/- sqrt(D)) with S * T = -Q; the one without cancellation
+      // is computed directly and the other from the product
+      Real sqrtD = std::sqrt(D);
+      Real larger  = std::cbrt(R >= 0 ? R + sqrtD : R - sqrtD);
+      Real smaller = (larger == Real(0)) ? Real(0) : -Q / larger;
+      Real S = (R >= 0) ? larger : smaller;
+      Real T = (R >= 0) ? smaller : larger;
 
       x1 = -A / Real(3.0) + (S + T); // Real root
       x2 = -A / Real(3.0) - (S + T) / Real(2.0) +
@@ -155,7 +166,10 @@ namespace MML {
              Real(3.0) * AA * AA / Real(256.0);
 
     // Special case: biquadratic (Q ≈ 0) -> solve t^2 + P t + R = 0 where t = y^2
-    if (std::abs(Q) <= Constants::Eps) {
+    // (the threshold is relative: y scales like the roots, so P ~ y^2, Q ~ y^3, R ~ y^4)
+    Real scale = std::max(std::abs(A) / Real(4.0),
+                          std::max(std::sqrt(std::abs(P)), std::sqrt(std::sqrt(std::abs(R)))));
+    if (std::abs(Q) <= Constants::Eps * POW3(scale)) {
       Complex t1, t2;
       SolveQuadratic(Complex(Real(1.0)), Complex(P), Complex(R), t1, t2);
 
@@ -206,6 +220,43 @@ namespace MML {
     * POLYNOMIAL ROOT FINDING METHODS (General Degree)
     ***************************************************************************************************/
 
+		namespace Detail {
+			/// Normalize a polynomial of degree n >= 1: monic, with the variable scaled by a power of two
+			/// such that max_i |a_i / binomial(n,i)|^(1/(n-i)), a measure of the size of the roots, lies in [1/2, 1].
+			/// @param poly    Polynomial with non-zero leading coefficient
+			/// @param scaled  Output coefficients of the normalized polynomial
+			/// @return Scale: the roots of poly are the roots of the normalized polynomial times this value
+			/// @throws RootFindingError if the leading coefficient is zero
+			inline Real NormalizePolynom(const PolynomReal& poly, Vector<Real>& scaled) {
+				int n = poly.degree();
+				Real lead = poly[n];
+				if (lead == Real(0))
+					throw RootFindingError("Polynomial leading coefficient is zero");
+
+				Real size = 0, binomial = 1;
+				for (int i = n - 1; i >= 0; i--) {
+					binomial *= Real(i + 1) / Real(n - i);
+					size = std::max(size, std::pow(std::abs(poly[i] / lead) / binomial, Real(1) / Real(n - i)));
+				}
+
+				Real scale = 1;
+				if (size > 0) {
+					int exponent;
+					std::frexp(size, &exponent);
+					scale = std::ldexp(Real(1), exponent);
+				}
+
+				scaled.Resize(n + 1);
+				Real power = 1;
+				scaled[n] = 1;
+				for (int i = n - 1; i >= 0; i--) {
+					power *= scale;
+					scaled[i] = poly[i] / lead / power;
+				}
+				return scale;
+			}
+		} // namespace Detail
+
 		/// Find all roots of a polynomial using Laguerre's method.
 		///
 		/// Laguerre's method is a globally convergent iterative method for polynomial root finding.
@@ -224,9 +275,11 @@ namespace MML {
 				return roots;
 
 			// Work with coefficient array (not Polynom object due to operator[] template issues)
+			Vector<Real> scaled;
+			Real rootScale = Detail::NormalizePolynom(poly, scaled);
 			Vector<Complex> workCoeffs(degree + 1);
 			for (int i = 0; i <= degree; i++)
-				workCoeffs[i] = std::complex<Real>(poly[i], 0.0);
+				workCoeffs[i] = std::complex<Real>(scaled[i], 0.0);
 
 			// Find roots one by one with deflation
 			for (int currentDegree = degree; currentDegree >= 1; currentDegree--) {
@@ -240,15 +293,18 @@ namespace MML {
 					Complex p = workCoeffs[currentDegree];
 					Complex dp = std::complex<Real>(0.0);
 					Complex d2p = std::complex<Real>(0.0);
+					Real bound = std::abs(p);
 
 					for (int j = currentDegree - 1; j >= 0; j--) {
 						d2p = d2p * x + dp;
 						dp = dp * x + p;
 						p = p * x + workCoeffs[j];
+						bound = bound * std::abs(x) + std::abs(p);
 					}
 					d2p *= Real(2.0);
 
-					if (std::abs(p) < tol) {
+					// p is zero to within the rounding error of its evaluation
+					if (std::abs(p) <= Constants::Eps * bound) {
 						converged = true;
 						break;
 					}
@@ -264,6 +320,8 @@ namespace MML {
 					Complex denom = (std::abs(denom1) > std::abs(denom2)) ? denom1 : denom2;
 
 					Complex dx = n / denom;
+					if (iter % 10 == 9)
+						dx *= Real(0.7); // breaks the (rare) limit cycles
 					x -= dx;
 
 					if (std::abs(dx) < tol) {
@@ -289,7 +347,7 @@ namespace MML {
 						x -= p / dp;
 				}
 
-				roots.push_back(x);
+				roots.push_back(x * rootScale);
 
 				// Deflate polynomial
 				if (currentDegree > 1) {
@@ -318,11 +376,18 @@ namespace MML {
 			if (degree <= 0)
 				return roots;
 
+			Real leadingCoef = poly[degree];
+			if (std::abs(leadingCoef) < PrecisionValues<Real>::PolynomialCoeffZeroThreshold)
+				throw RootFindingError("Polynomial leading coefficient is zero");
+
 			if (degree == 1) {
 				roots.push_back(std::complex<Real>(-poly[0] / poly[1], 0.0));
 				return roots;
 			}
 
+			Vector<Real> scaled;
+			Real rootScale = Detail::NormalizePolynom(poly, scaled);
+
 			// Construct companion matrix
 			Matrix<Real> companion(degree, degree);
 			for (int i = 0; i < degree; i++)
@@ -334,12 +399,8 @@ namespace MML {
 				companion[i][i + 1] = 1.0;
 
 			// Last row: -a_0/a_n, -a_1/a_n, ..., -a_{n-1}/a_n
-			Real leadingCoef = poly[degree];
-			if (std::abs(leadingCoef) < PrecisionValues<Real>::PolynomialCoeffZeroThreshold)
-				throw RootFindingError("Polynomial leading coefficient is zero");
-
 			for (int i = 0; i < degree; i++)
-				companion[degree - 1][i] = -poly[i] / leadingCoef;
+				companion[degree - 1][i] = -scaled[i];
 
 			// Solve eigenvalue problem
 			auto eigenResult = EigenSolver::Solve(companion, 1e-10, 1000);
@@ -349,7 +410,7 @@ namespace MML {
 
 			// Extract eigenvalues as roots
 			for (const auto& eval : eigenResult.eigenvalues)
-				roots.push_back(std::complex<Real>(eval.real, eval.imag));
+				roots.push_back(std::complex<Real>(eval.real, eval.imag) * rootScale);
 
 			return roots;
 		}
@@ -372,9 +433,9 @@ namespace MML {
 				return roots;
 
 			// Work with coefficient array a[0..n] where poly = a[0] + a[1]x + ... + a[n]x^n
-			Vector<Real> a(n + 1);
-			for (int i = 0; i <= n; i++)
-				a[i] = poly[i];
+			// (normalized so that the convergence tests are relative to the size of the roots)
+			Vector<Real> a;
+			Real rootScale = Detail::NormalizePolynom(poly, a);
 
 			while (n >= 2) {
 				// Initial guess for quadratic factor x² + u*x + v
@@ -386,8 +447,8 @@ namespace MML {
 				if (initialRoots.size() >= 2 && n == poly.degree()) {
 					Complex r1 = initialRoots[roots.size()];
 					Complex r2 = (roots.size() + 1 < initialRoots.size()) ? initialRoots[roots.size() + 1] : std::conj(r1);
-					u = -(r1 + r2).real();
-					v = (r1 * r2).real();
+					u = -(r1 + r2).real() / rootScale;
+					v = (r1 * r2).real() / (rootScale * rootScale);
 				}
 
 				// Bairstow's method iteration
@@ -461,12 +522,12 @@ namespace MML {
 				Real discriminant = u * u - Real(4.0) * v;
 				if (discriminant >= 0) {
 					Real sqrtDisc = std::sqrt(discriminant);
-					roots.push_back(std::complex<Real>((-u + sqrtDisc) / Real(2.0), 0.0));
-					roots.push_back(std::complex<Real>((-u - sqrtDisc) / Real(2.0), 0.0));
+					roots.push_back(std::complex<Real>((-u + sqrtDisc) / Real(2.0), 0.0) * rootScale);
+					roots.push_back(std::complex<Real>((-u - sqrtDisc) / Real(2.0), 0.0) * rootScale);
 				} else {
 					Real sqrtDisc = std::sqrt(-discriminant);
-					roots.push_back(std::complex<Real>(-u / Real(2.0), sqrtDisc / Real(2.0)));
-					roots.push_back(std::complex<Real>(-u / Real(2.0), -sqrtDisc / Real(2.0)));
+					roots.push_back(std::complex<Real>(-u / Real(2.0), sqrtDisc / Real(2.0)) * rootScale);
+					roots.push_back(std::complex<Real>(-u / Real(2.0), -sqrtDisc / Real(2.0)) * rootScale);
 				}
 
 				// Deflate: new polynomial is Q(x) with coefficients b[0], b[1], ..., b[n-2]
@@ -480,10 +541,8 @@ namespace MML {
 			}
 
 			// Handle remaining linear term: a[0] + a[1]*x = 0
-			if (n == 1) {
-				if (std::abs(a[1]) > PrecisionValues<Real>::PolynomialCoeffZeroThreshold)
-					roots.push_back(std::complex<Real>(-a[0] / a[1], 0.0));
-			}
+			if (n == 1)
+				roots.push_back(std::complex<Real>(-a[0] / a[1] * rootScale, 0.0));
 
 			return roots;
 		} // BairstowRoots
-- 
2.43.0


From 4179e97c377f5fa181034f13672b6d8bcc0c1c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:23 +0000
Subject: [PATCH 018/188] fix: scalar root finding: false convergence of secant
 and Ridders, failure status, bracket vectors resized, non-finite bracket in
 Newton

---
 .../RootFinding/RootFindingBracketing.h       | 10 +++++
 .../RootFinding/RootFindingMethods.h          | 45 ++++++++++++++++++-
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/RootFinding/RootFindingBracketing.h b/mml/algorithms/RootFinding/RootFindingBracketing.h
index 1998ab0..d4571d4 100644
--- a/mml/algorithms/RootFinding/RootFindingBracketing.h
+++ b/mml/algorithms/RootFinding/RootFindingBracketing.h
@@ -166,6 +166,8 @@ namespace MML {
 				}
 				fp = fc;
 			}
+			xb1.Resize(numRoots, true);
+			xb2.Resize(numRoots, true);
 			return numRoots;
 		}
 
@@ -267,11 +269,13 @@ namespace MML {
 
 			// Check for non-finite initial values using shared validation helper
 			if (!IsFunctionValueValid(f) || !IsFunctionValueValid(fmid)) {
+				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Non-finite function values in FindRootBisection";
 				return result;
 			}
 
 			if (f * fmid >= 0.0) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for bisection in FindRootBisection";
 				return result;
 			}
@@ -297,6 +301,7 @@ namespace MML {
 					result.function_value = fmid;
 					result.iterations_used = j + 1;
 					result.achieved_tolerance = std::abs(dx);
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootBisection iteration";
 					return result;
 				}
@@ -323,6 +328,7 @@ namespace MML {
 			result.function_value = func(rtb);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Too many bisections in FindRootBisection";
 			return result;
 		}
@@ -404,10 +410,12 @@ namespace MML {
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
+				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Non-finite function values in FindRootFalsePosition";
 				return result;
 			}
 			if (f1 * f2 >= 0.0) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for false position";
 				return result;
 			}
@@ -429,6 +437,7 @@ namespace MML {
 					result.root = rtf;
 					result.function_value = f;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootFalsePosition";
 					return result;
 				}
@@ -460,6 +469,7 @@ namespace MML {
 			result.function_value = func(rtf);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(x2 - x1);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Maximum number of iterations exceeded in FindRootFalsePosition";
 			return result;
 		}
diff --git a/mml/algorithms/RootFinding/RootFindingMethods.h b/mml/algorithms/RootFinding/RootFindingMethods.h
index 65d2555..f22bc9c 100644
--- a/mml/algorithms/RootFinding/RootFindingMethods.h
+++ b/mml/algorithms/RootFinding/RootFindingMethods.h
@@ -45,6 +45,14 @@ namespace MML {
 		static RootFindingResult FindRootBrent(const IRealFunction& func, Real x1, Real x2,
 											   const RootFindingConfig& config);
 
+		namespace Detail {
+			/// True if the function is finite at both points and changes sign (or vanishes) between them.
+			inline bool ChangesSign(const IRealFunction& func, Real a, Real b) {
+				Real fa = func(a), fb = func(b);
+				return IsFunctionValueValid(fa) && IsFunctionValueValid(fb) && fa * fb <= 0.0;
+			}
+		} // namespace Detail
+
 		/*********************************************************************/
 		/*****           Newton-Raphson method                           *****/
 		/*********************************************************************/
@@ -145,7 +153,13 @@ namespace MML {
 
 			Real f1 = func(x1);
 			Real f2 = func(x2);
+			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
+				result.status = AlgorithmStatus::NumericalInstability;
+				result.error_message = "Non-finite function values in FindRootNewton";
+				return result;
+			}
 			if (f1 * f2 > 0.0) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for Newton-Raphson method";
 				return result;
 			}
@@ -163,6 +177,7 @@ namespace MML {
 					result.root = rtn;
 					result.function_value = f;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite derivative in FindRootNewton";
 					return result;
 				}
@@ -171,6 +186,7 @@ namespace MML {
 					result.root = rtn;
 					result.function_value = f;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Zero or near-zero derivative in FindRootNewton";
 					return result;
 				}
@@ -182,6 +198,7 @@ namespace MML {
 					result.root = rtn;
 					result.function_value = f;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite step in FindRootNewton";
 					return result;
 				}
@@ -198,6 +215,7 @@ namespace MML {
 					result.function_value = func(rtn);
 					result.iterations_used = j + 1;
 					result.achieved_tolerance = std::abs(dx);
+					result.status = AlgorithmStatus::AlgorithmSpecificFailure;
 					result.error_message = "Jumped out of brackets in FindRootNewton";
 					return result;
 				}
@@ -216,6 +234,7 @@ namespace MML {
 			result.function_value = func(rtn);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Maximum number of iterations exceeded in FindRootNewton";
 			return result;
 		}
@@ -301,11 +320,13 @@ namespace MML {
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
+				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Non-finite function values in FindRootSecant";
 				return result;
 			}
 
 			if (f1 * f2 > 0.0) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for Secant method";
 				return result;
 			}
@@ -325,6 +346,7 @@ namespace MML {
 					result.root = x2;
 					result.function_value = f2;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite step in FindRootSecant";
 					return result;
 				}
@@ -338,6 +360,7 @@ namespace MML {
 					result.root = x2;
 					result.function_value = f2;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootSecant";
 					return result;
 				}
@@ -347,10 +370,14 @@ namespace MML {
 							  << ", f(x)=" << f2 << ", dx=" << dx << std::endl;
 				}
 
-				if (std::abs(dx) < config.tolerance) {
+				// A short step alone does not prove convergence (the chord may just be steep),
+				// so require that the root really lies within the tolerance
+				Real acc = std::max(config.tolerance, 4 * Constants::Eps * std::abs(x2));
+				if (std::abs(dx) < config.tolerance && (f2 == 0.0 || Detail::ChangesSign(func, x2 - acc, x2 + acc))) {
 					result.root = x2;
 					result.function_value = f2;
 					result.iterations_used = j + 1;
+					result.achieved_tolerance = std::abs(dx);
 					result.converged = true;
 					result.achieved_tolerance = std::abs(dx);
 					return result;
@@ -361,6 +388,7 @@ namespace MML {
 			result.function_value = f2;
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(dx);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Maximum number of iterations exceeded in FindRootSecant";
 			return result;
 		}
@@ -454,10 +482,12 @@ namespace MML {
 			Real f2 = func(x2);
 
 			if (!IsFunctionValueValid(f1) || !IsFunctionValueValid(f2)) {
+				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Non-finite function values in FindRootRidders";
 				return result;
 			}
 			if (f1 * f2 >= 0.0) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for Ridders method";
 				return result;
 			}
@@ -473,6 +503,7 @@ namespace MML {
 					result.root = ans;
 					result.function_value = fm;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootRidders";
 					return result;
 				}
@@ -489,7 +520,11 @@ namespace MML {
 
 				Real xnew = xm + (xm - x1) * ((f1 >= f2 ? 1.0 : -1.0) * fm / s);
 
-				if (std::abs(xnew - ans) <= config.tolerance) {
+				// Two close estimates alone do not prove convergence, so require that the
+				// root really lies within the tolerance (otherwise keep shrinking the bracket)
+				if (std::abs(xnew - ans) <= config.tolerance &&
+						Detail::ChangesSign(func, std::max(std::min(x1, x2), ans - config.tolerance),
+																std::min(std::max(x1, x2), ans + config.tolerance))) {
 					result.root = ans;
 					result.function_value = func(ans);
 					result.iterations_used = j + 1;
@@ -505,6 +540,7 @@ namespace MML {
 					result.root = ans;
 					result.function_value = fnew;
 					result.iterations_used = j + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootRidders";
 					return result;
 				}
@@ -551,6 +587,7 @@ namespace MML {
 			result.function_value = func(ans);
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(x2 - x1);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Maximum number of iterations exceeded in FindRootRidders";
 			return result;
 		}
@@ -660,10 +697,12 @@ namespace MML {
 			Real fa = func(a), fb = func(b), fc, p, q, r, s, tol1, xm;
 
 			if (!IsFunctionValueValid(fa) || !IsFunctionValueValid(fb)) {
+				result.status = AlgorithmStatus::NumericalInstability;
 				result.error_message = "Non-finite function values in FindRootBrent";
 				return result;
 			}
 			if (fa * fb >= 0.0) {
+				result.status = AlgorithmStatus::InvalidInput;
 				result.error_message = "Root must be bracketed for Brent method";
 				return result;
 			}
@@ -745,6 +784,7 @@ namespace MML {
 					result.root = b;
 					result.function_value = fb;
 					result.iterations_used = iter + 1;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.error_message = "Non-finite function value in FindRootBrent";
 					return result;
 				}
@@ -754,6 +794,7 @@ namespace MML {
 			result.function_value = fb;
 			result.iterations_used = maxIter;
 			result.achieved_tolerance = std::abs(xm);
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
 			result.error_message = "Maximum number of iterations exceeded in FindRootBrent";
 			return result;
 		}
-- 
2.43.0


From 25bb0761bd74b5b4febbad72d95f7708d568c2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:55 +0000
Subject: [PATCH 019/188] fix: 1-D quadrature claimed convergence for
 non-finite integrands and reported zero error when refinement was exhausted

---
 mml/core/Integration/GaussKronrod.h  |  6 +++---
 mml/core/Integration/Integration1D.h | 14 ++++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/mml/core/Integration/GaussKronrod.h b/mml/core/Integration/GaussKronrod.h
index 059364f..151ed0e 100644
--- a/mml/core/Integration/GaussKronrod.h
+++ b/mml/core/Integration/GaussKronrod.h
@@ -135,7 +135,7 @@ namespace MML {
 
 			Real error = std::abs(result_kronrod - result_gauss);
 
-			return GKResult(result_kronrod, error, 15, true);
+			return GKResult(result_kronrod, error, 15, std::isfinite(result_kronrod));
 		}
 
 		/*************************************************************************/
@@ -226,7 +226,7 @@ namespace MML {
 			result_gauss *= half_length;
 			result_kronrod *= half_length;
 
-			return GKResult(result_kronrod, std::abs(result_kronrod - result_gauss), 21, true);
+			return GKResult(result_kronrod, std::abs(result_kronrod - result_gauss), 21, std::isfinite(result_kronrod));
 		}
 
 		/*************************************************************************/
@@ -332,7 +332,7 @@ namespace MML {
 			result_gauss *= half_length;
 			result_kronrod *= half_length;
 
-			return GKResult(result_kronrod, std::abs(result_kronrod - result_gauss), 31, true);
+			return GKResult(result_kronrod, std::abs(result_kronrod - result_gauss), 31, std::isfinite(result_kronrod));
 		}
 
 		/*************************************************************************/
diff --git a/mml/core/Integration/Integration1D.h b/mml/core/Integration/Integration1D.h
index e86984d..1919b41 100644
--- a/mml/core/Integration/Integration1D.h
+++ b/mml/core/Integration/Integration1D.h
@@ -95,7 +95,7 @@ namespace MML
 	static IntegrationResult IntegrateTrap(const IRealFunction& func, Real a, Real b,
 																		 const Real eps = Defaults::TrapezoidIntegrationEPS)	{
 		int		j;
-		Real	currSum, oldSum = 0.0;
+		Real	currSum, oldSum = 0.0, prevSum = 0.0;
 
 		TrapIntegrator t(func, a, b);
 
@@ -113,10 +113,11 @@ namespace MML
 				}
 			}
 
+			prevSum = oldSum;
 			oldSum = currSum;
 		}
 		// Did not converge within max iterations
-		Real final_error = std::abs(currSum - oldSum);
+		Real final_error = std::abs(currSum - prevSum);
 		return IntegrationResult(currSum, final_error, j, false);
 	}
 
@@ -134,7 +135,7 @@ namespace MML
 																			 const Real eps = Defaults::SimpsonIntegrationEPS)
 	{
 		int j;
-		Real currSum, st, ost = 0.0, oldSum = 0.0;
+		Real currSum, st, ost = 0.0, oldSum = 0.0, prevSum = 0.0;
 
 		TrapIntegrator t(func, a, b);
 
@@ -154,11 +155,12 @@ namespace MML
 				}
 			}
 
+			prevSum = oldSum;
 			oldSum = currSum;
 			ost = st;
 		}
 		// Did not converge within max iterations
-		Real final_error = std::abs(currSum - oldSum);
+		Real final_error = std::abs(currSum - prevSum);
 		return IntegrationResult(currSum, final_error, j, false);
 	}
 
@@ -287,7 +289,7 @@ namespace MML
 				
 				// Check for convergence (with absolute tolerance floor for near-zero integrals)
 				const Real abs_tol = eps * std::numeric_limits<Real>::epsilon();
-				if (std::abs(dss) <= eps * std::abs(ss) + abs_tol)
+				if (std::isfinite(ss) && std::abs(dss) <= eps * std::abs(ss) + abs_tol)
 				{
 					return IntegrationResult(ss, std::abs(dss), j + 1, true);
 				}
@@ -372,7 +374,7 @@ namespace MML
 		// Return IntegrationResult for API consistency
 		// Note: Gauss quadrature has no built-in error estimate (non-adaptive)
 		// iterations=1 indicates single-pass evaluation (10 function calls)
-		return IntegrationResult(result, 0.0, 1, true);
+		return IntegrationResult(result, 0.0, 1, std::isfinite(result));
 	}
 
 	/**
-- 
2.43.0


From 153aa2d5e90950bf357d1baa9c18388e19ad2aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 020/188] fix: Gauss-Laguerre nodes: absolute Newton tolerance
 could not be met for large nodes

---
 mml/core/Integration/GaussianQuadrature.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/Integration/GaussianQuadrature.h b/mml/core/Integration/GaussianQuadrature.h
index 3a8464e..e56f8ae 100644
--- a/mml/core/Integration/GaussianQuadrature.h
+++ b/mml/core/Integration/GaussianQuadrature.h
@@ -183,7 +183,7 @@ namespace MML
 				
 				Real z1 = z;
 				z = z1 - p1 / pp;
-				if (std::abs(z - z1) <= EPS) break;
+				if (std::abs(z - z1) <= EPS * std::max(static_cast<Real>(1.0), std::abs(z))) break;
 			}
 			if (its >= MAXIT)
 				throw IntegrationTooManySteps("GaussLaguerre: too many iterations", MAXIT);
-- 
2.43.0


From 22f9e15415cc9399ce48e94698cd35177a45eb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 021/188] fix: open Romberg integration claimed convergence for
 infinite sums

---
 mml/core/Integration/IntegrationImproper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/Integration/IntegrationImproper.h b/mml/core/Integration/IntegrationImproper.h
index 9ebdd23..fafc748 100644
--- a/mml/core/Integration/IntegrationImproper.h
+++ b/mml/core/Integration/IntegrationImproper.h
@@ -184,7 +184,7 @@ namespace MML
 					ss += dss;
 				}
 				
-				if (std::abs(dss) <= eps * std::abs(ss) || (ss == 0.0 && dss == 0.0))
+				if (std::isfinite(ss) && (std::abs(dss) <= eps * std::abs(ss) || (ss == 0.0 && dss == 0.0)))
 					return IntegrationResult(ss, std::abs(dss), j + 1, true);
 			}
 			
-- 
2.43.0


From 633130a2be2d9df9a2c3cec84c77342f81764392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 022/188] fix: adaptive 2-D/3-D integration never reported
 convergence after subdividing and undercounted evaluations; Monte Carlo error
 estimate could be NaN or negative

---
 mml/core/Integration/Integration2DAdaptive.h |  2 +-
 mml/core/Integration/Integration3DAdaptive.h |  2 +-
 mml/core/Integration/MonteCarloIntegration.h | 10 +++++-----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mml/core/Integration/Integration2DAdaptive.h b/mml/core/Integration/Integration2DAdaptive.h
index 5e3a4e5..ecbf154 100644
--- a/mml/core/Integration/Integration2DAdaptive.h
+++ b/mml/core/Integration/Integration2DAdaptive.h
@@ -272,7 +272,7 @@ static AdaptiveResult2D IntegrateAdaptive2D_Recursive(
     Real mx = 0.5 * (x1 + x2);
     Real my = 0.5 * (y1 + y2);
 
-    AdaptiveResult2D result;
+    AdaptiveResult2D result(0.0, 0.0, cell_result.function_evals, 0, depth, true);
     result.cells_subdivided = 1;  // This cell was subdivided
 
     // Process all 4 children
diff --git a/mml/core/Integration/Integration3DAdaptive.h b/mml/core/Integration/Integration3DAdaptive.h
index d2754cd..e3dea5e 100644
--- a/mml/core/Integration/Integration3DAdaptive.h
+++ b/mml/core/Integration/Integration3DAdaptive.h
@@ -283,7 +283,7 @@ static AdaptiveResult3D IntegrateAdaptive3D_Recursive(
     Real my = 0.5 * (y1 + y2);
     Real mz = 0.5 * (z1 + z2);
 
-    AdaptiveResult3D result;
+    AdaptiveResult3D result(0.0, 0.0, cell_result.function_evals, 0, depth, true);
     result.cells_subdivided = 1;  // This cell was subdivided
 
     // Process all 8 children (2×2×2 = 8 octants)
diff --git a/mml/core/Integration/MonteCarloIntegration.h b/mml/core/Integration/MonteCarloIntegration.h
index 4ba2623..958f3de 100644
--- a/mml/core/Integration/MonteCarloIntegration.h
+++ b/mml/core/Integration/MonteCarloIntegration.h
@@ -171,14 +171,14 @@ namespace MML
 			// Compute statistics
 			Real mean = sum / n;
 			Real mean_sq = sum_sq / n;
-			Real variance = mean_sq - mean * mean;
+			Real variance = std::max(static_cast<Real>(0.0), mean_sq - mean * mean); // rounding can make it negative
 
 			// Standard error of the mean
 			Real std_error = std::sqrt(variance / n);
 
 			// Integral estimate = volume * mean
 			Real integral = volume * mean;
-			Real error = volume * std_error;
+			Real error = std::abs(volume) * std_error;
 
 			// Check convergence against target
 			bool converged =
@@ -344,11 +344,11 @@ namespace MML
 			// Compute result
 			Real mean = sum / total_strata;
 			Real mean_sq = sum_sq / total_strata;
-			Real variance = (mean_sq - mean * mean) / total_strata;
+			Real variance = std::max(static_cast<Real>(0.0), mean_sq - mean * mean) / total_strata; // rounding can make it negative
 			Real std_error = std::sqrt(variance);
 
 			Real integral = volume * mean;
-			Real error = volume * std_error;
+			Real error = std::abs(volume) * std_error;
 
 			bool converged = (std::abs(integral) < PrecisionValues<Real>::DivisionSafetyThreshold) ||
 											 (error / std::abs(integral) < PrecisionValues<Real>::DefaultToleranceStrict);
@@ -429,7 +429,7 @@ namespace MML
 			// Binomial standard error
 			Real variance = p * (1.0 - p);
 			Real std_error = std::sqrt(variance / num_samples);
-			Real error = bounding_volume * std_error;
+			Real error = std::abs(bounding_volume) * std_error;
 
 			MonteCarloResult result;
 			result.value = volume;
-- 
2.43.0


From 616466b928ed752994b5e115d59c7fa334af8056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:04 +0000
Subject: [PATCH 023/188] fix: error estimates of second and third derivatives
 used wrong stencils or powers of h

---
 mml/core/Derivation/DerivationRealFunction.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mml/core/Derivation/DerivationRealFunction.h b/mml/core/Derivation/DerivationRealFunction.h
index 75c32ad..55cda60 100644
--- a/mml/core/Derivation/DerivationRealFunction.h
+++ b/mml/core/Derivation/DerivationRealFunction.h
@@ -381,7 +381,7 @@ namespace MML
 					{
 						Real y2h = f(x + 2 * h);
 						Real ym2h = f(x - 2 * h);
-						Real f4_approx = std::abs(ym2h - 4 * ymh + 6 * y0 - 4 * yh + y2h) / h2;
+						Real f4_approx = std::abs(ym2h - 4 * ymh + 6 * y0 - 4 * yh + y2h) / (h2 * h2);
 						*error = f4_approx * h2 / 12.0 +
 						         Constants::Eps * (std::abs(ymh) + 2 * std::abs(y0) + std::abs(yh)) / h2;
 					}
@@ -428,7 +428,7 @@ namespace MML
 					{
 						Real y3h = f(x + 3 * h);
 						Real ym3h = f(x - 3 * h);
-						Real f6_approx = std::abs(ym3h - 6 * ym2h + 15 * ymh - 20 * y0 + 15 * yh - 6 * y2h + y3h) / h2;
+						Real f6_approx = std::abs(ym3h - 6 * ym2h + 15 * ymh - 20 * y0 + 15 * yh - 6 * y2h + y3h) / (h2 * h2 * h2);
 						*error = f6_approx * h2 * h2 / 90.0 +
 						         Constants::Eps * (std::abs(ym2h) + 16 * std::abs(ymh) + 30 * std::abs(y0) +
 						                           16 * std::abs(yh) + std::abs(y2h)) / (12.0 * h2);
@@ -482,7 +482,7 @@ namespace MML
 					{
 						Real y3h = f(x + 3 * h);
 						Real ym3h = f(x - 3 * h);
-						Real f5_approx = std::abs(ym3h - 3 * ym2h + 5 * ymh - 5 * yh + 3 * y2h - y3h) / h3;
+						Real f5_approx = std::abs(ym3h - 4 * ym2h + 5 * ymh - 5 * yh + 4 * y2h - y3h) / (2 * h3 * h * h);
 						*error = f5_approx * h * h / 4.0 +
 						         Constants::Eps * (std::abs(ym2h) + 2 * std::abs(ymh) + 2 * std::abs(yh) + std::abs(y2h)) / (2.0 * h3);
 					}
@@ -530,8 +530,8 @@ namespace MML
 					{
 						Real y4h = f(x + 4 * h);
 						Real ym4h = f(x - 4 * h);
-						Real f7_approx = std::abs(ym4h - 4 * ym3h + 9 * ym2h - 13 * ymh + 13 * yh - 9 * y2h + 4 * y3h - y4h) / h3;
-						*error = f7_approx * h * h * h * h / 120.0 +
+						Real f7_approx = std::abs(ym4h - 6 * ym3h + 14 * ym2h - 14 * ymh + 14 * yh - 14 * y2h + 6 * y3h - y4h) / (2 * h3 * h3 * h);
+						*error = f7_approx * 7.0 * h * h * h * h / 120.0 +
 						         Constants::Eps * (std::abs(ym3h) + 8 * std::abs(ym2h) + 13 * std::abs(ymh) +
 						                           13 * std::abs(yh) + 8 * std::abs(y2h) + std::abs(y3h)) / (8.0 * h3);
 					}
-- 
2.43.0


From f0ac95ccdbb30b635ace3b603b78f6dec094b7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:37 +0000
Subject: [PATCH 024/188] fix: default-step derivatives of rank 3/4 tensor
 fields and the NxM Jacobian did not compile when used

---
 mml/core/Derivation/DerivationTensorField.h | 50 ++++++++++-----------
 mml/core/Derivation/Jacobians.h             | 23 +++++++---
 2 files changed, 43 insertions(+), 30 deletions(-)

diff --git a/mml/core/Derivation/DerivationTensorField.h b/mml/core/Derivation/DerivationTensorField.h
index 59d5fad..8033c5d 100644
--- a/mml/core/Derivation/DerivationTensorField.h
+++ b/mml/core/Derivation/DerivationTensorField.h
@@ -57,12 +57,6 @@ namespace MML
 			return NDer1Partial(f, i, j, deriv_index, point, ScaleStep(NDer1_h, point[deriv_index]), error);
 		}
 
-		template <int N>
-		static Real NDer1Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
-		{
-			return NDer1Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer1_h, point[deriv_index]), error);
-		}
-
 		template <int N>
 		static Real NDer1Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
 		{
@@ -86,9 +80,9 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer1Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		static Real NDer1Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
 		{
-			return NDer1Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer1_h, point[deriv_index]), error);
+			return NDer1Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer1_h, point[deriv_index]), error);
 		}
 
 		template <int N>
@@ -113,6 +107,12 @@ namespace MML
 			return diff / h;
 		}
 
+		template <int N>
+		static Real NDer1Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		{
+			return NDer1Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer1_h, point[deriv_index]), error);
+		}
+
 		/********************************************************************************************************************/
 		/********                               Numerical derivatives of SECOND order                                ********/
 		/********************************************************************************************************************/
@@ -150,12 +150,6 @@ namespace MML
 			return NDer2Partial(f, i, j, deriv_index, point, ScaleStep(NDer2_h, point[deriv_index]), error);
 		}
 
-		template <int N>
-		static Real NDer2Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
-		{
-			return NDer2Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer2_h, point[deriv_index]), error);
-		}
-
 		template <int N>
 		static Real NDer2Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
 		{
@@ -185,9 +179,9 @@ namespace MML
 		}
 
 		template <int N>
-		static Real NDer2Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		static Real NDer2Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
 		{
-			return NDer2Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer2_h, point[deriv_index]), error);
+			return NDer2Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer2_h, point[deriv_index]), error);
 		}
 
 		template <int N>
@@ -217,6 +211,12 @@ namespace MML
 
 			return diff / (2 * h);
 		}
+
+		template <int N>
+		static Real NDer2Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		{
+			return NDer2Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer2_h, point[deriv_index]), error);
+		}
 		
 		/********************************************************************************************************************/
 		/********                               Numerical derivatives of FOURTH order                                ********/
@@ -262,12 +262,6 @@ namespace MML
 			return NDer4Partial(f, i, j, deriv_index, point, ScaleStep(NDer4_h, point[deriv_index]), error);
 		}
 
-		template <int N>
-		static Real NDer4Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
-		{
-			return NDer4Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer4_h, point[deriv_index]), error);
-		}
-
 		template <int N>
 		static Real NDer4Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
 		{
@@ -303,13 +297,13 @@ namespace MML
 			return (y2 + 8 * y1) / (12 * h);
 		}
 
-
 		template <int N>
-		static Real NDer4Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		static Real NDer4Partial(const ITensorField3<N>& f, int i, int j, int k, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
 		{
-			return NDer4Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer4_h, point[deriv_index]), error);
+			return NDer4Partial(f, i, j, k, deriv_index, point, ScaleStep(NDer4_h, point[deriv_index]), error);
 		}
 
+
 		template <int N>
 		static Real NDer4Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real h, Real* error = nullptr)
 		{
@@ -344,6 +338,12 @@ namespace MML
 			}
 			return (y2 + 8 * y1) / (12 * h);
 		}
+
+		template <int N>
+		static Real NDer4Partial(const ITensorField4<N>& f, int i, int j, int k, int l, int deriv_index, const VectorN<Real, N>& point, Real* error = nullptr)
+		{
+			return NDer4Partial(f, i, j, k, l, deriv_index, point, ScaleStep(NDer4_h, point[deriv_index]), error);
+		}
 	}
 }
 
diff --git a/mml/core/Derivation/Jacobians.h b/mml/core/Derivation/Jacobians.h
index bf6c4a0..b95aae3 100644
--- a/mml/core/Derivation/Jacobians.h
+++ b/mml/core/Derivation/Jacobians.h
@@ -68,11 +68,24 @@ namespace MML
 		{
 			MatrixNM<Real, M, N> jac;
 
-			for (int i = 0; i < M; ++i)
-				for (int j = 0; j < N; ++j)
-				{
-					jac(i, j) = Derivation::NDer4Partial(func, i, j, pos);
-				}
+			for (int j = 0; j < N; ++j)
+			{
+				// Fourth-order central difference, one column (deriv. variable) at a time
+				Real h = ScaleStep(NDer4_h, pos[j]);
+				VectorN<Real, N> x{ pos };
+
+				x[j] = pos[j] + h;
+				VectorN<Real, M> yh = func(x);
+				x[j] = pos[j] - h;
+				VectorN<Real, M> ymh = func(x);
+				x[j] = pos[j] + 2 * h;
+				VectorN<Real, M> y2h = func(x);
+				x[j] = pos[j] - 2 * h;
+				VectorN<Real, M> ym2h = func(x);
+
+				for (int i = 0; i < M; ++i)
+					jac(i, j) = (ym2h[i] - y2h[i] + 8 * (yh[i] - ymh[i])) / (12 * h);
+			}
 
 			return jac;
 		}
-- 
2.43.0


From 95e9da9c150e58e52eaa38b634cc7b131a2d8158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:20 +0000
Subject: [PATCH 025/188] fix: error estimates of curve and second partial
 derivatives used wrong stencils or powers of h

---
 mml/core/Derivation/DerivationParametricCurve.h | 12 ++++++------
 mml/core/Derivation/DerivationScalarFunction.h  |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mml/core/Derivation/DerivationParametricCurve.h b/mml/core/Derivation/DerivationParametricCurve.h
index fcf6a99..56bb1e6 100644
--- a/mml/core/Derivation/DerivationParametricCurve.h
+++ b/mml/core/Derivation/DerivationParametricCurve.h
@@ -96,7 +96,7 @@ namespace MML
 				VectorN<Real, N> y3h = f(t + 3 * h);
 				VectorN<Real, N> ym3h = f(t - 3 * h);
 
-				*error = std::abs((y3h - ym3h).NormL2() / 2 + 2 * (ym2h - y2h).NormL2() + 5 * (yh - ymh).NormL2() / 2) / (30 * h);
+				*error = ((y3h - ym3h) / 2 + 2 * (ym2h - y2h) + 5 * (yh - ymh) / 2).NormL2() / (30 * h);
 				*error += Constants::Eps * (y2h.NormL2() + ym2h.NormL2() + 8 * (ymh.NormL2() + yh.NormL2())) / (12 * h);
 			}
 			return (y2 + 8 * y1) / (12 * h);
@@ -189,7 +189,7 @@ namespace MML
 				// Error estimate using 4th derivative approximation
 				VectorN<Real, N> y2h = f(t + 2*h);
 				VectorN<Real, N> ym2h = f(t - 2*h);
-				Real f4_approx = (ym2h - 4.0*ymh + 6.0*y0 - 4.0*yh + y2h).NormL2() / h2;
+				Real f4_approx = (ym2h - 4.0*ymh + 6.0*y0 - 4.0*yh + y2h).NormL2() / (h2 * h2);
 				
 				*error = f4_approx * h2 / 12.0 + 
 				         Constants::Eps * (ymh.NormL2() + 2*y0.NormL2() + yh.NormL2()) / h2;
@@ -222,7 +222,7 @@ namespace MML
 				// Error estimate using 6th derivative approximation
 				VectorN<Real, N> y3h = f(t + 3*h);
 				VectorN<Real, N> ym3h = f(t - 3*h);
-				Real f6_approx = (ym3h - 6.0*ym2h + 15.0*ymh - 20.0*y0 + 15.0*yh - 6.0*y2h + y3h).NormL2() / h2;
+				Real f6_approx = (ym3h - 6.0*ym2h + 15.0*ymh - 20.0*y0 + 15.0*yh - 6.0*y2h + y3h).NormL2() / (h2 * h2 * h2);
 				
 				*error = f6_approx * h2 * h2 / 90.0 + 
 				         Constants::Eps * (ym2h.NormL2() + 16*ymh.NormL2() + 30*y0.NormL2() + 
@@ -262,7 +262,7 @@ namespace MML
 				// Error estimate using 5th derivative approximation
 				VectorN<Real, N> y3h = f(t + 3*h);
 				VectorN<Real, N> ym3h = f(t - 3*h);
-				Real f5_approx = (ym3h - 3.0*ym2h + 5.0*ymh - 5.0*yh + 3.0*y2h - y3h).NormL2() / h3;
+				Real f5_approx = (ym3h - 4.0*ym2h + 5.0*ymh - 5.0*yh + 4.0*y2h - y3h).NormL2() / (2.0 * h3 * h * h);
 				
 				*error = f5_approx * h * h / 4.0 + 
 				         Constants::Eps * (ym2h.NormL2() + 2*ymh.NormL2() + 2*yh.NormL2() + y2h.NormL2()) / (2.0 * h3);
@@ -297,9 +297,9 @@ namespace MML
 				// Error estimate using 7th derivative approximation
 				VectorN<Real, N> y4h = f(t + 4*h);
 				VectorN<Real, N> ym4h = f(t - 4*h);
-				Real f7_approx = (ym4h - 4.0*ym3h + 9.0*ym2h - 13.0*ymh + 13.0*yh - 9.0*y2h + 4.0*y3h - y4h).NormL2() / h3;
+				Real f7_approx = (ym4h - 6.0*ym3h + 14.0*ym2h - 14.0*ymh + 14.0*yh - 14.0*y2h + 6.0*y3h - y4h).NormL2() / (2.0 * h3 * h3 * h);
 				
-				*error = f7_approx * h * h * h * h / 120.0 + 
+				*error = f7_approx * 7.0 * h * h * h * h / 120.0 + 
 				         Constants::Eps * (ym3h.NormL2() + 8*ym2h.NormL2() + 13*ymh.NormL2() + 
 				                           13*yh.NormL2() + 8*y2h.NormL2() + y3h.NormL2()) / (8.0 * h3);
 			}
diff --git a/mml/core/Derivation/DerivationScalarFunction.h b/mml/core/Derivation/DerivationScalarFunction.h
index 81181b1..db78a76 100644
--- a/mml/core/Derivation/DerivationScalarFunction.h
+++ b/mml/core/Derivation/DerivationScalarFunction.h
@@ -448,7 +448,7 @@ namespace MML
 					x_2plus[der_ind1] = point[der_ind1] + 2*h;
 					x_2minus[der_ind1] = point[der_ind1] - 2*h;
 					
-					Real f4_approx = std::abs(f(x_2minus) - 4.0*fmh + 6.0*f0 - 4.0*fh + f(x_2plus)) / h2;
+					Real f4_approx = std::abs(f(x_2minus) - 4.0*fmh + 6.0*f0 - 4.0*fh + f(x_2plus)) / (h2 * h2);
 					*error = f4_approx * h2 / 12.0 + 
 					         Constants::Eps * (std::abs(fmh) + 2*std::abs(f0) + std::abs(fh)) / h2;
 				}
@@ -541,7 +541,7 @@ namespace MML
 					x[der_ind1] = x_orig - 3*h;
 					Real fm3h = f(x);
 					
-					Real f6_approx = std::abs(fm3h - 6.0*fm2h + 15.0*fmh - 20.0*f0 + 15.0*fh - 6.0*f2h + f3h) / h2;
+					Real f6_approx = std::abs(fm3h - 6.0*fm2h + 15.0*fmh - 20.0*f0 + 15.0*fh - 6.0*f2h + f3h) / (h2 * h2 * h2);
 					*error = f6_approx * h2 * h2 / 90.0 + 
 					         Constants::Eps * (std::abs(fm2h) + 16*std::abs(fmh) + 30*std::abs(f0) + 
 					                           16*std::abs(fh) + std::abs(f2h)) / (12.0 * h2);
-- 
2.43.0


From 3af2a0066a39f246ea38d685fc2745082655e64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:02 +0000
Subject: [PATCH 026/188] fix: tensor transformations differentiated the
 inverse map at the wrong point, swapped the index types of the result and did
 not compile for ranks 3 to 5

---
 mml/core/CoordTransf.h | 56 ++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/mml/core/CoordTransf.h b/mml/core/CoordTransf.h
index 69439ed..65854db 100644
--- a/mml/core/CoordTransf.h
+++ b/mml/core/CoordTransf.h
@@ -230,7 +230,9 @@ namespace MML
 		/// @return Transformed tensor in target coordinates
 		Tensor2<N> transfTensor2(const Tensor2<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor2<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor2<N> ret(tensor.NumCovar(), tensor.NumContravar());
+			// the inverse transformation is differentiated at the transformed position
+			const VectorTo posTo = this->transf(pos);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
@@ -243,12 +245,12 @@ Real coef1, coef2;
 							if (tensor.IsContravar(0))
 								coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), k, pos);
 							else
-								coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(k), i, pos);
+								coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(k), i, posTo);
 
 							if (tensor.IsContravar(1))
 								coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), l, pos);
 							else
-								coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), j, pos);
+								coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), j, posTo);
 
 							ret(i, j) += coef1 * coef2 * tensor(k, l);
 						}
@@ -262,13 +264,15 @@ Real coef1, coef2;
 		/// @return Transformed tensor in target coordinates
 		Tensor3<N> transfTensor3(const Tensor3<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor3<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor3<N> ret(tensor.NumCovar(), tensor.NumContravar());
+			// the inverse transformation is differentiated at the transformed position
+			const VectorTo posTo = this->transf(pos);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
 					for (int k = 0; k < N; k++)
 					{
-						ret.Component(i, j, k) = 0;
+						ret(i, j, k) = 0;
 						for (int l = 0; l < N; l++)
 							for (int m = 0; m < N; m++)
 								for (int n = 0; n < N; n++)
@@ -277,19 +281,19 @@ Real coef1, coef2;
 									if (tensor.IsContravar(0))
 										coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), l, pos);
 									else
-										coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), i, pos);
+										coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(l), i, posTo);
 
 									if (tensor.IsContravar(1))
 										coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), m, pos);
 									else
-										coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), j, pos);
+										coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), j, posTo);
 
 									if (tensor.IsContravar(2))
 										coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), n, pos);
 									else
-										coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), k, pos);
+										coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), k, posTo);
 
-									ret.Component(i, j, k) += coef1 * coef2 * coef3 * tensor.Component(l, m, n);
+									ret(i, j, k) += coef1 * coef2 * coef3 * tensor(l, m, n);
 								}
 					}
 
@@ -301,14 +305,16 @@ Real coef1, coef2;
 		/// @return Transformed tensor in target coordinates
 		Tensor4<N> transfTensor4(const Tensor4<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor4<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor4<N> ret(tensor.NumCovar(), tensor.NumContravar());
+			// the inverse transformation is differentiated at the transformed position
+			const VectorTo posTo = this->transf(pos);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
 					for (int k = 0; k < N; k++)
 						for (int l = 0; l < N; l++)
 						{
-							ret[i][j][k][l] = 0;
+							ret(i, j, k, l) = 0;
 							for (int m = 0; m < N; m++)
 								for (int n = 0; n < N; n++)
 									for (int o = 0; o < N; o++)
@@ -318,24 +324,24 @@ Real coef1, coef2;
 											if (tensor.IsContravar(0))
 												coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), m, pos);
 											else
-												coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), i, pos);
+												coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(m), i, posTo);
 
 											if (tensor.IsContravar(1))
 												coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), n, pos);
 											else
-												coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), j, pos);
+												coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), j, posTo);
 
 											if (tensor.IsContravar(2))
 												coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), o, pos);
 											else
-												coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), k, pos);
+												coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), k, posTo);
 
 											if (tensor.IsContravar(3))
 												coef4 = Derivation::NDer4Partial(this->coordTransfFunc(l), p, pos);
 											else
-												coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), l, pos);
+												coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), l, posTo);
 
-											ret[i][j][k][l] += coef1 * coef2 * coef3 * coef4 * tensor[m][n][o][p];
+											ret(i, j, k, l) += coef1 * coef2 * coef3 * coef4 * tensor(m, n, o, p);
 										}
 						}
 
@@ -347,7 +353,9 @@ Real coef1, coef2;
 		/// @return Transformed tensor in target coordinates
 		Tensor5<N> transfTensor5(const Tensor5<N>& tensor, const VectorFrom& pos)
 		{
-			Tensor5<N> ret(tensor.NumContravar(), tensor.NumCovar());
+			Tensor5<N> ret(tensor.NumCovar(), tensor.NumContravar());
+			// the inverse transformation is differentiated at the transformed position
+			const VectorTo posTo = this->transf(pos);
 
 			for (int i = 0; i < N; i++)
 				for (int j = 0; j < N; j++)
@@ -355,7 +363,7 @@ Real coef1, coef2;
 						for (int l = 0; l < N; l++)
 							for (int m = 0; m < N; m++)
 							{
-								ret[i][j][k][l][m] = 0;
+								ret(i, j, k, l, m) = 0;
 								for (int n = 0; n < N; n++)
 									for (int o = 0; o < N; o++)
 										for (int p = 0; p < N; p++)
@@ -366,28 +374,28 @@ Real coef1, coef2;
 													if (tensor.IsContravar(0))
 														coef1 = Derivation::NDer4Partial(this->coordTransfFunc(i), n, pos);
 													else
-														coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), i, pos);
+														coef1 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(n), i, posTo);
 
 													if (tensor.IsContravar(1))
 														coef2 = Derivation::NDer4Partial(this->coordTransfFunc(j), o, pos);
 													else
-														coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), j, pos);
+														coef2 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(o), j, posTo);
 
 													if (tensor.IsContravar(2))
 														coef3 = Derivation::NDer4Partial(this->coordTransfFunc(k), p, pos);
 													else
-														coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), k, pos);
+														coef3 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(p), k, posTo);
 
 													if (tensor.IsContravar(3))
 														coef4 = Derivation::NDer4Partial(this->coordTransfFunc(l), q, pos);
 													else
-														coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(q), l, pos);
+														coef4 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(q), l, posTo);
 
 													if (tensor.IsContravar(4))
 												coef5 = Derivation::NDer4Partial(this->coordTransfFunc(m), r, pos);
 											else
-												coef5 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(r), m, pos);
-													ret[i][j][k][l][m] += coef1 * coef2 * coef3 * coef4 * coef5 * tensor[n][o][p][q][r];
+												coef5 = Derivation::NDer4Partial(this->inverseCoordTransfFunc(r), m, posTo);
+													ret(i, j, k, l, m) += coef1 * coef2 * coef3 * coef4 * coef5 * tensor(n, o, p, q, r);
 												}
 							}
 
-- 
2.43.0


From 5b0a1c933b10b5b55191bf66c73980406206c974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:03 +0000
Subject: [PATCH 027/188] fix: orthogonal base transformation used the
 transpose as inverse even for base vectors that are not of unit length

---
 mml/core/CoordTransf/CoordTransf3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/CoordTransf/CoordTransf3D.h b/mml/core/CoordTransf/CoordTransf3D.h
index 6b3d814..42f226f 100644
--- a/mml/core/CoordTransf/CoordTransf3D.h
+++ b/mml/core/CoordTransf/CoordTransf3D.h
@@ -368,7 +368,7 @@ namespace MML
 				for (int j = 0; j < 3; j++)
 				{
 					_transf(i, j) = _base[i][j];
-					_transfInverse(i, j) = _base[j][i];
+					_transfInverse(i, j) = _base[j][i] / (_base[j] * _base[j]); // base vectors need not be of unit length
 				}
 			}
 		}
-- 
2.43.0


From 8ac262ad174b777e46b7bb37962c4beb54e50bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:08 +0000
Subject: [PATCH 028/188] fix: Lorentz transformation accepted a NaN velocity

---
 mml/core/CoordTransf/CoordTransfLorentz.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/CoordTransf/CoordTransfLorentz.h b/mml/core/CoordTransf/CoordTransfLorentz.h
index ce2a6f1..42277b7 100644
--- a/mml/core/CoordTransf/CoordTransfLorentz.h
+++ b/mml/core/CoordTransf/CoordTransfLorentz.h
@@ -56,7 +56,7 @@ namespace MML {
 				, _fInv2([this](const VectorN<Real, 4>& q) { return funcInverse2(q); })
 				, _fInv3([this](const VectorN<Real, 4>& q) { return funcInverse3(q); })
 				, _fInv4([this](const VectorN<Real, 4>& q) { return funcInverse4(q); }) {
-			if (_velocity < 0.0 || _velocity >= 1.0)
+			if (!(_velocity >= 0.0 && _velocity < 1.0)) // also rejects NaN
 				throw std::range_error("Invalid velocity for Lorentz transformation: must be in [0, 1).");
 
 			Real gamma = REAL(1.0) / sqrt(REAL(1.0) - _velocity * _velocity);
-- 
2.43.0


From b470971fe88abd3aac84ce2600706f5d137f2baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:18 +0000
Subject: [PATCH 029/188] fix: Quaternion::ToEulerZYX keeps the rotation at
 gimbal lock

---
 mml/base/Quaternions.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mml/base/Quaternions.h b/mml/base/Quaternions.h
index 49db99c..09d8402 100644
--- a/mml/base/Quaternions.h
+++ b/mml/base/Quaternions.h
@@ -430,6 +430,13 @@ namespace MML
 			Real cosy_cosp = 1.0 - 2.0 * (y * y + z * z);
 			Real yaw = std::atan2(siny_cosp, cosy_cosp);
 			
+			// At gimbal lock only one combination of yaw and roll is determined: take roll = 0
+			if (std::abs(sinp) >= 1.0 - 4 * std::numeric_limits<Real>::epsilon())
+			{
+				roll = 0.0;
+				yaw = std::atan2(2.0 * (w * z - x * y), 1.0 - 2.0 * (x * x + z * z));
+			}
+			
 			return Vec3Cart(yaw, pitch, roll);
 		}
 
-- 
2.43.0


From 2db041832bdb52a967c9b982053d52a2491e2cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:18 +0000
Subject: [PATCH 030/188] fix: Quaternion::GetRotationAxis returns the axis of
 small rotations

---
 mml/base/Quaternions.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/mml/base/Quaternions.h b/mml/base/Quaternions.h
index 09d8402..7412718 100644
--- a/mml/base/Quaternions.h
+++ b/mml/base/Quaternions.h
@@ -372,9 +372,6 @@ namespace MML
 		/// @return Unit vector along rotation axis
 		Vec3Cart GetRotationAxis() const
 		{
-			if (isIdentity())
-				return Vec3Cart(0, 0, 1);
-			
 			Vec3Cart axis(_data[1], _data[2], _data[3]);
 			Real vecNorm = axis.NormL2();
 			
-- 
2.43.0


From 179bcc5fc51320815552cddd17985e4b4353449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:18 +0000
Subject: [PATCH 031/188] fix: Tensor3, Tensor4 and Tensor5 reject negative
 index counts

---
 mml/base/Tensor.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/base/Tensor.h b/mml/base/Tensor.h
index 9f80f4c..fac86fb 100644
--- a/mml/base/Tensor.h
+++ b/mml/base/Tensor.h
@@ -386,7 +386,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 3
 		Tensor3(int nCovar, int nContraVar) : _numContravar(nContraVar), _numCovar(nCovar)
 		{
-			if (_numContravar + _numCovar != 3)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 3)
 				throw TensorCovarContravarNumError("Tensor3 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 
 			for (int i = 0; i < _numCovar; i++)
@@ -403,7 +403,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 3
 		Tensor3(int nCovar, int nContraVar, std::initializer_list<Real> values) : _numContravar(nContraVar), _numCovar(nCovar)
 		{
-			if (_numContravar + _numCovar != 3)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 3)
 				throw TensorCovarContravarNumError("Tensor3 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 			
 			for (int i = 0; i < _numCovar; i++)
@@ -584,7 +584,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 4
 		Tensor4(int nCovar, int nContraVar) : _numContravar(nContraVar), _numCovar(nCovar) 
 		{
-			if (_numContravar + _numCovar != 4)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 4)
 				throw TensorCovarContravarNumError("Tensor4 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 
 			for (int i = 0; i < _numCovar; i++)
@@ -775,7 +775,7 @@ namespace MML
 		/// @throws TensorCovarContravarNumError if nCovar + nContraVar != 5
 		Tensor5(int nCovar, int nContraVar) : _numContravar(nContraVar), _numCovar(nCovar) 
 		{
-			if (_numContravar + _numCovar != 5)
+			if (_numContravar < 0 || _numCovar < 0 || _numContravar + _numCovar != 5)
 				throw TensorCovarContravarNumError("Tensor5 ctor, wrong number of contravariant and covariant indices", nCovar, nContraVar);
 
 			for (int i = 0; i < _numCovar; i++)
-- 
2.43.0


From f8c6ab644a701cde0a0ff4d985688290be703ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:29 +0000
Subject: [PATCH 032/188] fix: interval intersection, union and difference
 honour coinciding and infinite endpoints

---
 mml/base/Intervals.h | 148 ++++++++++++-------------------------------
 1 file changed, 42 insertions(+), 106 deletions(-)

diff --git a/mml/base/Intervals.h b/mml/base/Intervals.h
index d37158c..be43d3d 100644
--- a/mml/base/Intervals.h
+++ b/mml/base/Intervals.h
@@ -465,6 +465,36 @@ namespace MML {
 	class Interval : public IInterval {
 		Real _lower, _upper;
 		std::vector<std::shared_ptr<BaseInterval>> _intervals; ///< Component intervals
+
+		/// @brief Adds the subinterval with the given bounds and endpoint types; empty sets are skipped.
+		void AddPart(Real lower, EndpointType lowerType, Real upper, EndpointType upperType) {
+			bool fromNegInf = lowerType == EndpointType::NEG_INF;
+			bool toPosInf = upperType == EndpointType::POS_INF;
+			bool lowerClosed = lowerType == EndpointType::CLOSED;
+			bool upperClosed = upperType == EndpointType::CLOSED;
+
+			if (lower > upper || (lower == upper && !(lowerClosed && upperClosed)))
+				return;
+
+			if (fromNegInf && toPosInf)
+				AddInterval(CompleteRInterval());
+			else if (fromNegInf && upperClosed)
+				AddInterval(NegInfToClosedInterval(upper));
+			else if (fromNegInf)
+				AddInterval(NegInfToOpenInterval(upper));
+			else if (toPosInf && lowerClosed)
+				AddInterval(ClosedToInfInterval(lower));
+			else if (toPosInf)
+				AddInterval(OpenToInfInterval(lower));
+			else if (lowerClosed && upperClosed)
+				AddInterval(ClosedInterval(lower, upper));
+			else if (upperClosed)
+				AddInterval(OpenClosedInterval(lower, upper));
+			else if (lowerClosed)
+				AddInterval(ClosedOpenInterval(lower, upper));
+			else
+				AddInterval(OpenInterval(lower, upper));
+		}
 	public:
 		/// @brief Constructs an empty composite interval.
 		Interval() {}
@@ -512,30 +542,21 @@ namespace MML {
 			EndpointType lowerType, upperType;
 
 			if (lower == a._lower && lower == b._lower)
-				lowerType = (a._lowerType == EndpointType::CLOSED && b._lowerType == EndpointType::CLOSED) ? EndpointType::CLOSED
-																										   : EndpointType::OPEN;
+				lowerType = (a._lowerType == b._lowerType) ? a._lowerType : EndpointType::OPEN;
 			else if (lower == a._lower)
 				lowerType = a._lowerType;
 			else
 				lowerType = b._lowerType;
 
 			if (upper == a._upper && upper == b._upper)
-				upperType = (a._upperType == EndpointType::CLOSED && b._upperType == EndpointType::CLOSED) ? EndpointType::CLOSED
-																										   : EndpointType::OPEN;
+				upperType = (a._upperType == b._upperType) ? a._upperType : EndpointType::OPEN;
 			else if (upper == a._upper)
 				upperType = a._upperType;
 			else
 				upperType = b._upperType;
 
 			// Create appropriate interval based on endpoint types
-			if (lowerType == EndpointType::CLOSED && upperType == EndpointType::CLOSED)
-				ret.AddInterval(ClosedInterval(lower, upper));
-			else if (lowerType == EndpointType::OPEN && upperType == EndpointType::CLOSED)
-				ret.AddInterval(OpenClosedInterval(lower, upper));
-			else if (lowerType == EndpointType::CLOSED && upperType == EndpointType::OPEN)
-				ret.AddInterval(ClosedOpenInterval(lower, upper));
-			else
-				ret.AddInterval(OpenInterval(lower, upper));
+			ret.AddPart(lower, lowerType, upper, upperType);
 
 			return ret;
 		}
@@ -577,54 +598,31 @@ namespace MML {
 				EndpointType lowerType, upperType;
 
 				if (lower == a._lower && lower == b._lower)
-					lowerType = (a._lowerType == EndpointType::CLOSED || b._lowerType == EndpointType::CLOSED) 
-					            ? EndpointType::CLOSED : EndpointType::OPEN;
+					lowerType = (a._lowerType == b._lowerType) ? a._lowerType : EndpointType::CLOSED;
 				else if (lower == a._lower)
 					lowerType = a._lowerType;
 				else
 					lowerType = b._lowerType;
 
 				if (upper == a._upper && upper == b._upper)
-					upperType = (a._upperType == EndpointType::CLOSED || b._upperType == EndpointType::CLOSED) 
-					            ? EndpointType::CLOSED : EndpointType::OPEN;
+					upperType = (a._upperType == b._upperType) ? a._upperType : EndpointType::CLOSED;
 				else if (upper == a._upper)
 					upperType = a._upperType;
 				else
 					upperType = b._upperType;
 
 				// Create appropriate interval
-				if (lowerType == EndpointType::CLOSED && upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(lower, upper));
-				else if (lowerType == EndpointType::OPEN && upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(lower, upper));
-				else if (lowerType == EndpointType::CLOSED && upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(lower, upper));
-				else
-					ret.AddInterval(OpenInterval(lower, upper));
+				ret.AddPart(lower, lowerType, upper, upperType);
 			} else {
 				// Disjoint intervals - add both (in order)
 				const BaseInterval* first = (a._lower < b._lower) ? &a : &b;
 				const BaseInterval* second = (a._lower < b._lower) ? &b : &a;
 
 				// Add first interval
-				if (first->_lowerType == EndpointType::CLOSED && first->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(first->_lower, first->_upper));
-				else if (first->_lowerType == EndpointType::OPEN && first->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(first->_lower, first->_upper));
-				else if (first->_lowerType == EndpointType::CLOSED && first->_upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(first->_lower, first->_upper));
-				else
-					ret.AddInterval(OpenInterval(first->_lower, first->_upper));
+				ret.AddPart(first->_lower, first->_lowerType, first->_upper, first->_upperType);
 
 				// Add second interval
-				if (second->_lowerType == EndpointType::CLOSED && second->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(second->_lower, second->_upper));
-				else if (second->_lowerType == EndpointType::OPEN && second->_upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(second->_lower, second->_upper));
-				else if (second->_lowerType == EndpointType::CLOSED && second->_upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(second->_lower, second->_upper));
-				else
-					ret.AddInterval(OpenInterval(second->_lower, second->_upper));
+				ret.AddPart(second->_lower, second->_lowerType, second->_upper, second->_upperType);
 			}
 
 			return ret;
@@ -642,72 +640,10 @@ namespace MML {
 		static Interval Difference(const BaseInterval& a, const BaseInterval& b) {
 			Interval ret;
 
-			// If b doesn't intersect a, return a
-			if (b._upper <= a._lower || b._lower >= a._upper) {
-				// Return copy of a based on its endpoint types
-				if (a._lowerType == EndpointType::CLOSED && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(a._lower, a._upper));
-				else if (a._lowerType == EndpointType::OPEN && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(a._lower, a._upper));
-				else if (a._lowerType == EndpointType::CLOSED && a._upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(a._lower, a._upper));
-				else
-					ret.AddInterval(OpenInterval(a._lower, a._upper));
-				return ret;
-			}
-
-			// Case: b completely contains a
-			if (b._lower <= a._lower && b._upper >= a._upper)
-				return ret; // Empty set
-
-			// Case: b cuts left part of a
-			if (b._lower <= a._lower && b._upper < a._upper) {
-				EndpointType newLowerType = (b._upperType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (newLowerType == EndpointType::CLOSED && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(b._upper, a._upper));
-				else if (newLowerType == EndpointType::OPEN && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(b._upper, a._upper));
-				else if (newLowerType == EndpointType::CLOSED && a._upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(b._upper, a._upper));
-				else
-					ret.AddInterval(OpenInterval(b._upper, a._upper));
-			}
-			// Case: b cuts right part of a
-			else if (b._lower > a._lower && b._upper >= a._upper) {
-				EndpointType newUpperType = (b._lowerType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (a._lowerType == EndpointType::CLOSED && newUpperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::OPEN && newUpperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::CLOSED && newUpperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(a._lower, b._lower));
-				else
-					ret.AddInterval(OpenInterval(a._lower, b._lower));
-			}
-			// Case: b is completely inside a (splits a into two intervals)
-			else {
-				// Left part: [a.lower, b.lower)
-				EndpointType leftUpperType = (b._lowerType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (a._lowerType == EndpointType::CLOSED && leftUpperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::OPEN && leftUpperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(a._lower, b._lower));
-				else if (a._lowerType == EndpointType::CLOSED && leftUpperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(a._lower, b._lower));
-				else
-					ret.AddInterval(OpenInterval(a._lower, b._lower));
-
-				// Right part: (b.upper, a.upper]
-				EndpointType rightLowerType = (b._upperType == EndpointType::CLOSED) ? EndpointType::OPEN : EndpointType::CLOSED;
-				if (rightLowerType == EndpointType::CLOSED && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(ClosedInterval(b._upper, a._upper));
-				else if (rightLowerType == EndpointType::OPEN && a._upperType == EndpointType::CLOSED)
-					ret.AddInterval(OpenClosedInterval(b._upper, a._upper));
-				else if (rightLowerType == EndpointType::CLOSED && a._upperType == EndpointType::OPEN)
-					ret.AddInterval(ClosedOpenInterval(b._upper, a._upper));
-				else
-					ret.AddInterval(OpenInterval(b._upper, a._upper));
-			}
+			// A \ B is the part of A inside the complement of B
+			for (const auto& outside : Complement(b)._intervals)
+				for (const auto& part : Intersection(a, *outside)._intervals)
+					ret._intervals.push_back(part);
 
 			return ret;
 		}
-- 
2.43.0


From a74c2d7aee810b264011639df4d280e328b23db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:29 +0000
Subject: [PATCH 033/188] fix: equidistant covering ends exactly at the upper
 bound

---
 mml/base/Intervals.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Intervals.h b/mml/base/Intervals.h
index be43d3d..9a7785f 100644
--- a/mml/base/Intervals.h
+++ b/mml/base/Intervals.h
@@ -186,7 +186,7 @@ namespace MML {
 			Real delta = (upper - lower) / (numPoints - 1);
 
 			for (int i = 0; i < numPoints; i++) {
-				Real x = lower + i * delta;
+				Real x = (i == numPoints - 1) ? upper : lower + i * delta;
 
 				// Adjust for open endpoints
 				if (i == 0 && _lowerType == EndpointType::OPEN)
-- 
2.43.0


From 319313ec06e5e5c5817a54c179e001df3cd914a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:36 +0000
Subject: [PATCH 034/188] fix: interpolated functions report range correctly
 for descending nodes

---
 .../InterpolatedRealFunction.h                    | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
index e226fe8..e429e04 100644
--- a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
+++ b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
@@ -92,11 +92,11 @@ namespace MML {
 
 		/// /** @brief Get the minimum x-value in the data. */
 
-		inline Real MinX() const { return X(0); }
+		inline Real MinX() const { return std::min(X(0), X(_numPoints - 1)); }
 
 		/// /** @brief Get the maximum x-value in the data. */
 
-		inline Real MaxX() const { return X(_numPoints - 1); }
+		inline Real MaxX() const { return std::max(X(0), X(_numPoints - 1)); }
 
 		/// @}
 
@@ -487,6 +487,11 @@ namespace MML {
 			if (a < MinX() || b > MaxX())
 				throw DomainError("Spline integration: bounds exceed data domain");
 
+			// Segments are visited in index order, which for descending data goes from b down to a
+			if (X(0) > X(getNumPoints() - 1))
+				std::swap(a, b);
+			Real sign = a > b ? -1.0 : 1.0;
+
 			Real integral = 0.0;
 			int iLow = locate(a);
 			int iHigh = locate(b);
@@ -536,7 +541,7 @@ namespace MML {
 				integral += integrateSegment(iHigh, X(iHigh), b);
 			}
 
-			return integral;
+			return sign * integral;
 		}
 
 		/// @}
@@ -733,11 +738,11 @@ namespace MML {
 
 		/// /** @brief Get the minimum x-value. */
 
-		Real MinX() const { return _x[0]; }
+		Real MinX() const { return std::min(_x[0], _x[_n - 1]); }
 
 		/// /** @brief Get the maximum x-value. */
 
-		Real MaxX() const { return _x[_n - 1]; }
+		Real MaxX() const { return std::max(_x[0], _x[_n - 1]); }
 
 		/// /** @brief Get the number of data points. */
 
-- 
2.43.0


From 02eaadd5578af6e3fa449640fcb60c5600fcbb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:36 +0000
Subject: [PATCH 035/188] fix: interpolation constructors reject mismatched or
 too small tables

---
 mml/base/InterpolatedFunctions/InterpolatedRealFunction.h | 4 ++++
 mml/base/InterpolatedFunctions/Interpolation2DFunction.h  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
index e429e04..b2f3f7e 100644
--- a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
+++ b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
@@ -69,6 +69,8 @@ namespace MML {
 			// throw if not enough points
 			if (_numPoints < 2 || _usedPoints < 2 || _usedPoints > _numPoints)
 				throw RealFuncInterpInitError("RealFunctionInterpolated size error");
+			if (_y.size() != _x.size())
+				throw RealFuncInterpInitError("RealFunctionInterpolated: x and y must have the same size");
 			// Check for duplicate x-values (causes division by zero in interpolation)
 			for (int i = 0; i < _numPoints; i++)
 				for (int j = i + 1; j < _numPoints; j++)
@@ -730,6 +732,8 @@ namespace MML {
 				throw RealFuncInterpInitError("BarycentricRationalInterp: d too large for number of points");
 			if (_d < 0)
 				throw RealFuncInterpInitError("BarycentricRationalInterp: d must be non-negative");
+			if (_y.size() != _x.size())
+				throw RealFuncInterpInitError("BarycentricRationalInterp: x and y must have the same size");
 			computeWeights();
 		}
 
diff --git a/mml/base/InterpolatedFunctions/Interpolation2DFunction.h b/mml/base/InterpolatedFunctions/Interpolation2DFunction.h
index e56e6bc..2956330 100644
--- a/mml/base/InterpolatedFunctions/Interpolation2DFunction.h
+++ b/mml/base/InterpolatedFunctions/Interpolation2DFunction.h
@@ -92,6 +92,8 @@ namespace MML {
 			, _z(zm) {
 			if (zm.rows() != _m || zm.cols() != _n)
 				throw RealFuncInterpInitError("BilinearInterp2D: matrix dimensions don't match grid");
+			if (_m < 2 || _n < 2)
+				throw RealFuncInterpInitError("BilinearInterp2D: at least 2 grid points are needed in each direction");
 		}
 
 		/// @brief Evaluate the bilinear interpolation at (x1, x2).
-- 
2.43.0


From 8e772e63433dad41bc3a7c056fb9c22914b8c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:36 +0000
Subject: [PATCH 036/188] fix: closed LinInterpParametricCurve includes the
 closing segment

---
 .../InterpolationParametricCurve.h                    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
index 8d7aeef..8a37a63 100644
--- a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
+++ b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
@@ -70,10 +70,17 @@ namespace MML {
 		/// @param close If true, the curve is closed (connects last to first point)
 
 		LinInterpParametricCurve(const Matrix<Real>& ptsin, bool close = false)
-			: _numPoints(ptsin.rows())
-			, _curvePoints(ptsin)
+			: _numPoints(close ? ptsin.rows() + 1 : ptsin.rows())
+			, _curvePoints(_numPoints, N)
 			, _arcLen(_numPoints)
 			, _isCurveClosed(close) {
+			if (ptsin.rows() < 2 || ptsin.cols() != N)
+				throw RealFuncInterpInitError("LinInterpParametricCurve: at least 2 points with N coordinates are needed");
+			// For a closed curve the first point is repeated at the end, which gives the closing segment
+			for (int i = 0; i < _numPoints; ++i)
+				for (int j = 0; j < N; ++j)
+					_curvePoints[i][j] = ptsin[i % ptsin.rows()][j];
+
 			// Compute normalized arc length parameterization
 			_arcLen[0] = 0.0;
 			Real totalLen = 0.0;
-- 
2.43.0


From 8c0d738d0bb55e985607995c534b2db2c62154e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:36 +0000
Subject: [PATCH 037/188] fix: closed SplineInterpParametricCurve honours its
 parameter range

---
 mml/base/InterpolatedFunctions/InterpolationParametricCurve.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
index 8a37a63..fdb5b95 100644
--- a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
+++ b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
@@ -263,9 +263,6 @@ namespace MML {
 
 			VectorN<Real, N> ans;
 
-			if (_isCurveClosed)
-				t = t - floor(t);
-
 			// we have to map t from [minT, maxT] to [0, 1]
 			t = (t - _minT) / (_maxT - _minT);
 			for (int j = 0; j < _dim; j++)
-- 
2.43.0


From 0cf6a4b35f0779db648f3753ab021a02bd84b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:36 +0000
Subject: [PATCH 038/188] fix: copying SplineInterpParametricCurve no longer
 frees its splines twice

---
 .../InterpolationParametricCurve.h                     | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
index fdb5b95..acc21d7 100644
--- a/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
+++ b/mml/base/InterpolatedFunctions/InterpolationParametricCurve.h
@@ -24,6 +24,7 @@
 
 #include <cmath>
 #include <vector>
+#include <memory>
 
 #include "MMLBase.h"
 #include "MMLExceptions.h"
@@ -167,7 +168,7 @@ namespace MML {
 		Vector<Real> s;			   ///< Arc-length parameters
 		Vector<Real> ans;		   ///< Temporary result storage
 
-		std::vector<SplineInterpRealFunc*> srp; ///< Spline for each coordinate
+		std::vector<std::shared_ptr<SplineInterpRealFunc>> srp; ///< Spline for each coordinate
 
 	public:
 		/// @brief Construct a spline-interpolated parametric curve.
@@ -226,7 +227,7 @@ namespace MML {
 
 				Vector<Real> vec = _curvePoints.VectorFromRow(j);
 
-				srp[j] = new SplineInterpRealFunc(s, vec, db, de);
+				srp[j] = std::make_shared<SplineInterpRealFunc>(s, vec, db, de);
 			}
 		}
 
@@ -237,11 +238,6 @@ namespace MML {
 		SplineInterpParametricCurve(const Matrix<Real>& ptsin, bool close = 0)
 			: SplineInterpParametricCurve(0.0, 1.0, ptsin, close) {}
 
-		~SplineInterpParametricCurve() {
-			for (int j = 0; j < _dim; j++)
-				delete srp[j];
-		}
-
 		/// /** @brief Get the minimum parameter value. */
 
 		Real getMinT() const { return _minT; }
-- 
2.43.0


From e63eceaeb740a961235e5655a66542bd1fb1fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:37 +0000
Subject: [PATCH 039/188] fix: segment intersection with a degenerate segment

---
 mml/base/Geometry/Geometry2DCore/Geometry2DLines.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h b/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h
index 2a61cd1..ab0717d 100644
--- a/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h
+++ b/mml/base/Geometry/Geometry2DCore/Geometry2DLines.h
@@ -374,7 +374,8 @@ namespace MML
 			}
 
 			// Check for collinearity
-			bool collinear = (std::abs(d1) <= EPSILON && std::abs(d2) <= EPSILON);
+			bool collinear = (std::abs(d1) <= EPSILON && std::abs(d2) <= EPSILON &&
+			                  std::abs(d3) <= EPSILON && std::abs(d4) <= EPSILON);
 
 			if (collinear) {
 				bool p2_on_seg1 = OnSegment(p1, p2, q1);
-- 
2.43.0


From 4507ba1cd2aff70b484b5ed7810c41deeb46890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:00 +0000
Subject: [PATCH 040/188] fix: Triangle2D::Area is exact for degenerate and
 needle triangles

---
 mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h b/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h
index f17eac9..8b27a3e 100644
--- a/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h
+++ b/mml/base/Geometry/Geometry2DCore/Geometry2DTriangle.h
@@ -76,13 +76,8 @@ namespace MML
 		/// @brief Calculates the perimeter
 		Real Perimeter() const { return A() + B() + C(); }
 
-		/// @brief Calculates the area using Heron's formula
-		Real Area() const
-		{
-			Real a = A(), b = B(), c = C();
-			Real s = (a + b + c) / 2.0;
-			return std::sqrt(s * (s - a) * (s - b) * (s - c));
-		}
+		/// @brief Calculates the area (magnitude of the signed area)
+		Real Area() const { return std::abs(SignedArea()); }
 
 		/// @brief Calculates the signed area (positive = CCW, negative = CW)
 		Real SignedArea() const
-- 
2.43.0


From 7c1448e05c0c535938de7ee9aaade9138bea1358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:00 +0000
Subject: [PATCH 041/188] fix: Polygon2D::IsConvex rejects star polygons that
 wind several times

---
 .../Geometry/Geometry2DCore/Geometry2DPolygon.h  | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h b/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h
index 1f0ef67..3e79982 100644
--- a/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h
+++ b/mml/base/Geometry/Geometry2DCore/Geometry2DPolygon.h
@@ -249,6 +249,8 @@ namespace MML
 			
 			bool hasPositive = false;
 			bool hasNegative = false;
+			int dirChanges = 0;    // changes between left-going and right-going edges
+			int firstDir = 0, lastDir = 0;
 			
 			for (int i = 0; i < n; i++) {
 				Point2Cartesian p0 = _vertices[i];
@@ -266,9 +268,21 @@ namespace MML
 				// If we have both signs, polygon is not convex
 				if (hasPositive && hasNegative)
 					return false;
+
+				int dir = (v1.X() > 0) - (v1.X() < 0);
+				if (dir != 0) {
+					if (firstDir == 0)
+						firstDir = dir;
+					else if (dir != lastDir)
+						dirChanges++;
+					lastDir = dir;
+				}
 			}
+			if (firstDir != lastDir)
+				dirChanges++;
 			
-			return true;
+			// A convex boundary goes around only once; star polygons turn consistently but wind several times
+			return dirChanges <= 2;
 		}
 
 		/// @brief Tests if a point is inside the polygon using ray-casting
-- 
2.43.0


From 46c45b9c7ca51643a73eba7480a4912160a755da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:00 +0000
Subject: [PATCH 042/188] fix: Parallelogram::FromDiagonals computes the right
 angle

---
 mml/base/Geometry/GeometryCore/Geometry2DShapes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/GeometryCore/Geometry2DShapes.h b/mml/base/Geometry/GeometryCore/Geometry2DShapes.h
index f3394ff..3851946 100644
--- a/mml/base/Geometry/GeometryCore/Geometry2DShapes.h
+++ b/mml/base/Geometry/GeometryCore/Geometry2DShapes.h
@@ -481,7 +481,7 @@ namespace MML {
 			// Diagonals bisect each other; use parallelogram law
 			Real a = 0.5 * sqrt(p * p + q * q + 2 * p * q * cos(angleBetween));
 			Real b = 0.5 * sqrt(p * p + q * q - 2 * p * q * cos(angleBetween));
-			Real angle = acos((a * a + b * b - 0.25 * p * p) / (2 * a * b));
+			Real angle = acos((a * a + b * b - p * p) / (2 * a * b));
 			return Parallelogram(a, b, angle);
 		}
 	};
-- 
2.43.0


From ab8b71801bf6985a057604a23b021e2e712301a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:02 +0000
Subject: [PATCH 043/188] fix: Line3D::IsPerpendicular rejects obtuse
 directions

---
 mml/base/Geometry/Geometry3DCore/Geometry3DLines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
index 606f7b1..7dfd05a 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
@@ -145,7 +145,7 @@ namespace MML
 		/// @brief Tests if this line is perpendicular to another line
 		bool IsPerpendicular(const Line3D& b, Real eps = Defaults::Line3DIsPerpendicularTolerance) const
 		{
-			return ScalarProduct(Direction(), b.Direction()) < eps;
+			return std::abs(ScalarProduct(Direction(), b.Direction())) < eps;
 		}
 		
 		/// @brief Tests if this line is parallel to another line
-- 
2.43.0


From 6e7794536090d56e083d0138cdcf05a490111e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:02 +0000
Subject: [PATCH 044/188] fix: distance between parallel lines in space

---
 mml/base/Geometry/Geometry3DCore/Geometry3DLines.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
index 7dfd05a..6610da9 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DLines.h
@@ -223,10 +223,10 @@ namespace MML
 
 			Vec3Cart n = VectorProduct(d1, d2);
 
-			if (n.isZero())
+			if (n.NormL2() < Constants::GEOMETRY_EPSILON)
 			{
 				// parallel lines
-				return Vec3Cart(p1, p2) * d1 / d2.NormL2();
+				return Dist(p2);
 			}
 			else
 			{
@@ -253,9 +253,9 @@ namespace MML
 
 			Vec3Cart n = VectorProduct(d1, d2);
 
-			if (n.isZero())				// check for parallel lines
+			if (n.NormL2() < Constants::GEOMETRY_EPSILON)				// check for parallel lines
 			{
-				out_dist = Vec3Cart(p1, p2) * d1 / d2.NormL2();
+				out_dist = Dist(p2);
 				return false;
 			}
 			else
-- 
2.43.0


From 0fcd9172ff9b1d1e36cb128dd075ba3c1fe48275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:02 +0000
Subject: [PATCH 045/188] fix: intersection line of planes not through the
 origin

---
 mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
index d00d81c..0742b91 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
@@ -281,12 +281,12 @@ namespace MML
 			}
 
 			// Solve for a point on the intersection line:
-			// x = ( (d2 n1 - d1 n2) x (n1 x n2) ) / |n1 x n2|^2
+			// x = ( (d1 n2 - d2 n1) x (n1 x n2) ) / |n1 x n2|^2
 			double d1 = -D();
 			double d2 = -plane.D();
 
 			Vec3Cart n1xn2 = dir;
-			Vec3Cart p = VectorProduct((d2 * n1 - d1 * n2), n1xn2) / POW2(n1xn2.NormL2());
+			Vec3Cart p = VectorProduct((d1 * n2 - d2 * n1), n1xn2) / POW2(n1xn2.NormL2());
 
 			out_inter_line = Line3D(Pnt3Cart(p.X(), p.Y(), p.Z()), dir.GetAsUnitVector());
 			return true;
-- 
2.43.0


From 56eef213b6d12486fb202628968a570df63df3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:02 +0000
Subject: [PATCH 046/188] fix: planes with opposite normals are parallel

---
 mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
index 0742b91..5e43db3 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
@@ -232,7 +232,7 @@ namespace MML
 			Vec3Cart norm1(_A, _B, _C);
 			Vec3Cart norm2(plane._A, plane._B, plane._C);
 
-			return norm1.IsParallelTo(norm2);
+			return norm1.IsParallelTo(norm2) || norm1.IsParallelTo(-norm2);
 		}
 		
 		/// @brief Tests if this plane is perpendicular to another plane
-- 
2.43.0


From 2f9fea164cd61742d607455a573886b6a0c5c320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:02 +0000
Subject: [PATCH 047/188] fix: Plane3D::GetPointOnPlane divides by the largest
 normal component

---
 mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
index 5e43db3..b03d53f 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DPlane.h
@@ -116,9 +116,10 @@ namespace MML
 		
 		/// @brief Gets an arbitrary point on the plane
 		Pnt3Cart	GetPointOnPlane() const {
-			if (_A != 0.0)
+			// divide by the largest component of the normal, so that rounding noise is never the divisor
+			if (std::abs(_A) >= std::abs(_B) && std::abs(_A) >= std::abs(_C))
 				return Pnt3Cart(-_D / _A, 0, 0);
-			else  if (_B != 0.0)
+			else  if (std::abs(_B) >= std::abs(_C))
 				return Pnt3Cart(0, -_D / _B, 0);
 			else
 				return Pnt3Cart(0, 0, -_D / _C);
-- 
2.43.0


From 1e334caee635a094b7b34b7c151eb15a8066f4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:02 +0000
Subject: [PATCH 048/188] fix: Triangle3D::IsPointInside requires the point to
 lie in the plane

---
 mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h b/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
index b6feb44..1982fb0 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
@@ -125,6 +125,11 @@ namespace MML
 			
 			if (denom == 0.0)
 				return false; // degenerate triangle
+
+			// the point has to lie in the plane of the triangle
+			Vec3Cart normal = VectorProduct(v0, v1).GetAsUnitVector();
+			if (std::abs(ScalarProduct(v2, normal)) > eps * std::max(REAL(1.0), std::sqrt(std::max(d00, d11))))
+				return false;
 			
 			Real v = (d11 * d20 - d01 * d21) / denom;
 			
-- 
2.43.0


From 208801780bc96bd97635f0303fb945e908b3066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:02 +0000
Subject: [PATCH 049/188] fix: Triangle3D::Area is exact for degenerate
 triangles

---
 mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h b/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
index 1982fb0..5c6bd81 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
@@ -65,8 +65,7 @@ namespace MML
 		/// @brief Calculates the area using Heron's formula
 		Real Area() const
 		{
-			Real s = (A() + B() + C()) / 2.0;
-			return sqrt(s * (s - A()) * (s - B()) * (s - C()));
+			return VectorProduct(Vec3Cart(_pnt1, _pnt2), Vec3Cart(_pnt1, _pnt3)).NormL2() / 2.0;
 		}
 
 		/// @brief Tests if this is a right triangle
-- 
2.43.0


From b29a55ed0a310711913c367963261091d40e5870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:19 +0000
Subject: [PATCH 050/188] fix: sphere mesh triangles all face outward

---
 .../Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
index b9c41a2..f3cf941 100644
--- a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
+++ b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
@@ -104,11 +104,11 @@ namespace MML {
 						_surfaces.emplace_back(p1, p4, p3);
 					} else if (i == _numLatitude - 1) {
 						// Bottom pole: single triangle
-						_surfaces.emplace_back(p1, p2, p3);
+						_surfaces.emplace_back(p1, p3, p2);
 					} else {
 						// Regular patch: two triangles
-						_surfaces.emplace_back(p1, p2, p3);
-						_surfaces.emplace_back(p1, p3, p4);
+						_surfaces.emplace_back(p1, p3, p2);
+						_surfaces.emplace_back(p1, p4, p3);
 					}
 				}
 			}
-- 
2.43.0


From 452245f309ea0b8a23b47748d013db4f5ab93a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:33 +0000
Subject: [PATCH 051/188] fix: pyramid mesh stands on its base plane and at its
 centre

---
 .../Geometry3DSpherePyramid.h                 | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
index f3cf941..1b88a69 100644
--- a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
+++ b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DSpherePyramid.h
@@ -198,14 +198,23 @@ namespace MML {
 		/// @param h Height (apex at z = h)
 
 		Pyramid3D(Real a, Real h)
+			: Pyramid3D(a, h, Vec3Cart(0, 0, 0)) {}
+
+		/// @brief Construct pyramid with base centered at specified point.
+		/// @param a Base side length
+		/// @param h Height
+		/// @param center Base center point
+
+		Pyramid3D(Real a, Real h, const Vec3Cart& center)
 			: _a(a)
 			, _h(h)
-			, _center(0, 0, 0) {
-			Pnt3Cart pnt1(a / 2, -a / 2, -a / 2);
-			Pnt3Cart pnt2(a / 2, a / 2, -a / 2);
-			Pnt3Cart pnt3(-a / 2, a / 2, -a / 2);
-			Pnt3Cart pnt4(-a / 2, -a / 2, -a / 2);
-			Pnt3Cart pnt5(0, 0, h); // apex
+			, _center(center) {
+			const Real x = center.X(), y = center.Y(), z = center.Z();
+			Pnt3Cart pnt1(x + a / 2, y - a / 2, z);
+			Pnt3Cart pnt2(x + a / 2, y + a / 2, z);
+			Pnt3Cart pnt3(x - a / 2, y + a / 2, z);
+			Pnt3Cart pnt4(x - a / 2, y - a / 2, z);
+			Pnt3Cart pnt5(x, y, z + h); // apex
 
 			_surfaces.push_back(TriangleSurface3D(pnt1, pnt4, pnt3)); // base triangle 1
 			_surfaces.push_back(TriangleSurface3D(pnt1, pnt3, pnt2)); // base triangle 2
@@ -215,15 +224,6 @@ namespace MML {
 			_surfaces.push_back(TriangleSurface3D(pnt5, pnt4, pnt1)); // left face
 		}
 
-		/// @brief Construct pyramid with base centered at specified point.
-		/// @param a Base side length
-		/// @param h Height
-		/// @param center Base center point
-
-		Pyramid3D(Real a, Real h, const Vec3Cart& center)
-			: Pyramid3D(a, h) {
-			_center = center;
-		}
 		/// @}
 
 		/// @name Containment Test
-- 
2.43.0


From 8bd175e49799f6e6c601690d009b0afaa2ba1160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:33 +0000
Subject: [PATCH 052/188] fix: describe Triangle3D::Area as computed

---
 mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h b/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
index 5c6bd81..9837f26 100644
--- a/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
+++ b/mml/base/Geometry/Geometry3DCore/Geometry3DSurfaces.h
@@ -62,7 +62,7 @@ namespace MML
 		/// @brief Gets vertex 3 (mutable)
 		Pnt3Cart& Pnt3()			 { return _pnt3; }
 
-		/// @brief Calculates the area using Heron's formula
+		/// @brief Calculates the area (half the norm of the cross product of two edges)
 		Real Area() const
 		{
 			return VectorProduct(Vec3Cart(_pnt1, _pnt2), Vec3Cart(_pnt1, _pnt3)).NormL2() / 2.0;
-- 
2.43.0


From f04c1b255cc90376add7aa629e3f3557ca9a0196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 053/188] fix: integral of a Chebyshev series keeps its highest
 term

---
 mml/algorithms/ChebyshevApproximation.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mml/algorithms/ChebyshevApproximation.h b/mml/algorithms/ChebyshevApproximation.h
index 3dcd898..4a3f689 100644
--- a/mml/algorithms/ChebyshevApproximation.h
+++ b/mml/algorithms/ChebyshevApproximation.h
@@ -306,27 +306,23 @@ namespace MML {
 		// The constant of integration is chosen so that the integral is zero at x = a.
 		//
 		// The integral of a Chebyshev series:
-		//   c''_j = (con) * (c_{j-1} - c_{j+1}) / j   for j = 1, ..., n-2
-		//   c''_{n-1} = (con) * c_{n-2} / (n-1)
+		//   c''_j = (con) * (c_{j-1} - c_{j+1}) / j   for j = 1, ..., n   (c_n = c_{n+1} = 0)
 		//   c''_0 chosen to make integral(a) = 0
 		// where con = (b-a)/4.
 		ChebyshevApproximation Integral() const {
 			int n = static_cast<int>(_coef.size());
 
-			Vector<Real> cint(n);
+			Vector<Real> cint(n + 1);
 			Real sum = 0.0;
 			Real fac = 1.0;
 			Real con = 0.25 * (_b - _a);
 
-			for (int j = 1; j < n - 1; j++) {
-				cint[j] = con * (_coef[j - 1] - _coef[j + 1]) / j;
+			for (int j = 1; j <= n; j++) {
+				cint[j] = con * (_coef[j - 1] - (j + 1 < n ? _coef[j + 1] : 0.0)) / j;
 				sum += fac * cint[j];
 				fac = -fac;
 			}
 
-			cint[n - 1] = con * _coef[n - 2] / (n - 1);
-			sum += fac * cint[n - 1];
-
 			// c_0 chosen so integral(a) = 0
 			cint[0] = 2.0 * sum;
 
-- 
2.43.0


From a930519e7f6113c491fe68d74df411e8076a0c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:52 +0000
Subject: [PATCH 054/188] fix: associated Legendre basis is evaluated at x, not
 at angle x

---
 mml/core/OrthogonalBasis/LegendreBasis.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/core/OrthogonalBasis/LegendreBasis.h b/mml/core/OrthogonalBasis/LegendreBasis.h
index a580cd9..4f51b16 100644
--- a/mml/core/OrthogonalBasis/LegendreBasis.h
+++ b/mml/core/OrthogonalBasis/LegendreBasis.h
@@ -117,13 +117,14 @@ namespace MML
 
         int Order() const { return _m; }
 
-        // Evaluate associated Legendre function Pₗᵐ(x) for given degree l
+        // Evaluate associated Legendre function Pₗᵐ(x) for given degree l,
+        // with the spherical-harmonic normalization √[(2l+1)(l-m)!/(4π(l+m)!)]
         Real Evaluate(int l, Real x) const
         {
             if (l < _m)
                 throw std::invalid_argument("AssociatedLegendreBasis::Evaluate: l must be >= m");
             
-            return Functions::SphLegendre(static_cast<unsigned int>(l), static_cast<unsigned int>(_m), x);
+            return Functions::SphLegendre(static_cast<unsigned int>(l), static_cast<unsigned int>(_m), std::acos(x));
         }
 
         // Domain bounds
-- 
2.43.0


From 781fc90e0495de1b8e0c40a20e5923e5cfa4ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:18 +0000
Subject: [PATCH 055/188] fix: MaxError does not step outside the domain by
 rounding

---
 mml/algorithms/ChebyshevApproximation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/ChebyshevApproximation.h b/mml/algorithms/ChebyshevApproximation.h
index 4a3f689..28092ce 100644
--- a/mml/algorithms/ChebyshevApproximation.h
+++ b/mml/algorithms/ChebyshevApproximation.h
@@ -387,7 +387,7 @@ namespace MML {
 		Real MaxError(const IRealFunction& func, int numSamples = 1000) const {
 			Real maxErr = 0.0;
 			for (int i = 0; i <= numSamples; i++) {
-				Real x = _a + i * (_b - _a) / numSamples;
+				Real x = std::min(_b, _a + i * (_b - _a) / numSamples);
 				Real err = std::abs((*this)(x)-func(x));
 				if (err > maxErr)
 					maxErr = err;
@@ -398,7 +398,7 @@ namespace MML {
 		Real MaxError(std::function<Real(Real)> func, int numSamples = 1000) const {
 			Real maxErr = 0.0;
 			for (int i = 0; i <= numSamples; i++) {
-				Real x = _a + i * (_b - _a) / numSamples;
+				Real x = std::min(_b, _a + i * (_b - _a) / numSamples);
 				Real err = std::abs((*this)(x)-func(x));
 				if (err > maxErr)
 					maxErr = err;
-- 
2.43.0


From e049a52f58eb908e98867d207b654783bb206544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:42 +0000
Subject: [PATCH 056/188] fix: distance of nearly equal polar, spherical and
 cylindrical points

---
 mml/base/Geometry/GeometryCore/GeometryPoints.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mml/base/Geometry/GeometryCore/GeometryPoints.h b/mml/base/Geometry/GeometryCore/GeometryPoints.h
index b94c6b0..40b0afb 100644
--- a/mml/base/Geometry/GeometryCore/GeometryPoints.h
+++ b/mml/base/Geometry/GeometryCore/GeometryPoints.h
@@ -155,7 +155,7 @@ namespace MML {
 		/// @brief Computes distance to another polar point using law of cosines
 		/// @param b The other point
 		/// @return Euclidean distance between the two points
-		Real Dist(const Point2Polar& b) const { return sqrt(R() * R() + b.R() * b.R() - 2 * R() * b.R() * cos(b.Phi() - Phi())); }
+		Real Dist(const Point2Polar& b) const { return sqrt(POW2(R() - b.R()) + 4 * R() * b.R() * POW2(sin((b.Phi() - Phi()) / 2))); }
 	};
 
 	/// @brief 3D point in Cartesian coordinates (x, y, z)
@@ -318,9 +318,10 @@ namespace MML {
 		/// @param b The other point
 		/// @return Euclidean distance between the two points (using spherical law of cosines)
 		Real Dist(const Point3Spherical& b) const {
-			Real cosGamma = cos(Theta()) * cos(b.Theta()) + sin(Theta()) * sin(b.Theta()) * cos(b.Phi() - Phi());
-			cosGamma = std::clamp(cosGamma, (Real)-1.0, (Real)1.0);
-			return sqrt(R() * R() + b.R() * b.R() - 2 * R() * b.R() * cosGamma);
+			// haversine of the angle between the directions
+			Real hav = POW2(sin((b.Theta() - Theta()) / 2)) + sin(Theta()) * sin(b.Theta()) * POW2(sin((b.Phi() - Phi()) / 2));
+			hav = std::clamp(hav, (Real)0.0, (Real)1.0);
+			return sqrt(POW2(R() - b.R()) + 4 * R() * b.R() * hav);
 		}
 	};
 
@@ -387,7 +388,7 @@ namespace MML {
 		/// @param b The other point
 		/// @return Euclidean distance between the two points
 		Real Dist(const Point3Cylindrical& b) const {
-			return sqrt(R() * R() + b.R() * b.R() - 2 * R() * b.R() * cos(b.Phi() - Phi()) + POW2(b.Z() - Z()));
+			return sqrt(POW2(R() - b.R()) + 4 * R() * b.R() * POW2(sin((b.Phi() - Phi()) / 2)) + POW2(b.Z() - Z()));
 		}
 	};
 
-- 
2.43.0


From 587d4605edeaa06eaf61660f63711103884cf0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:42 +0000
Subject: [PATCH 057/188] fix: normalising a huge angle terminates

---
 mml/base/BaseUtils/AngleCoordUtils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/base/BaseUtils/AngleCoordUtils.h b/mml/base/BaseUtils/AngleCoordUtils.h
index 503f4ac..ff2ddce 100644
--- a/mml/base/BaseUtils/AngleCoordUtils.h
+++ b/mml/base/BaseUtils/AngleCoordUtils.h
@@ -79,6 +79,7 @@ namespace MML
 		/// @return Normalized angle in [0, 2π)
 		static Real AngleTo2PiRange(Real rad)
 		{
+			rad = std::fmod(rad, 2 * Constants::PI);
 			while (rad < 0)
 				rad += 2 * Constants::PI;
 			while (rad >= 2 * Constants::PI)
@@ -91,6 +92,7 @@ namespace MML
 		/// @return Normalized angle in [-π, π)
 		static Real AngleToPiPiRange(Real rad)
 		{
+			rad = std::fmod(rad, 2 * Constants::PI);
 			while (rad < -Constants::PI)
 				rad += 2 * Constants::PI;
 			while (rad >= Constants::PI)
-- 
2.43.0


From f3e8e0bcbd98d7f635220edc7c9b2e303fbb6f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:02 +0000
Subject: [PATCH 058/188] fix: Minkowski norm and distance of space-like
 intervals

---
 mml/base/Vector/VectorTypes.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mml/base/Vector/VectorTypes.h b/mml/base/Vector/VectorTypes.h
index b3a29f1..0c13d82 100644
--- a/mml/base/Vector/VectorTypes.h
+++ b/mml/base/Vector/VectorTypes.h
@@ -943,7 +943,7 @@ namespace MML
 			if (isTimelike())
 				return sqrt(T() * T() - X() * X() - Y() * Y() - Z() * Z());
 			else if (isSpacelike())
-				return -sqrt(X() * X() + Y() * Y() + Z() * Z() - T() * T());
+				return -sqrt(-T() * T() + X() * X() + Y() * Y() + Z() * Z());
 			else 
 				return 0.0; // Lightlike vectors have zero Minkowski norm
 		}
@@ -952,8 +952,7 @@ namespace MML
 		/// @param b Other 4-vector
 		Real Distance(const Vector4Minkowski& b) const
 		{
-			return sqrt((T() - b.T()) * (T() - b.T()) - (X() - b.X()) * (X() - b.X()) -
-								(Y() - b.Y()) * (Y() - b.Y()) - (Z() - b.Z()) * (Z() - b.Z()));
+			return Vector4Minkowski{ T() - b.T(), X() - b.X(), Y() - b.Y(), Z() - b.Z() }.Norm();
 		}
 		
 		/// @brief Checks if 4-vector is timelike (inside light cone).
-- 
2.43.0


From 9f5f77896ed3a93b7a82ebbaaecc6296911d9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:33 +0000
Subject: [PATCH 059/188] fix: sum and difference of nearly cancelling polar
 vectors

---
 mml/base/Vector/VectorTypes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Vector/VectorTypes.h b/mml/base/Vector/VectorTypes.h
index 0c13d82..12041ed 100644
--- a/mml/base/Vector/VectorTypes.h
+++ b/mml/base/Vector/VectorTypes.h
@@ -248,7 +248,7 @@ namespace MML
 			Real phi2 = b.Phi();
 
 			Real delta = phi2 - phi1;
-			Real r	 = std::sqrt(r1 * r1 + r2 * r2 + 2 * r1 * r2 * std::cos(delta));
+			Real r	 = std::sqrt((r1 - r2) * (r1 - r2) + 4 * r1 * r2 * POW2(std::cos(delta / 2)));
 			Real phi = phi1 + std::atan2(r2 * std::sin(delta), r1 + r2 * std::cos(delta));
 
 			return Vector2Polar(r, phi);
@@ -263,7 +263,7 @@ namespace MML
 			Real phi2 = b.Phi();
 
 			Real delta = phi2 - phi1;
-			Real r	 = std::sqrt(r1 * r1 + r2 * r2 - 2 * r1 * r2 * std::cos(delta));
+			Real r	 = std::sqrt((r1 - r2) * (r1 - r2) + 4 * r1 * r2 * POW2(std::sin(delta / 2)));
 			Real phi = phi1 + std::atan2(-r2 * std::sin(delta), r1 - r2 * std::cos(delta));
 
 			return Vector2Polar(r, phi);
-- 
2.43.0


From 015c7c676c6bb2cd1672d3d81c1beabe43013937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:33 +0000
Subject: [PATCH 060/188] fix: saving a point far beyond the capacity grows the
 storage enough

---
 mml/base/ODESystemSolution.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mml/base/ODESystemSolution.h b/mml/base/ODESystemSolution.h
index 2c28b46..31ef2fc 100644
--- a/mml/base/ODESystemSolution.h
+++ b/mml/base/ODESystemSolution.h
@@ -162,7 +162,7 @@ namespace MML
 			if (ind < 0 )
 				throw IndexError("Index must be non-negative in ODESystemSolution::setTVal");
 			
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_tval[ind] = x;
@@ -181,7 +181,7 @@ namespace MML
 			if (component < 0 || component >= _sysDim)
 				throw IndexError("Component index out of range in ODESystemSolution::setXVal(component)");
 
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_xval[component][ind] = x;
@@ -202,7 +202,7 @@ namespace MML
 			if( y.size() != _sysDim )
 				throw ArgumentError("Vector size mismatch in ODESystemSolution::fillValues");
 
-			if(ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_tval[ind] = x;
-- 
2.43.0


From b683331f35028dbc6484c7c2acb18ca4102c3000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:08 +0000
Subject: [PATCH 061/188] fix: Dormand-Prince 8 starts its next step with the
 derivative at the accepted point

---
 mml/algorithms/ODESolvers/ODESteppers.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index 5d3a8d3..d5e5e8a 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -692,8 +692,10 @@ namespace MML {
 					_xOld = x;
 					_stepReady = true;
 
-					// Update state
+					// Update state (the last stage is not evaluated at the accepted point)
 					x = _xNew;
+					_sys.derivs(t + h, x, _k[12]);
+					result.funcEvals++;
 					dxdt = _k[12];
 					_haveFSAL = true;
 
-- 
2.43.0


From 8c0e34d349cc1d193bc00c9be7aa1d35f71deaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:58 +0000
Subject: [PATCH 062/188] fix: function evaluations of repeated step attempts
 are counted

---
 mml/algorithms/ODESolvers/ODESteppers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index d5e5e8a..c1969c0 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -424,7 +424,7 @@ namespace MML {
 					_xtemp[i] = x[i] + h * (b61 * _k1[i] + b62 * _k2[i] + b63 * _k3[i] + b64 * _k4[i] + b65 * _k5[i]);
 				_sys.derivs(t + a6 * h, _xtemp, _k6);
 
-				result.funcEvals = 6;
+				result.funcEvals += 6;
 
 				// 5th order solution
 				for (int i = 0; i < _n; i++)
@@ -660,7 +660,7 @@ namespace MML {
 					_xNew[i] = x[i] + h * (a13[0] * _k[0][i] + a13[3] * _k[3][i] + a13[4] * _k[4][i] + a13[5] * _k[5][i] + a13[6] * _k[6][i] + a13[7] * _k[7][i] + a13[8] * _k[8][i] + a13[9] * _k[9][i] + a13[10] * _k[10][i]);
 				_sys.derivs(t + c[12] * h, _xNew, _k[12]);
 
-				result.funcEvals = 13;
+				result.funcEvals += 12;
 
 				// 8th order solution
 				for (int i = 0; i < _n; i++) {
-- 
2.43.0


From 47e4107f681c61c48ed04181b8a9c1feeb30ce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:59 +0000
Subject: [PATCH 063/188] fix: adaptive integration respects the configured
 maximum step

---
 mml/algorithms/ODESolvers/ODESolverAdaptive.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverAdaptive.h b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
index ddf0f42..908ada5 100644
--- a/mml/algorithms/ODESolvers/ODESolverAdaptive.h
+++ b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
@@ -221,8 +221,10 @@ namespace MML {
 		/// @param eps Error tolerance (default 1e-10)
 		/// @param h0 Initial step size (0 = auto-estimate)
 		/// @param minStepSize Minimum allowed step size (default 1e-15)
+		/// @param maxStepSize Maximum allowed step size (default infinity)
 		/// @return Solution with points at regular intervals
-		ODESystemSolution integrate(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps = 1e-10, Real h0 = 0, Real minStepSize = 1e-15) {
+		ODESystemSolution integrate(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps = 1e-10, Real h0 = 0, Real minStepSize = 1e-15,
+									   Real maxStepSize = std::numeric_limits<Real>::infinity()) {
 			int n = _sys.getDim();
 			int numOutputPoints = static_cast<int>(std::ceil((tEnd - t0) / outputInterval)) + 1;
 
@@ -249,6 +251,7 @@ namespace MML {
 
 			// Main integration loop
 			while (t < tEnd - Constants::Eps) {
+				h = std::min(h, maxStepSize);
 				// Don't step past end
 				if (t + h > tEnd) {
 					h = tEnd - t;
@@ -377,7 +380,7 @@ namespace MML {
 				: (tEnd - t0) / 100.0;  // Default: 100 output points
 
 			ODESystemSolution sol = integrate(x0, t0, tEnd, outputInterval, 
-				config.tolerance, config.initial_step_size, config.min_step_size);
+				config.tolerance, config.initial_step_size, config.min_step_size, config.max_step_size);
 
 			// Populate diagnostic fields in statistics
 			_stats.elapsed_time_ms = timer.elapsed_ms();
-- 
2.43.0


From 74706150c3bd19aefab2348ad0f65f3d2254ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:29 +0000
Subject: [PATCH 064/188] fix: adaptive output grid ends at the end time once
 and drops no point

---
 mml/algorithms/ODESolvers/ODESolverAdaptive.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverAdaptive.h b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
index 908ada5..5598c3a 100644
--- a/mml/algorithms/ODESolvers/ODESolverAdaptive.h
+++ b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
@@ -265,10 +265,9 @@ namespace MML {
 
 					// Dense output: interpolate at all output points within this step
 					while (tNextOutput <= tNew + Constants::Eps && outputIdx < numOutputPoints) {
-						if (tNextOutput <= tNew) {
-							Vector<Real> xInterp = _stepper.interpolate(tNextOutput);
-							sol.fillValues(outputIdx++, tNextOutput, xInterp);
-						}
+						Real tOut = std::min(tNextOutput, tNew);
+						Vector<Real> xInterp = _stepper.interpolate(tOut);
+						sol.fillValues(outputIdx++, tOut, xInterp);
 						tNextOutput += outputInterval;
 					}
 
@@ -288,9 +287,11 @@ namespace MML {
 			}
 
 			// Ensure final point is captured
-			if (outputIdx < numOutputPoints) {
-				sol.fillValues(outputIdx++, tEnd, x);
-			}
+			// (replacing an output point that coincides with it up to rounding)
+			if (outputIdx > 1 && tEnd - sol.getTValue(outputIdx - 1) < Real(1e-6) * outputInterval)
+				outputIdx--;
+			sol.fillValues(outputIdx++, tEnd, x);
+			sol.setFinalSize(outputIdx - 1);
 
 			return sol;
 		}
-- 
2.43.0


From 985d359874733e63f4c83701fa60eb1540d6e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:01 +0000
Subject: [PATCH 065/188] fix: detailed adaptive integration reports an
 exceeded step limit

---
 mml/algorithms/ODESolvers/ODESolverAdaptive.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/algorithms/ODESolvers/ODESolverAdaptive.h b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
index 5598c3a..e6eafbd 100644
--- a/mml/algorithms/ODESolvers/ODESolverAdaptive.h
+++ b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
@@ -486,6 +486,8 @@ namespace MML {
 				result.total_func_evals = stats.totalFuncEvals;
 				result.min_step_size    = stats.minStepSize;
 				result.max_step_size    = stats.maxStepSize;
+				result.status = stats.status;
+				result.error_message = stats.error_message;
 				result.function_evaluations = stats.totalFuncEvals;
 			});
 	}
-- 
2.43.0


From 3fa3573566a0896fc017c87ebe5a8bac5fbd5aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:57 +0000
Subject: [PATCH 066/188] fix: adaptive integrator refuses a reversed interval

---
 mml/algorithms/ODESolvers/ODESolverAdaptive.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mml/algorithms/ODESolvers/ODESolverAdaptive.h b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
index e6eafbd..5530c5e 100644
--- a/mml/algorithms/ODESolvers/ODESolverAdaptive.h
+++ b/mml/algorithms/ODESolvers/ODESolverAdaptive.h
@@ -225,6 +225,9 @@ namespace MML {
 		/// @return Solution with points at regular intervals
 		ODESystemSolution integrate(const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval, Real eps = 1e-10, Real h0 = 0, Real minStepSize = 1e-15,
 									   Real maxStepSize = std::numeric_limits<Real>::infinity()) {
+			if (tEnd < t0 || !(outputInterval > 0))
+				throw ODESolverError("ODEAdaptiveIntegrator integrates forward: tEnd >= t0 and outputInterval > 0 required");
+
 			int n = _sys.getDim();
 			int numOutputPoints = static_cast<int>(std::ceil((tEnd - t0) / outputInterval)) + 1;
 
-- 
2.43.0


From 7fe4766f6180a481528e1c8c936ff970b05acfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:13 +0000
Subject: [PATCH 067/188] fix: Bulirsch-Stoer extrapolation restarts the
 Neville column from the new estimate

---
 mml/algorithms/ODESolvers/ODESteppers.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index c1969c0..bf50a50 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -844,6 +844,8 @@ namespace MML {
 			} else {
 				// Use Neville's algorithm
 				Vector<Real> c = yest;
+				yz = yest;
+				dy = yest;
 
 				for (int k = 0; k < iest; k++) {
 					Real delta = 1.0 / (_xCoords[iest - k - 1] - xest);
@@ -853,16 +855,15 @@ namespace MML {
 					for (int j = 0; j < _n; j++) {
 						Real q = _d[k][j];
 						_d[k][j] = dy[j];
-						delta = c[j] - q;
-						dy[j] = f1 * delta;
-						c[j] = f2 * delta;
+						Real diff = c[j] - q;
+						dy[j] = f1 * diff;
+						c[j] = f2 * diff;
+						yz[j] += dy[j];
 					}
 				}
 
-				for (int j = 0; j < _n; j++) {
-					yz[j] += dy[j];
+				for (int j = 0; j < _n; j++)
 					_d[iest][j] = dy[j];
-				}
 			}
 		}
 
@@ -1072,6 +1073,8 @@ namespace MML {
 			// Use Neville's polynomial extrapolation (same as pzextr)
 			// This is more stable than rational extrapolation
 			Vector<Real> c = yest;
+			yz = yest;
+			dy = yest;
 
 			for (int k = 0; k < iest; k++) {
 				Real delta = 1.0 / (_xCoords[iest - k - 1] - xest);
@@ -1084,13 +1087,12 @@ namespace MML {
 					Real diff = c[j] - q;
 					dy[j] = f1 * diff;
 					c[j] = f2 * diff;
+					yz[j] += dy[j];
 				}
 			}
 
-			for (int j = 0; j < _n; j++) {
-				yz[j] += dy[j];
+			for (int j = 0; j < _n; j++)
 				_d[iest][j] = dy[j];
-			}
 		}
 
 	public:
-- 
2.43.0


From dd0c76942f9ce8ad52b59fc9dc0ad3319e1aa816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:26 +0000
Subject: [PATCH 068/188] fix: Bulirsch-Stoer rejects a step whose error
 estimate is not a number

---
 mml/algorithms/ODESolvers/ODESteppers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index bf50a50..8812f66 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -917,7 +917,7 @@ namespace MML {
 					for (int i = 0; i < _n; ++i) {
 						Real scale = eps * (std::abs(ysav[i]) + std::abs(yest[i]) + Precision::DivisionSafetyThreshold);
 						Real errRatio = std::abs(yerr[i]) / scale;
-						errMax = std::max<Real>(errMax, errRatio);
+						errMax = std::isnan(errRatio) ? std::numeric_limits<Real>::infinity() : std::max<Real>(errMax, errRatio);
 					}
 
 					result.errMax = errMax;
@@ -1145,7 +1145,7 @@ namespace MML {
 					for (int i = 0; i < _n; ++i) {
 						Real scale = eps * (std::abs(ysav[i]) + std::abs(yest[i]) + Precision::DivisionSafetyThreshold);
 						Real errRatio = std::abs(yerr[i]) / scale;
-						errMax = std::max<Real>(errMax, errRatio);
+						errMax = std::isnan(errRatio) ? std::numeric_limits<Real>::infinity() : std::max<Real>(errMax, errRatio);
 					}
 
 					result.errMax = errMax;
-- 
2.43.0


From bb0e9a40298e135de103a85e7a8ee5d407228b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 069/188] fix: event detection reports every crossing of a step
 once and fills its output grid

---
 .../ODESolvers/ODESolverEventDetection.h      | 233 ++++++++++--------
 1 file changed, 129 insertions(+), 104 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverEventDetection.h b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
index ee5d0d8..3963cde 100644
--- a/mml/algorithms/ODESolvers/ODESolverEventDetection.h
+++ b/mml/algorithms/ODESolvers/ODESolverEventDetection.h
@@ -13,6 +13,10 @@
 #if !defined MML_ODE_SOLVER_EVENT_DETECTION_H
 #define MML_ODE_SOLVER_EVENT_DETECTION_H
 
+#include <algorithm>
+#include <utility>
+#include <vector>
+
 #include "mml/algorithms/ODESolvers/ODESolverAdaptive.h"
 #include "mml/interfaces/IODESystemWithEvents.h"
 
@@ -88,6 +92,9 @@ namespace MML {
 		 */
 		EventResult integrateWithEvents(const IODESystemWithEvents& sys, const Vector<Real>& x0, Real t0, Real tEnd, Real outputInterval,
 																		Real eps = 1e-10, Real eventTol = 1e-12, Real h0 = 0) {
+			if (tEnd < t0 || !(outputInterval > 0))
+				throw ODESolverError("integrateWithEvents integrates forward: tEnd >= t0 and outputInterval > 0 required");
+
 			int n = sys.getDim();
 			int numEvents = sys.getNumEvents();
 			int numOutputPoints = static_cast<int>(std::ceil((tEnd - t0) / outputInterval)) + 1;
@@ -116,6 +123,21 @@ namespace MML {
 			result.solution.fillValues(outputIdx++, t0, x0);
 			tNextOutput += outputInterval;
 
+			auto outputUpTo = [&](Real tLimit) {
+				while (tNextOutput <= tLimit + Constants::Eps && outputIdx < numOutputPoints) {
+					Real tOut = std::min(tNextOutput, tLimit);
+					Vector<Real> xInterp = this->_stepper.interpolate(tOut);
+					result.solution.fillValues(outputIdx++, tOut, xInterp);
+					tNextOutput += outputInterval;
+				}
+			};
+
+			struct Crossing {
+				int index;
+				Real time;
+				EventDirection direction;
+			};
+
 			const int maxEventIterations = 100; // Safety limit for root finding
 
 			// Main integration loop
@@ -134,134 +156,135 @@ namespace MML {
 					Vector<Real> gNew(numEvents);
 					sys.eventFunctions(tNew, x, gNew);
 
-					// Check for zero crossings
-					bool eventDetected = false;
-					int eventIndex = -1;
-					Real eventTime = tNew;
+					// Find every crossing of the requested direction in this step
+					std::vector<Crossing> crossings;
 
 					for (int i = 0; i < numEvents; ++i) {
-						bool crossing = false;
-						EventDirection actualDir = EventDirection::Both;
-
-						// Check sign change
-						if (gPrev[i] * gNew[i] < 0) {
-							// Determine crossing direction
-							if (gPrev[i] < 0 && gNew[i] > 0) {
-								actualDir = EventDirection::Increasing;
-							} else {
-								actualDir = EventDirection::Decreasing;
-							}
-
-							// Check if this direction should trigger
-							EventDirection wantDir = sys.getEventDirection(i);
-							if (wantDir == EventDirection::Both || wantDir == actualDir) {
-								crossing = true;
-							}
+						Real tLo = t;
+						Real tHi = tNew;
+						Real gLo = gPrev[i];
+						Real gHi = gNew[i];
+
+						// A step that starts on the event surface has no side yet: look just inside the step
+						if (gLo == 0) {
+							tLo = t + Real(0.01) * stepResult.hDone;
+							gLo = sys.eventFunction(i, tLo, this->_stepper.interpolate(tLo));
 						}
 
-						if (crossing) {
-							// Find exact crossing time using bisection with dense output
-							Real tLo = t;
-							Real tHi = tNew;
-							Real gLo = gPrev[i];
-							Real gHi = gNew[i];
-
-							for (int iter = 0; iter < maxEventIterations; ++iter) {
-								if (tHi - tLo < eventTol)
-									break;
-
-								// Illinois method (modified regula falsi)
-								Real tMid = tLo - gLo * (tHi - tLo) / (gHi - gLo);
-								// Clamp to interval
-								tMid = std::max<Real>(tLo + Real(0.1) * (tHi - tLo), std::min<Real>(tHi - Real(0.1) * (tHi - tLo), tMid));
-
-								Vector<Real> xMid = this->_stepper.interpolate(tMid);
-								Real gMid = sys.eventFunction(i, tMid, xMid);
-
-								if (std::abs(gMid) < eventTol) {
-									tLo = tMid;
-									break;
-								}
-
-								if (gLo * gMid < 0) {
-									tHi = tMid;
-									gHi = gMid;
-								} else {
-									tLo = tMid;
-									gLo = gMid;
-								}
+						EventDirection actualDir;
+						if (gLo < 0 && gHi >= 0)
+							actualDir = EventDirection::Increasing;
+						else if (gLo > 0 && gHi <= 0)
+							actualDir = EventDirection::Decreasing;
+						else
+							continue;
+
+						// Check if this direction should trigger
+						EventDirection wantDir = sys.getEventDirection(i);
+						if (wantDir != EventDirection::Both && wantDir != actualDir)
+							continue;
+
+						// Find exact crossing time using bisection with dense output
+						for (int iter = 0; iter < maxEventIterations; ++iter) {
+							if (tHi - tLo < eventTol)
+								break;
+
+							// Illinois method (modified regula falsi)
+							Real tMid = tLo - gLo * (tHi - tLo) / (gHi - gLo);
+							// Clamp to interval
+							tMid = std::max<Real>(tLo + Real(0.1) * (tHi - tLo), std::min<Real>(tHi - Real(0.1) * (tHi - tLo), tMid));
+
+							Vector<Real> xMid = this->_stepper.interpolate(tMid);
+							Real gMid = sys.eventFunction(i, tMid, xMid);
+
+							if (std::abs(gMid) < eventTol) {
+								tLo = tMid;
+								break;
 							}
 
-							Real tEvent = tLo;
-							if (tEvent < eventTime) {
-								eventTime = tEvent;
-								eventIndex = i;
-								eventDetected = true;
+							if (gLo * gMid < 0) {
+								tHi = tMid;
+								gHi = gMid;
+							} else {
+								tLo = tMid;
+								gLo = gMid;
 							}
 						}
+
+						crossings.push_back({i, tLo, actualDir});
 					}
 
-					if (eventDetected && eventIndex >= 0) {
-						// Get precise state at event
-						Vector<Real> xEvent = this->_stepper.interpolate(eventTime);
-						Real gEvent = sys.eventFunction(eventIndex, eventTime, xEvent);
+					// Process them in time order
+					std::stable_sort(crossings.begin(), crossings.end(),
+													 [](const Crossing& a, const Crossing& b) { return a.time < b.time; });
 
-						EventDirection actualDir;
-						if (gPrev[eventIndex] < gNew[eventIndex]) {
-							actualDir = EventDirection::Increasing;
-						} else {
-							actualDir = EventDirection::Decreasing;
-						}
+					bool restart = false;
+					Real restartTime = tNew;
+					Vector<Real> xRestart;
+					std::vector<std::pair<int, Real>> handled; // the events handled last (simultaneously), with their values there
+					Real handledTime = t;
+
+					for (const Crossing& cr : crossings) {
+						// Only events simultaneous with a restart happen before the integration is restarted
+						if (restart && cr.time - restartTime > eventTol)
+							break;
+
+						// Get precise state at event
+						Vector<Real> xEvent = this->_stepper.interpolate(cr.time);
+						Real gEvent = sys.eventFunction(cr.index, cr.time, xEvent);
 
 						// Record event
-						EventInfo evt(eventIndex, eventTime, xEvent, actualDir, gEvent);
-						result.events.push_back(evt);
-
-						// Dense output up to event time
-						while (tNextOutput <= eventTime + Constants::Eps && outputIdx < numOutputPoints) {
-							if (tNextOutput <= eventTime) {
-								Vector<Real> xInterp = this->_stepper.interpolate(tNextOutput);
-								result.solution.fillValues(outputIdx++, tNextOutput, xInterp);
-							}
-							tNextOutput += outputInterval;
-						}
+						result.events.push_back(EventInfo(cr.index, cr.time, xEvent, cr.direction, gEvent));
 
 						// Determine action
-						EventAction action = sys.getEventAction(eventIndex);
+						EventAction action = sys.getEventAction(cr.index);
 
 						if (action == EventAction::Stop) {
+							outputUpTo(cr.time);
+							result.solution.setFinalSize(outputIdx - 1);
 							result.terminatedByEvent = true;
-							result.finalTime = eventTime;
+							result.finalTime = cr.time;
 							result.finalState = xEvent;
 							return result;
 						} else if (action == EventAction::Restart) {
+							if (!restart) {
+								restart = true;
+								restartTime = cr.time;
+								xRestart = xEvent;
+							}
 							// Apply state update
-							sys.handleEvent(eventIndex, eventTime, xEvent);
-
-							// Reset integration from event point
-							t = eventTime;
-							x = xEvent;
-							sys.derivs(t, x, dxdt);
-							sys.eventFunctions(t, x, gPrev);
-							this->_stepper.resetFSAL();
-
-							// Re-estimate step size
-							h = this->estimateInitialStep(t, x, tEnd, eps);
-							h = std::min(h, tEnd - t);
-							continue; // Skip normal update
+							sys.handleEvent(cr.index, cr.time, xRestart);
 						}
-						// EventAction::Continue: fall through to normal update
+						if (!restart && !handled.empty() && cr.time - handledTime > eventTol)
+							handled.clear();
+						handled.push_back({cr.index, gEvent});
+						handledTime = cr.time;
+						// EventAction::Continue: nothing more to do
 					}
 
-					// Dense output for this step
-					while (tNextOutput <= tNew + Constants::Eps && outputIdx < numOutputPoints) {
-						if (tNextOutput <= tNew) {
-							Vector<Real> xInterp = this->_stepper.interpolate(tNextOutput);
-							result.solution.fillValues(outputIdx++, tNextOutput, xInterp);
-						}
-						tNextOutput += outputInterval;
+					if (restart) {
+						outputUpTo(restartTime);
+
+						// Reset integration from event point
+						t = restartTime;
+						x = xRestart;
+						sys.derivs(t, x, dxdt);
+						sys.eventFunctions(t, x, gPrev);
+						// An event left where it fired is on its surface, it must not fire again
+						for (const auto& hnd : handled)
+							if (std::abs(gPrev[hnd.first]) <= std::abs(hnd.second))
+								gPrev[hnd.first] = 0;
+						this->_stepper.resetFSAL();
+
+						// Re-estimate step size
+						h = this->estimateInitialStep(t, x, tEnd, eps);
+						h = std::min(h, tEnd - t);
+						continue; // Skip normal update
 					}
 
+					// Dense output for this step
+					outputUpTo(tNew);
+
 					// Update for next step
 					t = tNew;
 					h = stepResult.hNext;
@@ -276,9 +299,11 @@ namespace MML {
 			}
 
 			// Ensure final point
-			if (outputIdx < numOutputPoints) {
-				result.solution.fillValues(outputIdx++, tEnd, x);
-			}
+			// (replacing an output point that coincides with it up to rounding)
+			if (outputIdx > 1 && tEnd - result.solution.getTValue(outputIdx - 1) < Real(1e-6) * outputInterval)
+				outputIdx--;
+			result.solution.fillValues(outputIdx++, tEnd, x);
+			result.solution.setFinalSize(outputIdx - 1);
 
 			result.finalTime = t;
 			result.finalState = x;
-- 
2.43.0


From f74fcc0988e0814b5469635e26ab33bd255e71f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 070/188] fix: stiff ODE solvers integrate to the end of the
 interval

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index 5201d60..904aae5 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -144,7 +144,7 @@ namespace MML {
 	inline ODESystemSolution SolveBackwardEuler(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
 												int max_newton_iter = 10, Real newton_tol = 1e-8) {
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / h) + 1;
+		int num_steps = static_cast<int>(std::ceil((t_end - t0) / h - Real(1e-9))) + 1;
 
 		ODESystemSolution sol(t0, t_end, dim, num_steps);
 
@@ -256,7 +256,10 @@ namespace MML {
 	inline ODESystemSolution SolveBDF2(IODESystemWithJacobian& system, Real t0, const Vector<Real>& y0, Real t_end, Real h,
 									   int max_newton_iter = 10, Real newton_tol = 1e-8) {
 		int dim = y0.size();
-		int num_steps = static_cast<int>((t_end - t0) / h) + 1;
+		int num_steps = static_cast<int>(std::ceil((t_end - t0) / h - Real(1e-9))) + 1;
+		// Constant BDF coefficients need uniform steps: shorten them so that they end at t_end
+		if (num_steps > 1)
+			h = (t_end - t0) / (num_steps - 1);
 
 		ODESystemSolution sol(t0, t_end, dim, num_steps);
 
-- 
2.43.0


From c229520b381be2d318e52f3e6c506202745f6f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 071/188] fix: Rosenbrock23 rejects a step whose error estimate
 is not a number

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index 904aae5..c065262 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -537,7 +537,7 @@ namespace MML {
 				for (int i = 0; i < dim; ++i) {
 					Real scale = _abs_tol + _rel_tol * std::max(std::abs(y[i]), std::abs(y_new[i]));
 					Real err_scaled = std::abs(y_err[i]) / scale;
-					err_norm = std::max(err_norm, err_scaled);
+					err_norm = std::isnan(err_scaled) ? std::numeric_limits<Real>::infinity() : std::max(err_norm, err_scaled);
 				}
 
 				// Avoid division by zero
-- 
2.43.0


From 33380ff4addf634cf5411d366c2a44a02ee93ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 072/188] fix: DAE solvers report an exceeded step limit

---
 mml/algorithms/DAESolvers/DAEBDF2.h          | 5 +++++
 mml/algorithms/DAESolvers/DAEBDF4.h          | 5 +++++
 mml/algorithms/DAESolvers/DAEBackwardEuler.h | 5 +++++
 mml/algorithms/DAESolvers/DAERODAS.h         | 5 +++++
 mml/algorithms/DAESolvers/DAERadauIIA.h      | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/mml/algorithms/DAESolvers/DAEBDF2.h b/mml/algorithms/DAESolvers/DAEBDF2.h
index e9d461d..a080790 100644
--- a/mml/algorithms/DAESolvers/DAEBDF2.h
+++ b/mml/algorithms/DAESolvers/DAEBDF2.h
@@ -237,6 +237,11 @@ namespace MML {
 		// Finalize
 		result.solution.setFinalSize(step - 1);
 		result.total_steps = step - 1;
+		if (result.status == AlgorithmStatus::Success && step >= config.max_steps && t_end - t > Real(1e-9) * config.step_size)
+		{
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
+			result.error_message = "Maximum number of steps exceeded at t=" + std::to_string(t);
+		}
 		result.elapsed_time_ms = timer.elapsed_ms();
 
 		return result;
diff --git a/mml/algorithms/DAESolvers/DAEBDF4.h b/mml/algorithms/DAESolvers/DAEBDF4.h
index 8673ff2..f3af263 100644
--- a/mml/algorithms/DAESolvers/DAEBDF4.h
+++ b/mml/algorithms/DAESolvers/DAEBDF4.h
@@ -303,6 +303,11 @@ namespace MML {
 		// Finalize
 		result.solution.setFinalSize(step - 1);
 		result.total_steps = step - 1;
+		if (result.status == AlgorithmStatus::Success && step >= config.max_steps && t_end - t_current > Real(1e-9) * config.step_size)
+		{
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
+			result.error_message = "Maximum number of steps exceeded at t=" + std::to_string(t_current);
+		}
 		result.elapsed_time_ms = timer.elapsed_ms();
 
 		return result;
diff --git a/mml/algorithms/DAESolvers/DAEBackwardEuler.h b/mml/algorithms/DAESolvers/DAEBackwardEuler.h
index 274598a..03da890 100644
--- a/mml/algorithms/DAESolvers/DAEBackwardEuler.h
+++ b/mml/algorithms/DAESolvers/DAEBackwardEuler.h
@@ -186,6 +186,11 @@ namespace MML {
 		// Finalize
 		result.solution.setFinalSize(step - 1);
 		result.total_steps = step - 1;
+		if (result.status == AlgorithmStatus::Success && step >= config.max_steps && t_end - t > Real(1e-9) * config.step_size)
+		{
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
+			result.error_message = "Maximum number of steps exceeded at t=" + std::to_string(t);
+		}
 		result.elapsed_time_ms = timer.elapsed_ms();
 
 		return result;
diff --git a/mml/algorithms/DAESolvers/DAERODAS.h b/mml/algorithms/DAESolvers/DAERODAS.h
index 3cc2dc2..77dcfc4 100644
--- a/mml/algorithms/DAESolvers/DAERODAS.h
+++ b/mml/algorithms/DAESolvers/DAERODAS.h
@@ -198,6 +198,11 @@ namespace MML {
 		// Finalize
 		result.solution.setFinalSize(step - 1);
 		result.total_steps = step - 1;
+		if (result.status == AlgorithmStatus::Success && step >= config.max_steps && t_end - t > Real(1e-9) * config.step_size)
+		{
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
+			result.error_message = "Maximum number of steps exceeded at t=" + std::to_string(t);
+		}
 		result.elapsed_time_ms = timer.elapsed_ms();
 
 		return result;
diff --git a/mml/algorithms/DAESolvers/DAERadauIIA.h b/mml/algorithms/DAESolvers/DAERadauIIA.h
index 79de999..d9d7a27 100644
--- a/mml/algorithms/DAESolvers/DAERadauIIA.h
+++ b/mml/algorithms/DAESolvers/DAERadauIIA.h
@@ -294,6 +294,11 @@ namespace MML {
 		// Finalize
 		result.solution.setFinalSize(step - 1);
 		result.total_steps = step - 1;
+		if (result.status == AlgorithmStatus::Success && step >= config.max_steps && t_end - t > Real(1e-9) * config.step_size)
+		{
+			result.status = AlgorithmStatus::MaxIterationsExceeded;
+			result.error_message = "Maximum number of steps exceeded at t=" + std::to_string(t);
+		}
 		result.elapsed_time_ms = timer.elapsed_ms();
 
 		return result;
-- 
2.43.0


From 90ff0a465f7b0328533502e91a72300a1797cd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 073/188] fix: Radau IIA integrates to the end of the interval

---
 mml/algorithms/DAESolvers/DAERadauIIA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/DAESolvers/DAERadauIIA.h b/mml/algorithms/DAESolvers/DAERadauIIA.h
index d9d7a27..987d6e1 100644
--- a/mml/algorithms/DAESolvers/DAERadauIIA.h
+++ b/mml/algorithms/DAESolvers/DAERadauIIA.h
@@ -117,7 +117,7 @@ namespace MML {
 		Matrix<Real> dgDx(algDim, diffDim), dgDy(algDim, algDim);
 
 		int step = 1;
-		while (t + h/2 <= t_end && step < config.max_steps) {
+		while (t_end - t > h * 1e-10 && step < config.max_steps) {
 
 			// Clamp step size to reach t_end exactly
 			Real h_actual = std::min(h, t_end - t);
-- 
2.43.0


From dae30bccd1a19ea830f7c20828305fa0ea73ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 074/188] fix: DAE BDF2 keeps its steps uniform up to the end
 of the interval

---
 mml/algorithms/DAESolvers/DAEBDF2.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mml/algorithms/DAESolvers/DAEBDF2.h b/mml/algorithms/DAESolvers/DAEBDF2.h
index a080790..a09d698 100644
--- a/mml/algorithms/DAESolvers/DAEBDF2.h
+++ b/mml/algorithms/DAESolvers/DAEBDF2.h
@@ -55,7 +55,9 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		int num_steps = static_cast<int>(std::ceil((t_end - t0) / config.step_size - Real(1e-9))) + 1;
+		// Constant BDF coefficients need uniform steps: shorten them so that they end at t_end
+		const Real step_size = num_steps > 1 ? (t_end - t0) / (num_steps - 1) : config.step_size;
 
 		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
 		result.algorithm_name = "DAEBDF2";
@@ -160,7 +162,7 @@ namespace MML {
 		// First step: Backward Euler
 		if (step < config.max_steps && t < t_end)
 		{
-			Real h = std::min(config.step_size, t_end - t);
+			Real h = std::min(step_size, t_end - t);
 			Real t_next = t + h;
 
 			// Initial guess
@@ -195,10 +197,10 @@ namespace MML {
 		// Remaining steps: BDF2
 		while (t < t_end && step < config.max_steps)
 		{
-			Real h = std::min(config.step_size, t_end - t);
+			Real h = std::min(step_size, t_end - t);
 			
 			// Skip degenerate final steps (floating-point round-off)
-			if (h < config.step_size * 1e-10)
+			if (h < step_size * 1e-10)
 				break;
 			
 			Real t_next = t + h;
-- 
2.43.0


From 60564577c465c657b971368540f06114de71858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:16 +0000
Subject: [PATCH 075/188] fix: RODAS corrector starts from the predicted state

---
 mml/algorithms/DAESolvers/DAERODAS.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mml/algorithms/DAESolvers/DAERODAS.h b/mml/algorithms/DAESolvers/DAERODAS.h
index 77dcfc4..4375395 100644
--- a/mml/algorithms/DAESolvers/DAERODAS.h
+++ b/mml/algorithms/DAESolvers/DAERODAS.h
@@ -164,10 +164,10 @@ namespace MML {
 			system.diffEqs(t + h, x_pred, y_pred, f_pred);
 			system.algConstraints(t + h, x_pred, y_pred, g_pred);
 
-			// Corrector: use average of f values
-			// Build RHS: h/2*(f_n + f_{n+1}) for diff eqs
+			// Corrector: one simplified Newton step on the trapezoidal rule from the predictor
+			// Build RHS: residual x_n + h/2*(f_n + f_{n+1}) - x_{n+1} for diff eqs
 			for (int i = 0; i < diffDim; ++i)
-				rhs[i] = hHalf * (f_curr[i] + f_pred[i]);
+				rhs[i] = x[i] + hHalf * (f_curr[i] + f_pred[i]) - x_pred[i];
 			for (int i = 0; i < algDim; ++i)
 				rhs[diffDim + i] = -g_pred[i];
 
@@ -178,9 +178,9 @@ namespace MML {
 
 			// Update solution
 			for (int i = 0; i < diffDim; ++i)
-				x[i] += delta[i];
+				x[i] = x_pred[i] + delta[i];
 			for (int i = 0; i < algDim; ++i)
-				y[i] += delta[diffDim + i];
+				y[i] = y_pred[i] + delta[diffDim + i];
 
 			t += h;
 
-- 
2.43.0


From 6ee3855f654eaaa4e58d82e1fdaefabd63484292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:08 +0000
Subject: [PATCH 076/188] fix: DAE BDF4 starts from 4th-order accurate values

---
 mml/algorithms/DAESolvers/DAEBDF4.h | 97 +++++++++++------------------
 1 file changed, 38 insertions(+), 59 deletions(-)

diff --git a/mml/algorithms/DAESolvers/DAEBDF4.h b/mml/algorithms/DAESolvers/DAEBDF4.h
index f3af263..654935a 100644
--- a/mml/algorithms/DAESolvers/DAEBDF4.h
+++ b/mml/algorithms/DAESolvers/DAEBDF4.h
@@ -21,6 +21,7 @@
 #define MML_DAE_BDF4_H
 
 #include "DAESolverBase.h"
+#include "DAERadauIIA.h"
 #include <vector>
 
 namespace MML {
@@ -29,7 +30,7 @@ namespace MML {
 	/// 
 	/// Complexity: O(N³) per step where N = diffDim + algDim.
 	///            Newton iteration with augmented Jacobian + LU solve each step.
-	///            First 3 steps use BDF2 sub-stepping for accurate history.
+	///            First 3 steps use Radau IIA for accurate history.
 	///
 	/// BDF4 formula for differential equations:
 	/// @f[
@@ -40,7 +41,7 @@ namespace MML {
 	///   0 = g(t_{n+1}, x_{n+1}, y_{n+1})
 	/// @f]
 	///
-	/// Uses sub-stepping with BDF2 for first 3 steps to build accurate history,
+	/// Uses Radau IIA for the first 3 steps to build accurate history,
 	/// then switches to BDF4 for remaining steps.
 	/// Fourth-order accurate, A(α)-stable with α ≈ 73°.
 	/// Industry standard for stiff DAEs (DASSL, SUNDIALS IDA).
@@ -61,7 +62,9 @@ namespace MML {
 		int diffDim = system.getDiffDim();
 		int algDim = system.getAlgDim();
 		int totalDim = diffDim + algDim;
-		int num_steps = static_cast<int>((t_end - t0) / config.step_size) + 1;
+		int num_steps = static_cast<int>(std::ceil((t_end - t0) / config.step_size - Real(1e-9))) + 1;
+		// Constant BDF coefficients need uniform steps: shorten them so that they end at t_end
+		const Real step_size = num_steps > 1 ? (t_end - t0) / (num_steps - 1) : config.step_size;
 
 		DAESolverResult result(t0, t_end, diffDim, algDim, num_steps);
 		result.algorithm_name = "DAEBDF4";
@@ -177,74 +180,52 @@ namespace MML {
 		};
 
 		// ========================================================================
-		// BOOTSTRAP PHASE: Build accurate history using sub-stepped BDF2
-		// Use 4 substeps per main step to achieve O(h^4) local error during bootstrap
+		// Bootstrap: the first 3 steps need 4th-order accurate values, and are
+		// taken with the one-step Radau IIA method
 		// ========================================================================
-		constexpr int bootstrap_substeps = 4;
-		Real h_main = config.step_size;
-		Real h_sub = h_main / bootstrap_substeps;
+		Real h_main = step_size;
+		int boot_steps = std::min(3, num_steps - 1);
+		Real t_boot = boot_steps == num_steps - 1 ? t_end : t0 + boot_steps * h_main;
+
+		DAESolverConfig boot_config = config;
+		boot_config.step_size = h_main;
+		DAESolverResult boot = SolveDAERadauIIA(system, t0, x0, y0, t_boot, boot_config);
+		result.newton_iterations += boot.newton_iterations;
+		result.jacobian_evaluations += boot.jacobian_evaluations;
+		result.max_constraint_violation = boot.max_constraint_violation;
+		if (boot.status != AlgorithmStatus::Success)
+		{
+			result.status = boot.status;
+			result.error_message = "Bootstrap failed: " + boot.error_message;
+			result.solution.fillValues(0, t0, x0, y0);
+			result.solution.setFinalSize(0);
+			result.elapsed_time_ms = timer.elapsed_ms();
+			return result;
+		}
 
-		// We need values at t0, t0+h, t0+2h, t0+3h for BDF4
-		// Store these in history array: hist[0]=newest, hist[3]=oldest
+		// Save initial condition and bootstrap points to solution, and to the history
+		// array: hist[0]=newest, hist[3]=oldest
 		std::vector<Vector<Real>> x_history(4, x0);
 		std::vector<Vector<Real>> y_history(4, y0);
-		std::vector<Real> t_history(4, t0);
 
 		Real t_current = t0;
-		Vector<Real> x_current = x0;
-		Vector<Real> y_current = y0;
-		Vector<Real> x_sub_prev = x0;  // Previous substep for BDF2
-
-		// Take 3 main steps using sub-stepped BDF2
-		for (int main_step = 1; main_step <= 3 && t_current < t_end; ++main_step)
+		result.solution.fillValues(0, t0, x0, y0);
+		for (int k = 1; k <= boot_steps; ++k)
 		{
-			Real h_this = std::min(h_main, t_end - t_current);
-			Real h_substep = h_this / bootstrap_substeps;
-
-			for (int sub = 0; sub < bootstrap_substeps; ++sub)
-			{
-				Real t_next = t_current + h_substep;
-				
-				system.diffEqs(t_current, x_current, y_current, dxdt);
-				Vector<Real> x_pred = x_current + dxdt * h_substep;
-				Vector<Real> y_pred = y_current;
-
-				int order = (main_step == 1 && sub == 0) ? 1 : 2;  // First substep uses BE
-				if (!newtonSolve(t_next, h_substep, x_pred, x_pred, y_pred, order,
-				                 x_current, x_sub_prev, x_current, x_current))
-				{
-					result.status = AlgorithmStatus::NumericalInstability;
-					result.error_message = "Newton failed during bootstrap at t=" + std::to_string(t_next);
-					result.elapsed_time_ms = timer.elapsed_ms();
-					return result;
-				}
-
-				x_sub_prev = x_current;
-				x_current = x_pred;
-				y_current = y_pred;
-				t_current = t_next;
-			}
-
-			// Shift history and store main step result
 			for (int i = 3; i > 0; --i)
 			{
 				x_history[i] = x_history[i-1];
 				y_history[i] = y_history[i-1];
-				t_history[i] = t_history[i-1];
 			}
-			x_history[0] = x_current;
-			y_history[0] = y_current;
-			t_history[0] = t_current;
-		}
-
-		// Save initial condition and bootstrap points to solution
-		result.solution.fillValues(0, t0, x0, y0);
-		for (int i = 1; i <= 3; ++i)
-		{
-			result.solution.fillValues(i, t_history[3-i], x_history[3-i], y_history[3-i]);
+			for (int i = 0; i < diffDim; ++i)
+				x_history[0][i] = boot.solution.getXValue(k, i);
+			for (int i = 0; i < algDim; ++i)
+				y_history[0][i] = boot.solution.getYValue(k, i);
+			t_current = boot.solution.getTValue(k);
+			result.solution.fillValues(k, t_current, x_history[0], y_history[0]);
 			result.solution.incrementSuccessfulSteps();
 		}
-		int step = 4;
+		int step = boot_steps + 1;
 
 		// ========================================================================
 		// MAIN PHASE: BDF4 with accurate history
@@ -282,11 +263,9 @@ namespace MML {
 			{
 				x_history[i] = x_history[i-1];
 				y_history[i] = y_history[i-1];
-				t_history[i] = t_history[i-1];
 			}
 			x_history[0] = x_new;
 			y_history[0] = y_new;
-			t_history[0] = t_next;
 			t_current = t_next;
 
 			// Track constraint violation
-- 
2.43.0


From 2807716f48659a0e9b5e193193e960dfe5585854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:26 +0000
Subject: [PATCH 077/188] fix: DAE backward Euler takes no degenerate last step

---
 mml/algorithms/DAESolvers/DAEBackwardEuler.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mml/algorithms/DAESolvers/DAEBackwardEuler.h b/mml/algorithms/DAESolvers/DAEBackwardEuler.h
index 03da890..732e306 100644
--- a/mml/algorithms/DAESolvers/DAEBackwardEuler.h
+++ b/mml/algorithms/DAESolvers/DAEBackwardEuler.h
@@ -95,6 +95,10 @@ namespace MML {
 		while (t < t_end && step < config.max_steps)
 		{
 			Real h = std::min(config.step_size, t_end - t);
+
+			// Skip degenerate final steps
+			if (h < config.step_size * 1e-10)
+				break;
 			Real t_next = t + h;
 
 			// Initial guess for next step (explicit Euler prediction)
-- 
2.43.0


From ef5ffb1b65ff368bbeb83e52c80248300b099909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:02 +0000
Subject: [PATCH 078/188] fix: Rosenbrock23 keeps its order on non-autonomous
 systems

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index c065262..e35df83 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -448,11 +448,21 @@ namespace MML {
 			_system.derivs(t, y, dydt);
 			_system.jacobian(t, y, dydt, J);
 
+			// Time derivative of f at (t, y) (the method loses its order on non-autonomous stiff systems without it)
+			Vector<Real> dfdt(dim);
+			Real t_delta = t + h * Real(1e-3);
+			if (t_delta != t) {
+				Vector<Real> f_delta(dim);
+				_system.derivs(t_delta, y, f_delta);
+				dfdt = (f_delta - dydt) * (Real(1) / (t_delta - t));
+			}
+			Vector<Real> tdep = dfdt * (h * h * gamma_ros);
+
 			// Form matrix W = I - h*γ*J (same for all stages)
 			Matrix<Real> W = Matrix<Real>::Identity(dim) - J * (h * gamma_ros);
 
-			// Stage 1: Solve W*k1 = h*f(t, y)
-			Vector<Real> k1 = dydt * h;
+			// Stage 1: Solve W*k1 = h*f(t, y) + γ*h²*f_t
+			Vector<Real> k1 = dydt * h + tdep;
 			Matrix<Real> W_copy = W;
 			try {
 				GaussJordanSolver<Real>::SolveInPlace(W_copy, k1);
@@ -460,11 +470,11 @@ namespace MML {
 				return false; // Linear solve failed
 			}
 
-			// Stage 2: Solve W*k2 = h*f(t + h, y + k1) - 2*k1
+			// Stage 2: Solve W*k2 = h*f(t + h, y + k1) - 2*k1 - γ*h²*f_t
 			Vector<Real> y2 = y + k1;
 			Vector<Real> f2(dim);
 			_system.derivs(t + h, y2, f2);
-			Vector<Real> rhs2 = f2 * h - k1 * 2.0;
+			Vector<Real> rhs2 = f2 * h - k1 * 2.0 - tdep;
 			Vector<Real> k2 = rhs2;
 			W_copy = W;
 			try {
-- 
2.43.0


From 12e2b8e58a0ab6856e672b59db97c1722e00b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:10 +0000
Subject: [PATCH 079/188] fix: Rosenbrock23 honours the configured step limit

---
 mml/algorithms/ODESolvers/ODESolverStiff.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESolverStiff.h b/mml/algorithms/ODESolvers/ODESolverStiff.h
index e35df83..d4d631f 100644
--- a/mml/algorithms/ODESolvers/ODESolverStiff.h
+++ b/mml/algorithms/ODESolvers/ODESolverStiff.h
@@ -499,11 +499,10 @@ namespace MML {
 		/// @param t_end Final time
 		/// @param h_init Initial step size
 		/// @return Solution trajectory
-		ODESystemSolution Solve(Real t0, const Vector<Real>& y0, Real t_end, Real h_init) {
+		ODESystemSolution Solve(Real t0, const Vector<Real>& y0, Real t_end, Real h_init, int max_steps = 50000) {
 			int dim = y0.size();
-			int max_steps = 50000; // Safety limit (storage grows dynamically if needed)
 
-			ODESystemSolution sol(t0, t_end, dim, max_steps);
+			ODESystemSolution sol(t0, t_end, dim, std::min(max_steps, 50000)); // storage grows dynamically if needed
 
 			Real t = t0;
 			Vector<Real> y = y0;
@@ -599,8 +598,7 @@ namespace MML {
 			AlgorithmTimer timer;  // Starts automatically
 
 			int dim = y0.size();
-			int max_steps = config.max_steps;
-			StiffSolverResult result(t0, t_end, dim, max_steps);
+			StiffSolverResult result(t0, t_end, dim, 1);
 			result.algorithm_name = "Rosenbrock23";
 
 			// Update internal tolerances
@@ -609,7 +607,7 @@ namespace MML {
 
 			try {
 				Real h_init = (config.step_size > 0) ? config.step_size : (t_end - t0) / 100.0;
-				result.solution = Solve(t0, y0, t_end, h_init);
+				result.solution = Solve(t0, y0, t_end, h_init, config.max_steps);
 				result.total_steps = result.solution.getNumStepsOK();
 			} catch (const std::exception& e) {
 				result.status = AlgorithmStatus::NumericalInstability;
-- 
2.43.0


From e1a08aa64e5c6a02425d87c53eb50792f64245cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:46 +0000
Subject: [PATCH 080/188] fix: shooting solvers set the status of a failed run

---
 mml/algorithms/ODESolvers/BVPShootingMethod.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mml/algorithms/ODESolvers/BVPShootingMethod.h b/mml/algorithms/ODESolvers/BVPShootingMethod.h
index 15d537a..4abd55f 100644
--- a/mml/algorithms/ODESolvers/BVPShootingMethod.h
+++ b/mml/algorithms/ODESolvers/BVPShootingMethod.h
@@ -198,6 +198,7 @@ namespace MML {
 
 				if (!bracketed) {
 					result.converged = false;
+					result.status = AlgorithmStatus::AlgorithmSpecificFailure;
 					result.failureReason = BVPFailureReason::BracketingFailed;
 					result.failureDetails = "Could not bracket root with initial guesses [" + 
 						std::to_string(shootGuess1) + ", " + std::to_string(shootGuess2) + 
@@ -225,6 +226,7 @@ namespace MML {
 				result.failureReason = BVPFailureReason::None;
 			} catch (const std::exception& e) {
 				result.converged = false;
+				result.status = AlgorithmStatus::AlgorithmSpecificFailure;
 				result.failureReason = BVPFailureReason::RootFindingFailed;
 				result.failureDetails = e.what();
 				result.residual = std::numeric_limits<Real>::max();
@@ -426,6 +428,7 @@ namespace MML {
 
 			if (!config.isValid()) {
 				result.converged = false;
+				result.status = AlgorithmStatus::InvalidInput;
 				result.failureReason = BVPFailureReason::InvalidConfiguration;
 				result.failureDetails = "Shooting configuration invalid: unknownIndices, targetIndices, "
 					"unknownGuesses, and targetValues must all have same non-zero size";
@@ -472,6 +475,7 @@ namespace MML {
 				// Check for numerical instability
 				if (!std::isfinite(residualNorm)) {
 					result.converged = false;
+					result.status = AlgorithmStatus::NumericalInstability;
 					result.failureReason = BVPFailureReason::NumericalInstability;
 					result.failureDetails = "Residual norm became NaN/Inf at iteration " + 
 						std::to_string(iter);
@@ -496,6 +500,7 @@ namespace MML {
 				
 				if (!linearResult.success) {
 					result.converged = false;
+					result.status = AlgorithmStatus::SingularMatrix;
 					result.failureReason = BVPFailureReason::SingularJacobian;
 					result.failureDetails = linearResult.errorMessage;
 					break;
@@ -511,6 +516,7 @@ namespace MML {
 			
 			// Check if we exceeded max iterations without converging
 			if (!result.converged && result.failureReason == BVPFailureReason::None) {
+				result.status = AlgorithmStatus::MaxIterationsExceeded;
 				result.failureReason = BVPFailureReason::MaxIterationsExceeded;
 				result.failureDetails = "Did not converge within " + std::to_string(_maxIterations) + 
 					" iterations. Final residual norm: " + std::to_string(residualNorm) + 
-- 
2.43.0


From 04f441333db3a4aac756c5acd20b2652fac2e4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:46 +0000
Subject: [PATCH 081/188] fix: shooting that converges in its last iteration is
 reported as converged

---
 mml/algorithms/ODESolvers/BVPShootingMethod.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mml/algorithms/ODESolvers/BVPShootingMethod.h b/mml/algorithms/ODESolvers/BVPShootingMethod.h
index 4abd55f..cec7e6f 100644
--- a/mml/algorithms/ODESolvers/BVPShootingMethod.h
+++ b/mml/algorithms/ODESolvers/BVPShootingMethod.h
@@ -515,6 +515,10 @@ namespace MML {
 			}
 			
 			// Check if we exceeded max iterations without converging
+			// The last iteration may have converged
+			if (!result.converged && result.failureReason == BVPFailureReason::None && residualNorm < _tolerance)
+				result.converged = true;
+
 			if (!result.converged && result.failureReason == BVPFailureReason::None) {
 				result.status = AlgorithmStatus::MaxIterationsExceeded;
 				result.failureReason = BVPFailureReason::MaxIterationsExceeded;
-- 
2.43.0


From ccf6a74f8616da55df610cc2fdc08f21bc5d5389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:24 +0000
Subject: [PATCH 082/188] fix: golden section search terminates for a minimum
 at zero

---
 mml/algorithms/Optimization.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/Optimization.h b/mml/algorithms/Optimization.h
index b8d647f..976d05e 100644
--- a/mml/algorithms/Optimization.h
+++ b/mml/algorithms/Optimization.h
@@ -385,8 +385,14 @@ namespace MML {
 			Real f1 = func(x1);
 			Real f2 = func(x2);
 
+			// Below a few ulps the interval cannot shrink any further, and a purely
+			// relative test can never be met when the minimum is at x = 0
+			const Real eps = std::numeric_limits<Real>::epsilon();
+			const Real rtol = std::max(tol, Real(4.0) * eps);
+			const Real ZEPS = eps * 1.0e-3;
+
 			// Main iteration loop
-			while (std::abs(x3 - x0) > tol * (std::abs(x1) + std::abs(x2))) {
+			while (std::abs(x3 - x0) > rtol * (std::abs(x1) + std::abs(x2)) + ZEPS) {
 				result.iterations++;
 
 				if (f2 < f1) {
-- 
2.43.0


From 64fcdfc57092b8a54ff36a2cd29e9d2ae4a65805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:24 +0000
Subject: [PATCH 083/188] fix: BracketMinimum reports a search that ran off to
 infinity as invalid

---
 mml/algorithms/Optimization.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mml/algorithms/Optimization.h b/mml/algorithms/Optimization.h
index 976d05e..4eea1e5 100644
--- a/mml/algorithms/Optimization.h
+++ b/mml/algorithms/Optimization.h
@@ -292,6 +292,12 @@ namespace MML {
 					fu = func(u);
 				}
 
+				// Ran off to infinity (or out of the domain): there is no bracket to report
+				if (!std::isfinite(u) || !std::isfinite(fu)) {
+					result.valid = false;
+					return result;
+				}
+
 				// Shift triplet (ax, bx, cx) <- (bx, cx, u)
 				result.ax = result.bx;
 				result.bx = result.cx;
-- 
2.43.0


From 1965f0f8cc9234d0f294da1fd8c15079cd031e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:17 +0000
Subject: [PATCH 084/188] fix: backtracking line search terminates on
 non-finite function values

---
 mml/algorithms/OptimizationMultidim.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mml/algorithms/OptimizationMultidim.h b/mml/algorithms/OptimizationMultidim.h
index 864c2e8..4b1ea25 100644
--- a/mml/algorithms/OptimizationMultidim.h
+++ b/mml/algorithms/OptimizationMultidim.h
@@ -1420,6 +1420,10 @@ namespace MML::Optimization {
 							tmplam = 0.5 * alam;
 					}
 
+					// A non-finite function value (outside the domain) gives no usable fit
+					if (!std::isfinite(tmplam))
+						tmplam = REAL(0.5) * alam;
+
 					alam2 = alam;
 					f2 = fnew;
 					alam = std::max(tmplam, REAL(0.1) * alam);
@@ -1918,6 +1922,10 @@ namespace MML::Optimization {
 							tmplam = 0.5 * alam;
 					}
 
+					// A non-finite function value (outside the domain) gives no usable fit
+					if (!std::isfinite(tmplam))
+						tmplam = REAL(0.5) * alam;
+
 					alam2 = alam;
 					f2 = fnew;
 					alam = std::max(tmplam, REAL(0.1) * alam);
-- 
2.43.0


From 118ee2672363cdfa7ca9cfc54377a9e31a408cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:17 +0000
Subject: [PATCH 085/188] fix: Wolfe line search does not accept a NaN function
 value

---
 mml/algorithms/OptimizationMultidim.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/OptimizationMultidim.h b/mml/algorithms/OptimizationMultidim.h
index 4b1ea25..fc08989 100644
--- a/mml/algorithms/OptimizationMultidim.h
+++ b/mml/algorithms/OptimizationMultidim.h
@@ -1492,7 +1492,7 @@ namespace MML::Optimization {
 				Real phi_cur = func(xtrial);
 
 				// Check Armijo condition or non-decrease from previous
-				if (phi_cur > phi0 + c1 * alpha_cur * dphi0 || (i > 0 && phi_cur >= phi_prev)) {
+				if (!(phi_cur <= phi0 + c1 * alpha_cur * dphi0) || (i > 0 && phi_cur >= phi_prev)) {
 					Real alpha_star = WolfeZoom(func, x, d, phi0, dphi0, c1, c2, alpha_prev, alpha_cur, phi_prev, phi_cur);
 					AcceptWolfeStep(func, x, d, alpha_star);
 					return func(x);
@@ -1550,7 +1550,7 @@ namespace MML::Optimization {
 					xtrial[j] = x[j] + alpha_j * d[j];
 				Real phi_j = func(xtrial);
 
-				if (phi_j > phi0 + c1 * alpha_j * dphi0 || phi_j >= phi_lo) {
+				if (!(phi_j <= phi0 + c1 * alpha_j * dphi0) || phi_j >= phi_lo) {
 					alpha_hi = alpha_j;
 					phi_hi = phi_j;
 				} else {
-- 
2.43.0


From 3b8695a5d5b0feace6b61deeeaf28d3dd036da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:59 +0000
Subject: [PATCH 086/188] fix: Brent minimisation steps stay above the
 resolution of the bracket

---
 mml/algorithms/Optimization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/Optimization.h b/mml/algorithms/Optimization.h
index 4eea1e5..2566538 100644
--- a/mml/algorithms/Optimization.h
+++ b/mml/algorithms/Optimization.h
@@ -516,7 +516,7 @@ namespace MML {
 			}
 			
 			const Real CGOLD = 0.3819660; // Golden ratio for section (1 - 1/φ)
-			const Real ZEPS = std::numeric_limits<Real>::epsilon() * 1.0e-3;
+			const Real ZEPS = std::numeric_limits<Real>::epsilon() * (1.0e-3 + std::abs(bracket.cx - bracket.ax));	// Absolute tolerance, on the scale of the bracket
 
 			MinimizationResult result;
 			result.converged = false;
-- 
2.43.0


From a452ecffceffc9a593ac9c6e570361a8af58f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:50 +0000
Subject: [PATCH 087/188] fix: one-sample Kaiser and Gaussian windows are 1,
 not NaN

---
 mml/algorithms/FourierWindowing.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mml/algorithms/FourierWindowing.h b/mml/algorithms/FourierWindowing.h
index 01f6870..b9749d3 100644
--- a/mml/algorithms/FourierWindowing.h
+++ b/mml/algorithms/FourierWindowing.h
@@ -201,6 +201,8 @@ namespace MML::Fourier
 		inline Vector<Real> Kaiser(int n, Real beta) {
 			FourierValidation::ValidateWindowSize(n);
 			FourierValidation::ValidateNonNegative(beta, "beta", "Windows::Kaiser");
+			if (n == 1)
+				return Vector<Real>(1, 1.0);
 
 			// Modified Bessel function I0(x) using series expansion
 			auto bessel_i0 = [](Real x) -> Real {
@@ -251,6 +253,8 @@ namespace MML::Fourier
 		inline Vector<Real> Gaussian(int n, Real sigma) {
 			FourierValidation::ValidateWindowSize(n);
 			FourierValidation::ValidatePositive(sigma, "sigma", "Windows::Gaussian");
+			if (n == 1)
+				return Vector<Real>(1, 1.0);
 
 			Vector<Real> window(n);
 			Real center = (n - 1) / 2.0;
-- 
2.43.0


From 7f4ff7690d8cf5e58e18ecd56329f539cbf7847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:50 +0000
Subject: [PATCH 088/188] fix: Kaiser window sums its Bessel series to
 convergence

---
 mml/algorithms/FourierWindowing.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/algorithms/FourierWindowing.h b/mml/algorithms/FourierWindowing.h
index b9749d3..c34426f 100644
--- a/mml/algorithms/FourierWindowing.h
+++ b/mml/algorithms/FourierWindowing.h
@@ -210,7 +210,7 @@ namespace MML::Fourier
 				Real term = 1.0;
 				Real x_half = x / 2.0;
 
-				for (int k = 1; k <= 50; k++) // Sufficient for typical accuracy
+				for (int k = 1; k <= 1000; k++) // Sufficient for typical accuracy
 				{
 					term *= (x_half / k);
 					term *= (x_half / k);
-- 
2.43.0


From 4c851851bed760683e991cc803f7ac0d050c7793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:20 +0000
Subject: [PATCH 089/188] fix: linear least squares centers the data

---
 mml/algorithms/CurveFitting.h | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/mml/algorithms/CurveFitting.h b/mml/algorithms/CurveFitting.h
index 32aaa9c..bd57581 100644
--- a/mml/algorithms/CurveFitting.h
+++ b/mml/algorithms/CurveFitting.h
@@ -159,28 +159,34 @@ namespace MML {
 		}
 
 		// General case: n >= 3 points - least squares
-		// Compute sums for normal equations
-		Scalar sum_x = 0.0, sum_y = 0.0, sum_xx = 0.0, sum_xy = 0.0;
-
+		// Center the data: the normal equations of the raw sums lose all accuracy
+		// when the spread of x is small compared to its offset
+		Scalar mean_x = 0.0, mean_y = 0.0, sum_xx = 0.0;
 		for (int i = 0; i < n; i++) {
-			sum_x += x_data[i];
-			sum_y += y_data[i];
+			mean_x += x_data[i];
+			mean_y += y_data[i];
 			sum_xx += x_data[i] * x_data[i];
-			sum_xy += x_data[i] * y_data[i];
+		}
+		mean_x /= n;
+		mean_y /= n;
+
+		Scalar s_xx = 0.0, s_xy = 0.0;
+		for (int i = 0; i < n; i++) {
+			s_xx += (x_data[i] - mean_x) * (x_data[i] - mean_x);
+			s_xy += (x_data[i] - mean_x) * (y_data[i] - mean_y);
 		}
 
-		// Normal equations matrix: A = [sum_xx  sum_x ]
-		//                              [sum_x   n     ]
-		Scalar det = n * sum_xx - sum_x * sum_x;
+		// Determinant of the normal equations matrix: A = [sum_xx  sum_x ]
+		//                                                 [sum_x   n     ]
+		Scalar det = n * s_xx;
 
 		// Check for singularity (all x values essentially identical)
-		if (std::abs(det) < std::numeric_limits<Scalar>::epsilon() * std::max(std::abs(n * sum_xx), std::abs(sum_x * sum_x))) {
+		if (std::abs(det) < std::numeric_limits<Scalar>::epsilon() * std::abs(n * sum_xx) || det == 0.0) {
 			throw SingularMatrixError("LinearLeastSquares: singular system - all x values are nearly identical", det);
 		}
 
-		// Solve using Cramer's rule (explicit for 2x2 system)
-		a = (n * sum_xy - sum_x * sum_y) / det;
-		b = (sum_xx * sum_y - sum_x * sum_xy) / det;
+		a = s_xy / s_xx;
+		b = mean_y - a * mean_x;
 
 		// Compute residual norm
 		Scalar residual_sum = 0.0;
-- 
2.43.0


From 2e6ca9ac3f95816a27ba79edd805ccc0e4484672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:20 +0000
Subject: [PATCH 090/188] fix: r squared of a fit does not depend on the units
 of the data

---
 mml/algorithms/CurveFitting.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mml/algorithms/CurveFitting.h b/mml/algorithms/CurveFitting.h
index bd57581..dd14518 100644
--- a/mml/algorithms/CurveFitting.h
+++ b/mml/algorithms/CurveFitting.h
@@ -230,6 +230,7 @@ namespace MML {
 		y_mean /= n;
 
 		Scalar ss_tot = 0.0; // Total sum of squares
+		Scalar ss_y = 0.0;	 // Sum of squares, the scale of the data
 		Scalar ss_res = 0.0; // Residual sum of squares
 
 		for (int i = 0; i < n; i++) {
@@ -237,14 +238,15 @@ namespace MML {
 			Scalar residual = y_data[i] - y_pred;
 			ss_res += residual * residual;
 			ss_tot += (y_data[i] - y_mean) * (y_data[i] - y_mean);
+			ss_y += y_data[i] * y_data[i];
 		}
 
 		// R^2 = 1 - (SS_res / SS_tot)
-		if (ss_tot > std::numeric_limits<Scalar>::epsilon()) {
+		if (ss_tot > std::pow(n * std::numeric_limits<Scalar>::epsilon(), 2) * ss_y) {
 			result.r_squared = 1.0 - (ss_res / ss_tot);
 		} else {
 			// All y values are identical
-			result.r_squared = (ss_res < std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
+			result.r_squared = (ss_res <= std::numeric_limits<Scalar>::epsilon() * ss_y) ? 1.0 : 0.0;
 		}
 
 		result.mean_squared_error = ss_res / n;
@@ -389,12 +391,14 @@ namespace MML {
 		y_mean /= m;
 
 		Scalar ss_tot = 0.0; // Total sum of squares
+		Scalar ss_y = 0.0;	 // Sum of squares, the scale of the data
 		for (int i = 0; i < m; i++) {
 			Scalar diff = y_data[i] - y_mean;
 			ss_tot += diff * diff;
+			ss_y += y_data[i] * y_data[i];
 		}
 
-		if (ss_tot > std::numeric_limits<Scalar>::epsilon()) {
+		if (ss_tot > std::pow(m * std::numeric_limits<Scalar>::epsilon(), 2) * ss_y) {
 			result.r_squared = 1.0 - (ss_res / ss_tot);
 			// Adjusted R^2: R^2_adj = 1 - (1 - R^2) * (m - 1) / (m - n)
 			if (m > n)
@@ -402,7 +406,7 @@ namespace MML {
 			else
 				result.adjusted_r_squared = result.r_squared;
 		} else {
-			result.r_squared = (ss_res < std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
+			result.r_squared = (ss_res <= std::numeric_limits<Scalar>::epsilon() * ss_y) ? 1.0 : 0.0;
 			result.adjusted_r_squared = result.r_squared;
 		}
 
@@ -480,19 +484,21 @@ namespace MML {
 		y_mean /= m;
 
 		Scalar ss_tot = 0.0;
+		Scalar ss_y = 0.0;	 // Sum of squares, the scale of the data
 		for (int i = 0; i < m; i++) {
 			Scalar diff = y_data[i] - y_mean;
 			ss_tot += diff * diff;
+			ss_y += y_data[i] * y_data[i];
 		}
 
-		if (ss_tot > std::numeric_limits<Scalar>::epsilon()) {
+		if (ss_tot > std::pow(m * std::numeric_limits<Scalar>::epsilon(), 2) * ss_y) {
 			result.r_squared = 1.0 - (ss_res / ss_tot);
 			if (m > n)
 				result.adjusted_r_squared = 1.0 - (1.0 - result.r_squared) * (m - 1.0) / (m - n);
 			else
 				result.adjusted_r_squared = result.r_squared;
 		} else {
-			result.r_squared = (ss_res < std::numeric_limits<Scalar>::epsilon()) ? 1.0 : 0.0;
+			result.r_squared = (ss_res <= std::numeric_limits<Scalar>::epsilon() * ss_y) ? 1.0 : 0.0;
 			result.adjusted_r_squared = result.r_squared;
 		}
 
-- 
2.43.0


From 6c895af11645488b20f2ac429720c11d3f6be9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:39 +0000
Subject: [PATCH 091/188] fix: variance of a single value is rejected and never
 negative

---
 mml/algorithms/Statistics.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/Statistics.h b/mml/algorithms/Statistics.h
index 26e118b..ee1144d 100644
--- a/mml/algorithms/Statistics.h
+++ b/mml/algorithms/Statistics.h
@@ -42,8 +42,8 @@ namespace MML {
 			Real s, ep;
 			int j, n = data.size();
 
-			if (n <= 0)
-				throw StatisticsError("Vector size must be greater than 0 in AvgVar");
+			if (n <= 1)
+				throw StatisticsError("Vector size must be greater than 1 in AvgVar");
 
 			outAvg = Avg(data);
 
@@ -54,6 +54,8 @@ namespace MML {
 				outVar += s * s;
 			}
 			outVar = (outVar - ep * ep / n) / (n - 1);
+			if (outVar < 0.0) // rounding, for (nearly) constant data
+				outVar = 0.0;
 		}
 		static void AvgStdDev(const Vector<Real>& data, Real& outAvg, Real& outStdDev) {
 			Real var;
-- 
2.43.0


From 6a13e5aa1b58c1d08e3a117b9b62060a71705cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:39 +0000
Subject: [PATCH 092/188] fix: zero-variance data is recognised despite the
 rounding of its mean

---
 mml/algorithms/Statistics.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mml/algorithms/Statistics.h b/mml/algorithms/Statistics.h
index ee1144d..a0ee9c7 100644
--- a/mml/algorithms/Statistics.h
+++ b/mml/algorithms/Statistics.h
@@ -106,7 +106,8 @@ namespace MML {
 			var = (var - ep * ep / n) / (n - 1);
 			sdev = sqrt(var);
 
-			if (var != 0.0) {
+			// The mean of constant data is not exact, so the variance of such data is not exactly 0
+			if (var > std::pow(n * std::numeric_limits<Real>::epsilon() * ave, 2)) {
 				skew /= (n * var * sdev);
 				curt = curt / (n * var * var) - 3.0;
 			} else
@@ -595,9 +596,11 @@ namespace MML {
 				sumY2 += dy * dy;
 			}
 
-			if (sumX2 == 0.0)
+			// The mean of constant data is not exact, so its sum of squares is not exactly 0
+			const Real noise = n * std::numeric_limits<Real>::epsilon();
+			if (sumX2 <= n * std::pow(noise * meanX, 2))
 				throw StatisticsError("First variable has zero variance in PearsonCorrelation");
-			if (sumY2 == 0.0)
+			if (sumY2 <= n * std::pow(noise * meanY, 2))
 				throw StatisticsError("Second variable has zero variance in PearsonCorrelation");
 
 			return sumXY / std::sqrt(sumX2 * sumY2);
@@ -730,7 +733,12 @@ namespace MML {
 			// Extract standard deviations from diagonal
 			Vector<Real> stdDevs(p);
 			for (int j = 0; j < p; j++) {
-				if (covMatrix(j, j) <= 0.0)
+				Real mean = 0.0;
+				for (int i = 0; i < n; i++)
+					mean += data(i, j);
+				mean /= n;
+				// The mean of constant data is not exact, so its variance is not exactly 0
+				if (covMatrix(j, j) <= std::pow(n * std::numeric_limits<Real>::epsilon() * mean, 2))
 					throw StatisticsError("Variable has zero or negative variance in CorrelationMatrix");
 				stdDevs[j] = std::sqrt(covMatrix(j, j));
 			}
-- 
2.43.0


From a376f417f3776daf0f65da90064c30f05a787b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:47 +0000
Subject: [PATCH 093/188] fix: rank statistics tie only equal values

---
 mml/algorithms/Statistics/StatisticsRank.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mml/algorithms/Statistics/StatisticsRank.h b/mml/algorithms/Statistics/StatisticsRank.h
index 50a0a91..1d8a625 100644
--- a/mml/algorithms/Statistics/StatisticsRank.h
+++ b/mml/algorithms/Statistics/StatisticsRank.h
@@ -47,7 +47,7 @@ namespace MML
 			while (i < n) {
 				int j = i;
 				// Find extent of tied values
-				while (j < n - 1 && std::abs(data[indices[j + 1]] - data[indices[i]]) < 1e-14)
+				while (j < n - 1 && data[indices[j + 1]] == data[indices[i]])
 					j++;
 
 				// Average rank for tied values
@@ -170,16 +170,14 @@ namespace MML
 			long long tiedX = 0;
 			long long tiedY = 0;
 
-			const Real eps = 1e-14;
-
 			// Count all pairs
 			for (int i = 0; i < n - 1; i++) {
 				for (int j = i + 1; j < n; j++) {
 					Real dx = x[j] - x[i];
 					Real dy = y[j] - y[i];
 
-					bool xTied = std::abs(dx) < eps;
-					bool yTied = std::abs(dy) < eps;
+					bool xTied = dx == 0;
+					bool yTied = dy == 0;
 
 					if (xTied && yTied) {
 						// Both tied - don't count
-- 
2.43.0


From 5c73b53480ba8331646219ff273856b611e90777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 094/188] fix: T, Gamma and Beta quantiles solve cdf(x) = p
 inside a bracket

---
 mml/algorithms/Statistics/Distributions.h | 86 +++++++++++------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 20c8eeb..b3c32d8 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -17,6 +17,32 @@ namespace MML
 {
 	namespace Statistics
 	{
+		/// @brief Solve cdf(x) = p for x in [lo, hi]: Newton's method safeguarded by bisection
+		/// @param x Initial guess
+		template<typename Cdf, typename Pdf>
+		inline Real quantileInBracket(Cdf cdf, Pdf pdf, Real p, Real lo, Real hi, Real x)
+		{
+			if (!(x > lo && x < hi))
+				x = 0.5 * (lo + hi);
+			for (int iter = 0; iter < 1000; iter++) {
+				Real f = cdf(x) - p;
+				if (f == 0.0)
+					return x;
+				if (f < 0.0)
+					lo = x;
+				else
+					hi = x;
+				Real xNew = x - f / pdf(x);
+				if (!(xNew > lo && xNew < hi))
+					xNew = 0.5 * (lo + hi);
+				Real dx = std::abs(xNew - x);
+				x = xNew;
+				if (dx <= 1e-15 * std::abs(x) || x == lo || x == hi)
+					break;
+			}
+			return x;
+		}
+
 		/// @brief Normal (Gaussian) distribution
 		/// The normal distribution is the most important continuous distribution,
 		/// central to the Central Limit Theorem and statistical inference.
@@ -304,26 +330,16 @@ namespace MML
 					return std::tan(Constants::PI * (p - 0.5));
 				}
 
-				// Use Newton-Raphson iteration
-				// Start with normal approximation
-				Real t = StandardNormal::inverseCdf(p);
-				
-				// Refine with Newton-Raphson
-				for (int iter = 0; iter < 10; iter++) {
-					Real f = cdf(t) - p;
-					Real fprime = pdf(t);
-					
-					if (std::abs(fprime) < 1e-14)
-						break;
-					
-					Real delta = f / fprime;
-					t -= delta;
-					
-					if (std::abs(delta) < Precision::DefaultToleranceStrict)
-						break;
-				}
-				
-				return t;
+				// By symmetry work in the lower tail
+				if (p > 0.5)
+					return -inverseCdf(1.0 - p);
+
+				// Newton-Raphson iteration inside a bracket, from the normal approximation
+				Real lo = -1.0;
+				while (cdf(lo) > p)
+					lo *= 2.0;
+				return quantileInBracket([this](Real t) { return cdf(t); }, [this](Real t) { return pdf(t); },
+																 p, lo, 0.0, StandardNormal::inverseCdf(p));
 			}
 
 			/// @brief Survival function: P(T > t)
@@ -1067,17 +1083,11 @@ namespace MML
 					x = 0.5 * shape * scale;
 				}
 
-				// Newton-Raphson refinement
-				for (int iter = 0; iter < 50; iter++) {
-					Real f = cdf(x) - p;
-					Real fp = pdf(x);
-					if (std::abs(fp) < 1e-30) break;
-					Real dx = f / fp;
-					x -= dx;
-					if (x <= 0.0) x = 1e-10;
-					if (std::abs(dx) < 1e-12 * x) break;
-				}
-				return x;
+				// Newton-Raphson refinement inside a bracket
+				Real hi = shape * scale;
+				while (cdf(hi) < p)
+					hi *= 2.0;
+				return quantileInBracket([this](Real t) { return cdf(t); }, [this](Real t) { return pdf(t); }, p, 0.0, hi, x);
 			}
 
 			Real mean() const { return shape * scale; }
@@ -1221,18 +1231,8 @@ namespace MML
 					x = (alpha - 1.0) / (alpha + beta - 2.0);
 				}
 
-				// Newton-Raphson
-				for (int iter = 0; iter < 50; iter++) {
-					Real f = cdf(x) - p;
-					Real fp = pdf(x);
-					if (std::abs(fp) < 1e-30) break;
-					Real dx = f / fp;
-					x -= dx;
-					if (x <= 0.0) x = 1e-10;
-					if (x >= 1.0) x = 1.0 - 1e-10;
-					if (std::abs(dx) < 1e-12) break;
-				}
-				return x;
+				// Newton-Raphson inside the bracket [0, 1]
+				return quantileInBracket([this](Real t) { return cdf(t); }, [this](Real t) { return pdf(t); }, p, 0.0, 1.0, x);
 			}
 
 			Real mean() const { return alpha / (alpha + beta); }
-- 
2.43.0


From de1945e1eae895101f9bbd619a1ac572762fee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 095/188] fix: chi-square and F critical values are not capped

---
 mml/algorithms/Statistics/Distributions.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index b3c32d8..7882a01 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -530,16 +530,17 @@ namespace MML
 				// Find x where CDF(x) = 1 - alpha using binary search
 				Real low = 0.0;
 				Real high = mean() + 10.0 * stddev();  // Start with reasonable upper bound
-				Real tolerance = 1e-9;
-				int maxIterations = 100;
+				while (rightTailPValue(high) > alpha)
+					high *= 2.0;
+				int maxIterations = 200;
 
 				for (int iter = 0; iter < maxIterations; iter++) {
 					Real mid = (low + high) / 2.0;
 					Real cdf_mid = cdf(mid);
 					Real target = 1.0 - alpha;
 
-					if (std::abs(cdf_mid - target) < tolerance)
-						return mid;
+					if (mid <= low || mid >= high)
+						break;
 
 					if (cdf_mid < target)
 						low = mid;
@@ -715,15 +716,16 @@ namespace MML
         // Binary search for critical value
         Real low = 0.0;
         Real high = 100.0;  // Start with reasonable upper bound
-        Real tolerance = 1e-9;
-        int maxIterations = 100;
+        while (rightTailPValue(high) > alpha)
+          high *= 2.0;
+        int maxIterations = 200;
 
         for (int iter = 0; iter < maxIterations; iter++) {
           Real mid = (low + high) / 2.0;
           Real pValue = rightTailPValue(mid);
 
-          if (std::abs(pValue - alpha) < tolerance)
-            return mid;
+          if (mid <= low || mid >= high)
+            break;
 
           if (pValue > alpha)  // Need larger F
             low = mid;
-- 
2.43.0


From 537b87abcaee3640d4f5744e24db152cc13ea620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:49 +0000
Subject: [PATCH 096/188] fix: logistic density does not overflow in the left
 tail

---
 mml/algorithms/Statistics/Distributions.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index 7882a01..b92365d 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -929,7 +929,8 @@ namespace MML
 				// Standard logistic PDF: f(x) = e^(-z) / (σ(1 + e^(-z))²)
 				// where z = (x - μ) / σ
 				Real z = (x - mu) / sigma;
-				Real exp_neg_z = std::exp(-z);
+				// The density is symmetric in z; exp(-|z|) cannot overflow
+				Real exp_neg_z = std::exp(-std::abs(z));
 				Real denom = 1.0 + exp_neg_z;
 				return exp_neg_z / (sigma * denom * denom);
 			}
-- 
2.43.0


From 2adbc001b76d14151ee8fc9160f01ca065d94a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:53 +0000
Subject: [PATCH 097/188] fix: t and F distribution functions form both
 arguments of the incomplete beta without cancellation

---
 mml/algorithms/Statistics/Distributions.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/Statistics/Distributions.h b/mml/algorithms/Statistics/Distributions.h
index b92365d..43555dc 100644
--- a/mml/algorithms/Statistics/Distributions.h
+++ b/mml/algorithms/Statistics/Distributions.h
@@ -300,7 +300,9 @@ namespace MML
 				Real absX = std::abs(x);
 				Real x2 = absX * absX;
 				Real xBeta = nu / (nu + x2);
-				Real betaReg = incompleteBetaRegularized(xBeta, nu / 2.0, 0.5);
+				// Near the centre 1 - xBeta is formed directly, it would cancel
+				Real betaReg = (x2 < nu) ? 1.0 - incompleteBetaRegularized(x2 / (nu + x2), 0.5, nu / 2.0)
+																 : incompleteBetaRegularized(xBeta, nu / 2.0, 0.5);
 				
 				Real result = 1.0 - 0.5 * betaReg;
 				
@@ -694,6 +696,8 @@ namespace MML
         // F-CDF = I_y(df1/2, df2/2) where y = (df1*x)/(df1*x + df2)
         // I is regularized incomplete beta function
         Real y = (_df1 * x) / (_df1 * x + _df2);
+        if (_df1 * x > _df2)  // 1 - y would cancel
+          return 1.0 - rightTailPValue(x);
         return incompleteBeta(_df1 / 2.0, _df2 / 2.0, y);
       }
 
@@ -702,7 +706,9 @@ namespace MML
       /// This is the p-value for F-tests (ANOVA, regression)
       Real rightTailPValue(Real f) const
       {
-        return 1.0 - cdf(f);
+        if (f <= 0.0)
+          return 1.0;
+        return incompleteBeta(_df2 / 2.0, _df1 / 2.0, _df2 / (_df2 + _df1 * f));
       }
 
       /// @brief Critical value for given significance level (right-tail test)
-- 
2.43.0


From 0281038964de1290955759d3a1817b73848dd2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:10 +0000
Subject: [PATCH 098/188] fix: chi-square independence test rejects tables with
 an empty row or column

---
 mml/algorithms/Statistics/StatisticsHypothesis.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mml/algorithms/Statistics/StatisticsHypothesis.h b/mml/algorithms/Statistics/StatisticsHypothesis.h
index 80b5b23..5673424 100644
--- a/mml/algorithms/Statistics/StatisticsHypothesis.h
+++ b/mml/algorithms/Statistics/StatisticsHypothesis.h
@@ -441,6 +441,13 @@ namespace MML
 
 			// Compute chi-square statistic
 			Real chiSquare = 0.0;
+			for (int i = 0; i < rows; i++)
+				if (rowTotals[i] <= 0.0)
+					throw StatisticsError("Every row of the table must have a positive total");
+			for (int j = 0; j < cols; j++)
+				if (colTotals[j] <= 0.0)
+					throw StatisticsError("Every column of the table must have a positive total");
+
 			for (int i = 0; i < rows; i++) {
 				for (int j = 0; j < cols; j++) {
 					// Expected frequency under independence
-- 
2.43.0


From f6f3359f68dd9e147e621e7f22acd48b5ed60ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:10 +0000
Subject: [PATCH 099/188] fix: t-tests and ANOVA on samples without spread
 return a definite result

---
 .../Statistics/StatisticsHypothesis.h         | 39 +++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/mml/algorithms/Statistics/StatisticsHypothesis.h b/mml/algorithms/Statistics/StatisticsHypothesis.h
index 5673424..f2729b2 100644
--- a/mml/algorithms/Statistics/StatisticsHypothesis.h
+++ b/mml/algorithms/Statistics/StatisticsHypothesis.h
@@ -53,6 +53,18 @@ namespace MML
 			{}
 		};
 
+		/// @brief Result of a t-test when the data have no spread at all
+		///
+		/// Equal means cannot be rejected; different means are the strongest possible
+		/// evidence (a large finite t-statistic is returned instead of infinity).
+		inline HypothesisTestResult ZeroVarianceTTestResult(Real mean, Real reference, Real alpha, int df, const std::string& name)
+		{
+			Real scale = std::max(std::abs(mean), std::abs(reference));
+			if (std::abs(mean - reference) <= std::numeric_limits<Real>::epsilon() * scale)
+				return HypothesisTestResult(0.0, 1.0, 0.0, false, 1.0 - alpha, df, name);
+			return HypothesisTestResult(mean > reference ? 1000.0 : -1000.0, 0.0, 0.0, true, 1.0 - alpha, df, name);
+		}
+
 		/// @brief One-sample t-test
 		///
 		/// Tests the null hypothesis H0: μ = μ0 against H1: μ ≠ μ0
@@ -86,18 +98,7 @@ namespace MML
 
 			// Handle zero variance edge case
 			if (sampleStd == 0.0) {
-				// All values are identical
-				Real diff = std::abs(sampleMean - mu0);
-				if (diff < std::numeric_limits<Real>::epsilon()) {
-					// Perfect match with mu0 - cannot reject null
-					return HypothesisTestResult(0.0, 1.0, 0.0, false, 1.0 - alpha, df, "One-Sample t-Test");
-				}
-				else {
-					// All values identical but different from mu0 - strong evidence against null
-					// Return large finite t-statistic instead of infinity
-					Real largeT = (sampleMean > mu0) ? 1000.0 : -1000.0;
-					return HypothesisTestResult(largeT, 0.0, 0.0, true, 1.0 - alpha, df, "One-Sample t-Test");
-				}
+				return ZeroVarianceTTestResult(sampleMean, mu0, alpha, df, "One-Sample t-Test");
 			}
 
 			// Compute t-statistic
@@ -167,12 +168,15 @@ namespace MML
 			// Standard error
 			Real standardError = pooledStd * std::sqrt(1.0 / n1 + 1.0 / n2);
 
-			// t-statistic
-			Real tStatistic = (mean1 - mean2) / standardError;
-
 			// Degrees of freedom
 			int df = n1 + n2 - 2;
 
+			if (standardError == 0.0)
+				return ZeroVarianceTTestResult(mean1, mean2, alpha, df, "Two-Sample t-Test (Pooled)");
+
+			// t-statistic
+			Real tStatistic = (mean1 - mean2) / standardError;
+
 			// Create t-distribution
 			TDistribution tDist(df);
 
@@ -234,6 +238,9 @@ namespace MML
 			Real se2 = var2 / n2;
 			Real standardError = std::sqrt(se1 + se2);
 
+			if (standardError == 0.0)
+				return ZeroVarianceTTestResult(mean1, mean2, alpha, n1 + n2 - 2, "Welch's t-Test (Unequal Variances)");
+
 			// t-statistic
 			Real tStatistic = (mean1 - mean2) / standardError;
 
@@ -562,7 +569,7 @@ namespace MML
 			Real MSW = SSW / df_within;       // Mean square within
 
 			// F-statistic
-			Real F = MSB / MSW;
+			Real F = (MSB > 0.0) ? MSB / MSW : 0.0;
 
 			// Create F-distribution
 			FDistribution fDist(df_between, df_within);
-- 
2.43.0


From ef95cd1550abbd591bdd328025395ff9260b06d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:03 +0000
Subject: [PATCH 100/188] fix: planar hull tolerances scale with the point set

---
 mml/algorithms/CompGeometry/ConvexHull.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mml/algorithms/CompGeometry/ConvexHull.h b/mml/algorithms/CompGeometry/ConvexHull.h
index c059255..62ce88d 100644
--- a/mml/algorithms/CompGeometry/ConvexHull.h
+++ b/mml/algorithms/CompGeometry/ConvexHull.h
@@ -62,9 +62,19 @@ namespace CompGeometry {
 				return (a.X() < b.X()) || (a.X() == b.X() && a.Y() < b.Y());
 			});
 
+			// Tolerances shrink with the point set, so that small sets do not collapse
+			Real minY = points[0].Y(), maxY = points[0].Y();
+			for (const auto& p : points) {
+				minY = std::min(minY, p.Y());
+				maxY = std::max(maxY, p.Y());
+			}
+			Real extent = std::min(Real(1.0), std::max(points[n - 1].X() - points[0].X(), maxY - minY));
+			const Real epsLength = EPSILON * extent;
+			const Real epsCross = EPSILON * extent * extent;
+
 			// Remove duplicates
-			auto last = std::unique(points.begin(), points.end(), [](const Point2Cartesian& a, const Point2Cartesian& b) {
-				return std::abs(a.X() - b.X()) < EPSILON && std::abs(a.Y() - b.Y()) < EPSILON;
+			auto last = std::unique(points.begin(), points.end(), [epsLength](const Point2Cartesian& a, const Point2Cartesian& b) {
+				return std::abs(a.X() - b.X()) <= epsLength && std::abs(a.Y() - b.Y()) <= epsLength;
 			});
 			points.erase(last, points.end());
 			n = static_cast<int>(points.size());
@@ -78,7 +88,7 @@ namespace CompGeometry {
 
 			// Build lower hull
 			for (int i = 0; i < n; ++i) {
-				while (k >= 2 && Cross(hull[k - 2], hull[k - 1], points[i]) <= EPSILON)
+				while (k >= 2 && Cross(hull[k - 2], hull[k - 1], points[i]) <= epsCross)
 					--k;
 				hull[k++] = points[i];
 			}
@@ -86,7 +96,7 @@ namespace CompGeometry {
 			// Build upper hull
 			int lowerSize = k + 1;
 			for (int i = n - 2; i >= 0; --i) {
-				while (k >= lowerSize && Cross(hull[k - 2], hull[k - 1], points[i]) <= EPSILON)
+				while (k >= lowerSize && Cross(hull[k - 2], hull[k - 1], points[i]) <= epsCross)
 					--k;
 				hull[k++] = points[i];
 			}
-- 
2.43.0


From 82719bbdfc370d78ef6321de73b3f68faafe36d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:03 +0000
Subject: [PATCH 101/188] fix: spatial hull of coplanar points is their planar
 hull

---
 mml/algorithms/CompGeometry/ConvexHull3D.h | 40 +++++++++++++++++++---
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/mml/algorithms/CompGeometry/ConvexHull3D.h b/mml/algorithms/CompGeometry/ConvexHull3D.h
index 3d67ea7..f22dfa1 100644
--- a/mml/algorithms/CompGeometry/ConvexHull3D.h
+++ b/mml/algorithms/CompGeometry/ConvexHull3D.h
@@ -237,11 +237,7 @@ public:
 		
 		if (p3 < 0 || maxPlaneDist < 1e-14) {
 			// Points are coplanar - return 2D hull as degenerate 3D hull
-			hull.vertices.push_back(points[p0]);
-			hull.vertices.push_back(points[p1]);
-			hull.vertices.push_back(points[p2]);
-			hull.faces.push_back({0, 1, 2});
-			return hull;
+			return CoplanarHull(points, planeNormal);
 		}
 		
 		// Build initial tetrahedron
@@ -508,6 +504,40 @@ public:
 	}
 
 private:
+	/// @brief Hull of coplanar points: the vertices of the planar hull and a triangle fan over them
+	static ConvexHull3D CoplanarHull(std::vector<Point3Cartesian> points, const Vector3Cartesian& normal) {
+		// Drop the coordinate along which the plane is seen most directly
+		Real nx = std::abs(normal.X()), ny = std::abs(normal.Y()), nz = std::abs(normal.Z());
+		bool dropX = (nx >= ny && nx >= nz), dropY = !dropX && (ny >= nz);
+		auto u = [&](const Point3Cartesian& p) { return dropX ? p.Y() : p.X(); };
+		auto v = [&](const Point3Cartesian& p) { return (dropX || dropY) ? p.Z() : p.Y(); };
+		auto turn = [&](const Point3Cartesian& o, const Point3Cartesian& a, const Point3Cartesian& b) {
+			return (u(a) - u(o)) * (v(b) - v(o)) - (v(a) - v(o)) * (u(b) - u(o));
+		};
+
+		std::sort(points.begin(), points.end(), [&](const Point3Cartesian& a, const Point3Cartesian& b) {
+			return (u(a) < u(b)) || (u(a) == u(b) && v(a) < v(b));
+		});
+
+		ConvexHull3D hull;
+		std::vector<Point3Cartesian>& h = hull.vertices;
+		int n = static_cast<int>(points.size());
+		for (int pass = 0, first = 0; pass < 2; pass++) {
+			for (int i = 0; i < n; i++) {
+				const Point3Cartesian& p = points[pass == 0 ? i : n - 1 - i];
+				while (static_cast<int>(h.size()) >= first + 2 && turn(h[h.size() - 2], h.back(), p) <= 0.0)
+					h.pop_back();
+				h.push_back(p);
+			}
+			h.pop_back();  // First point of the other chain
+			first = static_cast<int>(h.size());
+		}
+
+		for (int i = 1; i + 1 < hull.NumVertices(); i++)
+			hull.faces.push_back({0, i, i + 1});
+		return hull;
+	}
+
 	/// @brief Squared distance between two 3D points
 	static Real Distance2(const Point3Cartesian& a, const Point3Cartesian& b) {
 		Real dx = b.X() - a.X();
-- 
2.43.0


From 8d4673cfe6018d2299d11dfc0bacc0d9a1d12ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:03 +0000
Subject: [PATCH 102/188] fix: spatial hull does not depend on the unit of
 length

---
 mml/algorithms/CompGeometry/ConvexHull3D.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/CompGeometry/ConvexHull3D.h b/mml/algorithms/CompGeometry/ConvexHull3D.h
index f22dfa1..cbd64cd 100644
--- a/mml/algorithms/CompGeometry/ConvexHull3D.h
+++ b/mml/algorithms/CompGeometry/ConvexHull3D.h
@@ -144,6 +144,23 @@ public:
 	/// @param points Input points
 	/// @return ConvexHull3D structure with vertices and faces
 	static ConvexHull3D Compute(std::vector<Point3Cartesian> points) {
+		// The tolerances below assume coordinates of order one: scale by a power of two (exact)
+		Real extent = 0.0;
+		for (const auto& p : points)
+			extent = std::max({ extent, std::abs(p.X() - points[0].X()), std::abs(p.Y() - points[0].Y()),
+													std::abs(p.Z() - points[0].Z()) });
+		Real scale = (extent > 0.0 && std::isfinite(extent)) ? std::ldexp(Real(1.0), -std::ilogb(extent)) : Real(1.0);
+		for (auto& p : points)
+			p = Point3Cartesian(p.X() * scale, p.Y() * scale, p.Z() * scale);
+
+		ConvexHull3D hull = ComputeScaled(points);
+		for (auto& v : hull.vertices)
+			v = Point3Cartesian(v.X() / scale, v.Y() / scale, v.Z() / scale);
+		return hull;
+	}
+
+private:
+	static ConvexHull3D ComputeScaled(std::vector<Point3Cartesian> points) {
 		ConvexHull3D hull;
 		
 		int n = static_cast<int>(points.size());
@@ -503,7 +520,6 @@ public:
 		return hull;
 	}
 
-private:
 	/// @brief Hull of coplanar points: the vertices of the planar hull and a triangle fan over them
 	static ConvexHull3D CoplanarHull(std::vector<Point3Cartesian> points, const Vector3Cartesian& normal) {
 		// Drop the coordinate along which the plane is seen most directly
-- 
2.43.0


From 17d58055edcb6af43182ed9cf451623420681274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:31 +0000
Subject: [PATCH 103/188] fix: spatial hull lists only vertices of its faces

---
 mml/algorithms/CompGeometry/ConvexHull3D.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mml/algorithms/CompGeometry/ConvexHull3D.h b/mml/algorithms/CompGeometry/ConvexHull3D.h
index cbd64cd..33511ca 100644
--- a/mml/algorithms/CompGeometry/ConvexHull3D.h
+++ b/mml/algorithms/CompGeometry/ConvexHull3D.h
@@ -516,6 +516,19 @@ private:
 				hull.faces.push_back(fd.vertices);
 			}
 		}
+
+		// Keep only the vertices that are still part of some face
+		std::vector<int> newIndex(hull.vertices.size(), -1);
+		std::vector<Point3Cartesian> usedVertices;
+		for (auto& face : hull.faces)
+			for (int& v : face) {
+				if (newIndex[v] < 0) {
+					newIndex[v] = static_cast<int>(usedVertices.size());
+					usedVertices.push_back(hull.vertices[v]);
+				}
+				v = newIndex[v];
+			}
+		hull.vertices = usedVertices;
 		
 		return hull;
 	}
-- 
2.43.0


From b7118d1b3b0b68112e1c16ef3d3def07570f6f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:49 +0000
Subject: [PATCH 104/188] fix: spatial hull volume is measured from a hull
 vertex

---
 mml/algorithms/CompGeometry/ConvexHull3D.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mml/algorithms/CompGeometry/ConvexHull3D.h b/mml/algorithms/CompGeometry/ConvexHull3D.h
index 33511ca..365ede7 100644
--- a/mml/algorithms/CompGeometry/ConvexHull3D.h
+++ b/mml/algorithms/CompGeometry/ConvexHull3D.h
@@ -63,14 +63,19 @@ struct ConvexHull3D {
 	Real Volume() const {
 		if (NumFaces() == 0) return 0.0;
 		
-		// Use signed tetrahedra with origin
+		// Use signed tetrahedra with the first vertex
 		Real volume = 0.0;
 		for (const auto& face : faces) {
-			const Point3Cartesian& a = vertices[face[0]];
-			const Point3Cartesian& b = vertices[face[1]];
-			const Point3Cartesian& c = vertices[face[2]];
+			// Relative to a hull vertex: no cancellation for hulls far from the origin
+			auto rel = [this](int i) {
+				return Point3Cartesian(vertices[i].X() - vertices[0].X(), vertices[i].Y() - vertices[0].Y(),
+															 vertices[i].Z() - vertices[0].Z());
+			};
+			const Point3Cartesian a = rel(face[0]);
+			const Point3Cartesian b = rel(face[1]);
+			const Point3Cartesian c = rel(face[2]);
 			
-			// Signed volume of tetrahedron with origin
+			// Signed volume of tetrahedron with that vertex
 			volume += (a.X() * (b.Y() * c.Z() - b.Z() * c.Y()) +
 			           a.Y() * (b.Z() * c.X() - b.X() * c.Z()) +
 			           a.Z() * (b.X() * c.Y() - b.Y() * c.X())) / 6.0;
-- 
2.43.0


From c70dc188854dd08d48671560e6153b75395b93c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:19 +0000
Subject: [PATCH 105/188] fix: Delaunay triangulation covers the whole convex
 hull

---
 mml/algorithms/CompGeometry/Triangulation.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mml/algorithms/CompGeometry/Triangulation.h b/mml/algorithms/CompGeometry/Triangulation.h
index 6baf8c4..e233fcf 100644
--- a/mml/algorithms/CompGeometry/Triangulation.h
+++ b/mml/algorithms/CompGeometry/Triangulation.h
@@ -253,9 +253,11 @@ public:
 		Real midY = (minY + maxY) / Real(2.0);
 
 		// Super-triangle vertices in CCW order (very large to contain all points)
-		Point2Cartesian st1(midX - 20 * deltaMax, midY - deltaMax);
-		Point2Cartesian st2(midX + 20 * deltaMax, midY - deltaMax);
-		Point2Cartesian st3(midX, midY + 20 * deltaMax);
+		// Its vertices act as points at infinity: no circumcircle of a thin hull triangle may reach them
+		Real far = Real(1e7) * deltaMax;
+		Point2Cartesian st1(midX - 3 * far, midY - far);
+		Point2Cartesian st2(midX + 3 * far, midY - far);
+		Point2Cartesian st3(midX, midY + 3 * far);
 
 		// Working point list: original points then super-triangle vertices
 		std::vector<Point2Cartesian> workPoints = points;
-- 
2.43.0


From 9ff4d01e7953cb72183d0b96e441a2c47ae62470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:19 +0000
Subject: [PATCH 106/188] fix: Delaunay in-circle test is relative

---
 mml/algorithms/CompGeometry/Triangulation.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/CompGeometry/Triangulation.h b/mml/algorithms/CompGeometry/Triangulation.h
index e233fcf..d666449 100644
--- a/mml/algorithms/CompGeometry/Triangulation.h
+++ b/mml/algorithms/CompGeometry/Triangulation.h
@@ -439,7 +439,12 @@ private:
 				   ay * (bx * cp - bp * cx) +
 				   ap * (bx * cy - by * cx);
 
-		return det > EPSILON;
+		// Tolerance relative to the terms of the determinant (rounding error bound), not to a unit of length
+		Real magnitude = std::abs(ax) * (std::abs(by * cp) + std::abs(bp * cy)) +
+						 std::abs(ay) * (std::abs(bx * cp) + std::abs(bp * cx)) +
+						 ap * (std::abs(bx * cy) + std::abs(by * cx));
+
+		return det > Real(1e-14) * magnitude;
 	}
 
 	// Unique edge representation for Bowyer-Watson
-- 
2.43.0


From 8fdd121a86ee3846d78adfbb75b6d9df404bc19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:20 +0000
Subject: [PATCH 107/188] fix: Delaunay interpolation works in small triangles

---
 mml/algorithms/CompGeometry/Triangulation.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mml/algorithms/CompGeometry/Triangulation.h b/mml/algorithms/CompGeometry/Triangulation.h
index d666449..32807f2 100644
--- a/mml/algorithms/CompGeometry/Triangulation.h
+++ b/mml/algorithms/CompGeometry/Triangulation.h
@@ -77,7 +77,6 @@ struct DelaunayTriangulation {
 	/// @return Linearly interpolated value using barycentric coordinates
 	Real Interpolate(const Point2Cartesian& p, const std::vector<Real>& values, 
 					 Real defaultVal = 0.0) const {
-		constexpr Real EPSILON = 1e-10;
 		if (values.size() != points.size())
 			return defaultVal;
 
@@ -92,7 +91,7 @@ struct DelaunayTriangulation {
 
 		// Compute barycentric coordinates
 		Real denom = (b.Y() - c.Y()) * (a.X() - c.X()) + (c.X() - b.X()) * (a.Y() - c.Y());
-		if (std::abs(denom) < EPSILON)
+		if (denom == 0.0)
 			return defaultVal;
 
 		Real w1 = ((b.Y() - c.Y()) * (p.X() - c.X()) + (c.X() - b.X()) * (p.Y() - c.Y())) / denom;
-- 
2.43.0


From 0c8bf9dcc716a3d4bd969f3105b4b33453e52d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:20 +0000
Subject: [PATCH 108/188] fix: ear clipping does not depend on the unit of
 length

---
 mml/algorithms/CompGeometry/Triangulation.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/mml/algorithms/CompGeometry/Triangulation.h b/mml/algorithms/CompGeometry/Triangulation.h
index 32807f2..fde6845 100644
--- a/mml/algorithms/CompGeometry/Triangulation.h
+++ b/mml/algorithms/CompGeometry/Triangulation.h
@@ -173,12 +173,19 @@ public:
 		}
 
 		// Clip ears until only a triangle remains
+		// The tolerance shrinks with the polygon, so that small polygons are not taken for degenerate
+		Real extent = 0;
+		for (const auto& v : vertices)
+			extent = std::max({extent, std::abs(v.X() - vertices[0].X()), std::abs(v.Y() - vertices[0].Y())});
+		extent = std::min(extent, Real(1.0));
+		const Real eps = EPSILON * extent * extent;
+
 		while (vertices.size() > 3) {
 			n = static_cast<int>(vertices.size());
 			bool earFound = false;
 
 			for (int i = 0; i < n; i++) {
-				if (IsEar(vertices, i, n)) {
+				if (IsEar(vertices, i, n, eps)) {
 					// Found an ear - add triangle and remove vertex
 					int prev = (i - 1 + n) % n;
 					int next = (i + 1) % n;
@@ -376,7 +383,7 @@ private:
 	}
 
 	// Check if vertex at index i is an "ear" in the polygon
-	static bool IsEar(const std::vector<Point2Cartesian>& vertices, int i, int n) {
+	static bool IsEar(const std::vector<Point2Cartesian>& vertices, int i, int n, Real eps) {
 		int prev = (i - 1 + n) % n;
 		int next = (i + 1) % n;
 
@@ -385,7 +392,7 @@ private:
 		const Point2Cartesian& c = vertices[next];
 
 		// Check if the triangle is convex (CCW orientation means convex for CCW polygon)
-		if (Cross(a, b, c) <= EPSILON)
+		if (Cross(a, b, c) <= eps)
 			return false; // Reflex vertex, not an ear
 
 		// Check that no other vertex is inside this triangle
@@ -393,7 +400,7 @@ private:
 			if (j == prev || j == i || j == next)
 				continue;
 
-			if (IsPointInTriangle(vertices[j], a, b, c))
+			if (IsPointInTriangle(vertices[j], a, b, c, eps))
 				return false;
 		}
 
@@ -402,13 +409,13 @@ private:
 
 	// Point-in-triangle test using barycentric coordinates
 	static bool IsPointInTriangle(const Point2Cartesian& p, const Point2Cartesian& a, 
-								  const Point2Cartesian& b, const Point2Cartesian& c) {
+								  const Point2Cartesian& b, const Point2Cartesian& c, Real eps) {
 		Real d1 = Cross(a, b, p);
 		Real d2 = Cross(b, c, p);
 		Real d3 = Cross(c, a, p);
 
-		bool hasNeg = (d1 < -EPSILON) || (d2 < -EPSILON) || (d3 < -EPSILON);
-		bool hasPos = (d1 > EPSILON) || (d2 > EPSILON) || (d3 > EPSILON);
+		bool hasNeg = (d1 < -eps) || (d2 < -eps) || (d3 < -eps);
+		bool hasPos = (d1 > eps) || (d2 > eps) || (d3 > eps);
 
 		return !(hasNeg && hasPos);
 	}
-- 
2.43.0


From 0d94810cabace7e13d70ea425829dc2e7a35a937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:20 +0000
Subject: [PATCH 109/188] fix: Voronoi cell vertices are complete and
 counter-clockwise

---
 mml/algorithms/CompGeometry/VoronoiDiagram.h | 72 +++++++-------------
 1 file changed, 25 insertions(+), 47 deletions(-)

diff --git a/mml/algorithms/CompGeometry/VoronoiDiagram.h b/mml/algorithms/CompGeometry/VoronoiDiagram.h
index c992dd6..e26f8e5 100644
--- a/mml/algorithms/CompGeometry/VoronoiDiagram.h
+++ b/mml/algorithms/CompGeometry/VoronoiDiagram.h
@@ -386,58 +386,36 @@ public:
 				continue;
 			}
 			
-			// Order triangles around the site
-			std::vector<int> ordered;
-			std::vector<bool> used(triangles.size(), false);
-			
-			// Start with first triangle
-			ordered.push_back(triangles[0]);
-			used[0] = true;
-			
-			// Try to build a chain
-			for (size_t iter = 0; iter < triangles.size() - 1; iter++) {
-				int lastTri = ordered.back();
-				bool found = false;
-				
-				for (size_t i = 0; i < triangles.size(); i++) {
-					if (used[i]) continue;
-					int candTri = triangles[i];
-					
-					// Check if triangles share an edge (are neighbors)
-					for (int edge = 0; edge < 3; edge++) {
-						if (dt.neighbors[lastTri][edge] == candTri) {
-							ordered.push_back(candTri);
-							used[i] = true;
-							found = true;
-							break;
-						}
-					}
-					if (found) break;
-				}
-				
-				if (!found) {
-					// Gap in the chain - cell is infinite
+			// Index of the site within a triangle
+			auto corner = [&](int t) {
+				int k = 0;
+				while (dt.triangles[t][k] != s)
+					k++;
+				return k;
+			};
+
+			// Walk clockwise to the first triangle of the fan (the cell is closed if there is none)
+			int first = triangles[0];
+			for (size_t steps = 0; steps < triangles.size(); steps++) {
+				int previous = dt.neighbors[first][corner(first)];
+				if (previous < 0) {
 					vd.cellIsInfinite[s] = true;
 					break;
 				}
+				if (previous == triangles[0])
+					break;
+				first = previous;
 			}
-			
-			// Check if chain closes (first and last triangles are neighbors)
-			if (ordered.size() == triangles.size() && ordered.size() >= 2) {
-				int first = ordered.front();
-				int last = ordered.back();
-				bool closes = false;
-				for (int edge = 0; edge < 3; edge++) {
-					if (dt.neighbors[last][edge] == first) {
-						closes = true;
-						break;
-					}
-				}
-				if (!closes) {
-					vd.cellIsInfinite[s] = true;
-				}
+
+			// Then collect the fan counter-clockwise
+			std::vector<int> ordered;
+			for (int t = first; t >= 0 && ordered.size() < triangles.size(); ) {
+				ordered.push_back(t);
+				t = dt.neighbors[t][(corner(t) + 2) % 3];
+				if (t == first)
+					break;
 			}
-			
+
 			vd.cells[s] = ordered;
 		}
 		
-- 
2.43.0


From d9037077f6a56ed1033d9423615520194e25f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:20 +0000
Subject: [PATCH 110/188] fix: Voronoi vertices are accurate at any position
 and scale

---
 mml/algorithms/CompGeometry/VoronoiDiagram.h | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/mml/algorithms/CompGeometry/VoronoiDiagram.h b/mml/algorithms/CompGeometry/VoronoiDiagram.h
index e26f8e5..d5da0b9 100644
--- a/mml/algorithms/CompGeometry/VoronoiDiagram.h
+++ b/mml/algorithms/CompGeometry/VoronoiDiagram.h
@@ -427,22 +427,20 @@ private:
 	static Point2Cartesian ComputeCircumcenter(const Point2Cartesian& a, 
 	                                           const Point2Cartesian& b, 
 	                                           const Point2Cartesian& c) {
-		Real ax = a.X(), ay = a.Y();
-		Real bx = b.X(), by = b.Y();
-		Real cx = c.X(), cy = c.Y();
+		// Relative to the first vertex: no cancellation away from the origin
+		Real bx = b.X() - a.X(), by = b.Y() - a.Y();
+		Real cx = c.X() - a.X(), cy = c.Y() - a.Y();
 		
-		Real d = 2 * (ax * (by - cy) + bx * (cy - ay) + cx * (ay - by));
-		if (std::abs(d) < 1e-14) {
+		Real d = 2 * (bx * cy - by * cx);
+		if (d == 0.0) {
 			// Degenerate triangle - return centroid
-			return Point2Cartesian((ax + bx + cx) / 3.0, (ay + by + cy) / 3.0);
+			return Point2Cartesian(a.X() + (bx + cx) / 3.0, a.Y() + (by + cy) / 3.0);
 		}
 		
-		Real ux = ((ax*ax + ay*ay) * (by - cy) + (bx*bx + by*by) * (cy - ay) + 
-		           (cx*cx + cy*cy) * (ay - by)) / d;
-		Real uy = ((ax*ax + ay*ay) * (cx - bx) + (bx*bx + by*by) * (ax - cx) + 
-		           (cx*cx + cy*cy) * (bx - ax)) / d;
+		Real b2 = bx * bx + by * by;
+		Real c2 = cx * cx + cy * cy;
 		
-		return Point2Cartesian(ux, uy);
+		return Point2Cartesian(a.X() + (b2 * cy - c2 * by) / d, a.Y() + (c2 * bx - b2 * cx) / d);
 	}
 };
 
-- 
2.43.0


From 00c00a8f12eff278c1d3916572cdf2f86985dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:28 +0000
Subject: [PATCH 111/188] fix: Delaunay cavity stays star-shaped for nearly
 cocircular sites

---
 mml/algorithms/CompGeometry/Triangulation.h | 49 ++++++++++++++-------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/mml/algorithms/CompGeometry/Triangulation.h b/mml/algorithms/CompGeometry/Triangulation.h
index fde6845..3c49dc4 100644
--- a/mml/algorithms/CompGeometry/Triangulation.h
+++ b/mml/algorithms/CompGeometry/Triangulation.h
@@ -300,25 +300,40 @@ public:
 				}
 			}
 
-			// Find boundary polygon: edges that appear exactly once
-			std::map<EdgeKey, int> edgeCount;
-			std::map<EdgeKey, std::pair<int, int>> edgeDir;  // Original direction
-			
-			for (int t : badTriangles) {
-				for (int j = 0; j < 3; j++) {
-					int v1 = tris[t].v[j];
-					int v2 = tris[t].v[(j + 1) % 3];
-					EdgeKey key(v1, v2);
-					edgeCount[key]++;
-					edgeDir[key] = {v1, v2};
+			// Find boundary polygon: edges that appear exactly once.
+			// Rounding may add a triangle whose far side the point does not see (nearly cocircular sites);
+			// such triangles are given back until the cavity is star-shaped about the point.
+			std::vector<std::pair<int, int>> polygon;
+			bool starShaped = false;
+			while (!starShaped) {
+				std::map<EdgeKey, int> edgeCount;
+				std::map<EdgeKey, std::pair<int, int>> edgeDir;  // Original direction
+				std::map<EdgeKey, int> edgeOwner;
+
+				for (int t : badTriangles) {
+					for (int j = 0; j < 3; j++) {
+						int v1 = tris[t].v[j];
+						int v2 = tris[t].v[(j + 1) % 3];
+						EdgeKey key(v1, v2);
+						edgeCount[key]++;
+						edgeDir[key] = {v1, v2};
+						edgeOwner[key] = t;
+					}
 				}
-			}
 
-			// Collect boundary edges (edges appearing exactly once)
-			std::vector<std::pair<int, int>> polygon;
-			for (const auto& [key, count] : edgeCount) {
-				if (count == 1) {
-					polygon.push_back(edgeDir[key]);
+				// Collect boundary edges (edges appearing exactly once)
+				polygon.clear();
+				starShaped = true;
+				for (const auto& [key, count] : edgeCount) {
+					if (count != 1)
+						continue;
+					const auto& [v1, v2] = edgeDir[key];
+					if (Cross(p, workPoints[v1], workPoints[v2]) <= 0.0) {
+						badTriangles.erase(std::find(badTriangles.begin(), badTriangles.end(), edgeOwner[key]));
+						starShaped = false;
+						break;
+					}
+					polygon.push_back({v1, v2});
 				}
 			}
 
-- 
2.43.0


From b652d32d753133bbcdd44ef63dcad3f3e5128ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:24 +0000
Subject: [PATCH 112/188] fix: KDTree build terminates for non-positive
 max_leaf_size

---
 mml/algorithms/CompGeometry/KDTree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mml/algorithms/CompGeometry/KDTree.h b/mml/algorithms/CompGeometry/KDTree.h
index 0a2d07b..878bc79 100644
--- a/mml/algorithms/CompGeometry/KDTree.h
+++ b/mml/algorithms/CompGeometry/KDTree.h
@@ -168,6 +168,7 @@ namespace MML {
 			AlgorithmTimer timer;
 			
 			_config = config;
+			_config.max_leaf_size = std::max(1, config.max_leaf_size);  // a leaf holds at least one point
 			_points = points;  // Store copy
 			_stats = KDTreeStats{};
 			_stats.num_points = points.size();
-- 
2.43.0


From 4edb3f13baf05b9bc080e350d08c4776c7d8c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:42 +0000
Subject: [PATCH 113/188] fix: ClipPolygon accepts a clockwise clip region

---
 mml/algorithms/CompGeometry/PolygonOps.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/CompGeometry/PolygonOps.h b/mml/algorithms/CompGeometry/PolygonOps.h
index 2b46b9e..eee425a 100644
--- a/mml/algorithms/CompGeometry/PolygonOps.h
+++ b/mml/algorithms/CompGeometry/PolygonOps.h
@@ -49,6 +49,7 @@ public:
 		std::vector<Point2Cartesian> output = subject.Vertices();
 
 		int clipN = clipRegion.NumVertices();
+		bool clockwise = clipRegion.IsClockwise();
 		for (int i = 0; i < clipN; i++) {
 			if (output.empty())
 				break;
@@ -56,7 +57,7 @@ public:
 			const Point2Cartesian& edgeStart = clipRegion[i];
 			const Point2Cartesian& edgeEnd = clipRegion[(i + 1) % clipN];
 
-			output = ClipAgainstEdge(output, edgeStart, edgeEnd);
+			output = clockwise ? ClipAgainstEdge(output, edgeEnd, edgeStart) : ClipAgainstEdge(output, edgeStart, edgeEnd);
 		}
 
 		return output.size() >= 3 ? Polygon2D(output) : Polygon2D();
-- 
2.43.0


From 4d4d5115969c1e244919ecf1ea7474b6fce2907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:42 +0000
Subject: [PATCH 114/188] fix: polygon clipping works at any scale

---
 mml/algorithms/CompGeometry/PolygonOps.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/CompGeometry/PolygonOps.h b/mml/algorithms/CompGeometry/PolygonOps.h
index eee425a..1c3ae5d 100644
--- a/mml/algorithms/CompGeometry/PolygonOps.h
+++ b/mml/algorithms/CompGeometry/PolygonOps.h
@@ -279,7 +279,7 @@ private:
 		Real ly = l2.Y() - l1.Y();
 
 		Real denom = dx * ly - dy * lx;
-		if (std::abs(denom) < EPSILON) {
+		if (denom == 0.0) {
 			// Parallel - no intersection
 			return {Point2Cartesian(), false};
 		}
@@ -309,7 +309,8 @@ private:
 			return output;
 
 		// Edge direction for inside test (left side is inside for CCW clip polygon)
-		auto isInside = [&](const Point2Cartesian& p) { return Cross(edgeStart, edgeEnd, p) >= -EPSILON; };
+		Real edgeLen = edgeStart.Dist(edgeEnd);
+		auto isInside = [&](const Point2Cartesian& p) { return Cross(edgeStart, edgeEnd, p) >= -EPSILON * edgeLen * edgeStart.Dist(p); };
 
 		for (int i = 0; i < n; i++) {
 			const Point2Cartesian& current = polygon[i];
-- 
2.43.0


From 9ae24bab1b3a27b335dc903bac84ff45eb129644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:42 +0000
Subject: [PATCH 115/188] fix: smallest enclosing circle works at any scale and
 position

---
 mml/algorithms/CompGeometry/Circles.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/CompGeometry/Circles.h b/mml/algorithms/CompGeometry/Circles.h
index f5b8131..7a92d11 100644
--- a/mml/algorithms/CompGeometry/Circles.h
+++ b/mml/algorithms/CompGeometry/Circles.h
@@ -48,7 +48,7 @@ namespace CompGeometry {
 			Real by = p3.Y() - p1.Y();
 
 			Real d = 2.0 * (ax * by - ay * bx);
-			if (std::abs(d) < EPSILON)
+			if (std::abs(d) <= 1e-13 * (std::abs(ax * by) + std::abs(ay * bx)))
 				return false; // Collinear points
 
 			Real aSq = ax * ax + ay * ay;
@@ -185,6 +185,19 @@ namespace CompGeometry {
 			if (n == 1)
 				return Circle2D(points[0], 0);
 
+			// Work relative to the first point and to the extent of the set (a power of two, so
+			// that the scaling is exact): the tolerances below assume coordinates of order one
+			Point2Cartesian origin = points[0];
+			Real extent = 0;
+			for (const auto& p : points)
+				extent = std::max({extent, std::abs(p.X() - origin.X()), std::abs(p.Y() - origin.Y())});
+			if (extent == 0)
+				return Circle2D(origin, 0);
+			int exponent;
+			std::frexp(extent, &exponent);
+			for (auto& p : points)
+				p = Point2Cartesian(std::ldexp(p.X() - origin.X(), -exponent), std::ldexp(p.Y() - origin.Y(), -exponent));
+
 			std::random_device rd;
 			std::mt19937 rng(rd());
 			std::shuffle(points.begin(), points.end(), rng);
@@ -195,7 +208,8 @@ namespace CompGeometry {
 
 			WelzlHelper(points, boundary, n, center, radius, rng);
 
-			return Circle2D(center, radius);
+			return Circle2D(Point2Cartesian(origin.X() + std::ldexp(center.X(), exponent), origin.Y() + std::ldexp(center.Y(), exponent)),
+			                std::ldexp(radius, exponent));
 		}
 
 		static Circle2D MinimumEnclosingCircle(const Polygon2D& polygon) { 
-- 
2.43.0


From cf8bbe0523ea757029f7ca774bab8d449bc80f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:53 +0000
Subject: [PATCH 116/188] fix: Laplacian of a graph with self-loops is D - A

---
 mml/base/Graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Graph.h b/mml/base/Graph.h
index ea96e00..7f62778 100644
--- a/mml/base/Graph.h
+++ b/mml/base/Graph.h
@@ -436,7 +436,7 @@ namespace MML
 					L(i, edge.to) = -edge.weight;  // Off-diagonal: -weight
 					deg += edge.weight;
 				}
-				L(i, i) = deg;  // Diagonal: sum of weights
+				L(i, i) += deg;  // Diagonal: sum of weights (minus the self-loop, if any)
 			}
 
 			return L;
-- 
2.43.0


From 21eb3df6780b9c50abe3102672f04c3ea01664da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:53 +0000
Subject: [PATCH 117/188] fix: path and cycle graphs of no vertices

---
 mml/base/Graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/base/Graph.h b/mml/base/Graph.h
index 7f62778..8392753 100644
--- a/mml/base/Graph.h
+++ b/mml/base/Graph.h
@@ -535,7 +535,7 @@ namespace MML
 	Graph<V, E> createPathGraph(size_t n)
 	{
 		Graph<V, E> g(n, Graph<V, E>::Type::Undirected);
-		for (size_t i = 0; i < n - 1; ++i)
+		for (size_t i = 0; i + 1 < n; ++i)
 			g.addEdge(i, i + 1, E{1});
 		return g;
 	}
@@ -545,7 +545,7 @@ namespace MML
 	Graph<V, E> createCycleGraph(size_t n)
 	{
 		Graph<V, E> g(n, Graph<V, E>::Type::Undirected);
-		for (size_t i = 0; i < n - 1; ++i)
+		for (size_t i = 0; i + 1 < n; ++i)
 			g.addEdge(i, i + 1, E{1});
 		if (n > 2)
 			g.addEdge(n - 1, 0, E{1});
-- 
2.43.0


From dbefb63b8a70f97354df8af831fa6d313553a362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:53 +0000
Subject: [PATCH 118/188] fix: DFS parents form the depth-first tree

---
 mml/algorithms/GraphAlgorithms.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mml/algorithms/GraphAlgorithms.h b/mml/algorithms/GraphAlgorithms.h
index a25d14e..496f607 100644
--- a/mml/algorithms/GraphAlgorithms.h
+++ b/mml/algorithms/GraphAlgorithms.h
@@ -153,11 +153,9 @@ namespace MML
 				size_t v = it->to;
 				if (!visited[v])
 				{
-					if (result.parent[v] == GRAPH_NOT_FOUND)
-					{
-						result.parent[v] = u;
-						result.distance[v] = result.distance[u] + 1;
-					}
+					// The latest push is the one that gets visited
+					result.parent[v] = u;
+					result.distance[v] = result.distance[u] + 1;
 					stack.push(v);
 				}
 			}
-- 
2.43.0


From c9adedf01be926117b7fc8ebbc96998df6d4e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:53 +0000
Subject: [PATCH 119/188] fix: HasNegativeCycle is false for a missing start
 vertex

---
 mml/algorithms/GraphAlgorithms.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/algorithms/GraphAlgorithms.h b/mml/algorithms/GraphAlgorithms.h
index 496f607..2883e34 100644
--- a/mml/algorithms/GraphAlgorithms.h
+++ b/mml/algorithms/GraphAlgorithms.h
@@ -559,6 +559,8 @@ namespace MML
 	template<typename V, typename E>
 	bool HasNegativeCycle(const Graph<V, E>& graph, size_t start)
 	{
+		if (start >= graph.numVertices())
+			return false;
 		auto result = BellmanFord(graph, start);
 		return result.parent.empty();  // Empty if negative cycle found
 	}
-- 
2.43.0


From 0456e33ab79f5aeaa38ccb242f8668eb366f5a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:49 +0000
Subject: [PATCH 120/188] fix: AlgebraicConnectivityBound is a lower bound

---
 mml/algorithms/GraphSpectral.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mml/algorithms/GraphSpectral.h b/mml/algorithms/GraphSpectral.h
index 9248098..6708633 100644
--- a/mml/algorithms/GraphSpectral.h
+++ b/mml/algorithms/GraphSpectral.h
@@ -128,16 +128,14 @@ namespace MML
 		if (components.numComponents > 1)
 			return 0;
 
-		// Use Cheeger-like bound: lambda_2 >= 2 * (1 - cos(pi/n)) * min_degree
-		Real minDegree = std::numeric_limits<Real>::max();
+		// Fiedler's bound: lambda_2 >= 2 * (1 - cos(pi/n)) * edge_connectivity, and the
+		// (weighted) edge connectivity of a connected graph is at least its smallest weight
+		Real minWeight = std::numeric_limits<Real>::max();
 		for (size_t v = 0; v < n; ++v)
-		{
-			Real d = static_cast<Real>(graph.degree(v));
-			if (d < minDegree)
-				minDegree = d;
-		}
+			for (const auto& edge : graph.neighbors(v))
+				minWeight = std::min(minWeight, static_cast<Real>(edge.weight));
 
-		return minDegree > 0 ? 2.0 * (1.0 - std::cos(Constants::PI / n)) * minDegree : 0;
+		return minWeight > 0 ? 2.0 * (1.0 - std::cos(Constants::PI / n)) * minWeight : 0;
 	}
 
 	/// Check if graph is connected using spectral method
-- 
2.43.0


From b85e64d95a64546fe0c96c7ab8b7bd5b7c950f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:49 +0000
Subject: [PATCH 121/188] fix: eigenvector centrality converges on bipartite
 graphs

---
 mml/algorithms/GraphSpectral.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/GraphSpectral.h b/mml/algorithms/GraphSpectral.h
index 6708633..2e96b5f 100644
--- a/mml/algorithms/GraphSpectral.h
+++ b/mml/algorithms/GraphSpectral.h
@@ -343,12 +343,19 @@ namespace MML
 
 		Matrix<Real> A = graph.toAdjacencyMatrix();
 
+		// Iterate with A + shift*I: same eigenvectors, and the iteration also converges on
+		// bipartite graphs, whose spectrum is symmetric
+		Real shift = 0;
+		for (size_t i = 0; i < n; ++i)
+			for (size_t j = 0; j < n; ++j)
+				shift = std::max(shift, static_cast<Real>(A(i, j)));
+
 		for (size_t iter = 0; iter < maxIterations; ++iter)
 		{
-			// Matrix-vector multiply: next = A * centrality
+			// Matrix-vector multiply: next = (A + shift*I) * centrality
 			for (size_t i = 0; i < n; ++i)
 			{
-				next[i] = 0;
+				next[i] = shift * centrality[i];
 				for (size_t j = 0; j < n; ++j)
 				{
 					next[i] += A(i, j) * centrality[j];
-- 
2.43.0


From 3eb056c0d4bf23ed4e13a3b24faee9b3f276372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:49 +0000
Subject: [PATCH 122/188] fix: average path length covers both directions

---
 mml/algorithms/GraphSpectral.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/GraphSpectral.h b/mml/algorithms/GraphSpectral.h
index 2e96b5f..9232aa9 100644
--- a/mml/algorithms/GraphSpectral.h
+++ b/mml/algorithms/GraphSpectral.h
@@ -569,9 +569,9 @@ namespace MML
 		{
 			auto bfsResult = BFS(graph, v);
 
-			for (size_t u = v + 1; u < n; ++u)
+			for (size_t u = 0; u < n; ++u)
 			{
-				if (bfsResult.distance[u] != std::numeric_limits<Real>::infinity())
+				if (u != v && bfsResult.distance[u] != std::numeric_limits<Real>::infinity())
 				{
 					totalLength += bfsResult.distance[u];
 					++pathCount;
-- 
2.43.0


From d7cdb6a98d2e70c9c5e409303a49fb855f7bdd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:20 +0000
Subject: [PATCH 123/188] fix: FunctionsAnalyzer.GetRoots reported one root
 twice

---
 mml/algorithms/FunctionsAnalyzer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index e415d8f..1174d98 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -317,7 +317,8 @@ namespace MML {
 					roots.push_back(x_curr);
 				}
 				// Check for sign change (bracket around root)
-				else if (prev * curr < 0) {
+				// (a previous sample within eps of zero has already been reported as this root)
+				else if (prev * curr < 0 && std::abs(prev) >= eps) {
 					Real root = RootFinding::FindRootBisection(_f, x1 + (i - 1) * step, x_curr, eps);
 					// Avoid duplicate roots
 					if (roots.empty() || std::abs(root - roots.back()) > eps)
-- 
2.43.0


From 269af3102731918d00e58845d19676e63b7dea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:20 +0000
Subject: [PATCH 124/188] fix: FunctionsAnalyzer.isLocalOptimum rejected
 strongly curved extrema

---
 mml/algorithms/FunctionsAnalyzer.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index 1174d98..a12325b 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -524,15 +524,17 @@ namespace MML {
 			//    - f''(x) > 0 => local minimum
 			//    - f''(x) < 0 => local maximum
 
-			// Check first derivative is near zero
-			Real first_der = Derivation::NDer4(_f, x);
-			if (std::abs(first_der) > eps)
-				return false; // Not a stationary point
-
 			// Check second derivative has consistent sign (non-zero)
 			Real left_sec_der = Derivation::NSecDer4(_f, x - 4 * eps);
 			Real right_sec_der = Derivation::NSecDer4(_f, x + 4 * eps);
 
+			// Check first derivative is near zero; x itself is known to eps only, so that
+			// a stationary point may show a first derivative of up to |f''| * eps there
+			Real first_der = Derivation::NDer4(_f, x);
+			Real curvature = std::max(std::abs(left_sec_der), std::abs(right_sec_der));
+			if (std::abs(first_der) > eps * (1 + curvature))
+				return false; // Not a stationary point
+
 			// Both should have the same sign AND be non-zero
 			return left_sec_der * right_sec_der > 0;
 		}
-- 
2.43.0


From f47a5e7d38e4fb610f7ca73056bb6e1e1c9c1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:20 +0000
Subject: [PATCH 125/188] fix: FunctionsAnalyzer.isMonotonic ignored the last
 sample and misread a flat start

---
 mml/algorithms/FunctionsAnalyzer.h | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index a12325b..0a3eeb9 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -607,21 +607,17 @@ namespace MML {
 		}
 		bool isMonotonic(Real x1, Real x2, int numPoints) const {
 			Real step = (x2 - x1) / numPoints;
-			Real prev = _f(x1 + step);
-			if (_f(x1) < _f(x1 + step)) {
-				for (int i = 2; i < numPoints; i++) {
-					Real curr = _f(x1 + i * step);
-					if (curr < prev)
-						return false;
-					prev = curr;
-				}
-			} else {
-				for (int i = 2; i < numPoints; i++) {
-					Real curr = _f(x1 + i * step);
-					if (curr > prev)
-						return false;
-					prev = curr;
-				}
+			Real prev = _f(x1);
+			bool increases = false, decreases = false;
+			for (int i = 1; i <= numPoints; i++) {
+				Real curr = _f(x1 + i * step);
+				if (curr > prev)
+					increases = true;
+				else if (curr < prev)
+					decreases = true;
+				if (increases && decreases)
+					return false;
+				prev = curr;
 			}
 			return true;
 		}
-- 
2.43.0


From 3a3be1445b16f9568b2f17b5a2b3307b3569c30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:20 +0000
Subject: [PATCH 126/188] fix: FunctionsAnalyzer classified poles as jump or
 oscillatory

---
 mml/algorithms/FunctionsAnalyzer.h | 34 +++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index 0a3eeb9..ed236a7 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -680,6 +680,8 @@ namespace MML {
 			Real prevValue = std::numeric_limits<Real>::quiet_NaN();
 			int stableCount = 0;
 			int overflowCount = 0;
+			int growthCount = 0;
+			Real prevDiff = 0.0;
 			const Real overflowThreshold = 1e150;  // Values beyond this suggest infinite limit
 
 			for (int i = 0; i < maxSteps; i++) {
@@ -693,7 +695,7 @@ namespace MML {
 						overflowCount++;
 						// If we consistently get overflow, the limit is infinite
 						if (overflowCount >= 3)
-							return std::numeric_limits<Real>::infinity();
+							return std::copysign(std::numeric_limits<Real>::infinity(), evalResult.value);
 					}
 					if (evalResult.isNaN)
 						return std::numeric_limits<Real>::quiet_NaN();
@@ -726,12 +728,23 @@ namespace MML {
 					} else {
 						stableCount = 0;
 					}
+
+					// Values that keep growing by ever larger steps are diverging
+					if (std::abs(value) > std::abs(prevValue) && diff > prevDiff * 1.1 && diff > tolerance)
+						growthCount++;
+					else
+						growthCount = 0;
+					prevDiff = diff;
 				}
 
 				prevValue = value;
 				h /= 2.0;
 			}
 
+			// An unbounded value has no finite limit, even if it is still moderate at the last step
+			if (growthCount >= 10)
+				return std::copysign(std::numeric_limits<Real>::infinity(), prevValue);
+
 			// Return best approximation, or infinity if we detected overflow trend
 			if (overflowCount >= 2 && !std::isnan(prevValue) && std::abs(prevValue) > overflowThreshold)
 				return (prevValue > 0) ? std::numeric_limits<Real>::infinity() 
@@ -748,6 +761,8 @@ namespace MML {
 			Real prevValue = std::numeric_limits<Real>::quiet_NaN();
 			int stableCount = 0;
 			int overflowCount = 0;
+			int growthCount = 0;
+			Real prevDiff = 0.0;
 			const Real overflowThreshold = 1e150;  // Values beyond this suggest infinite limit
 
 			for (int i = 0; i < maxSteps; i++) {
@@ -761,7 +776,7 @@ namespace MML {
 						overflowCount++;
 						// If we consistently get overflow, the limit is infinite
 						if (overflowCount >= 3)
-							return std::numeric_limits<Real>::infinity();
+							return std::copysign(std::numeric_limits<Real>::infinity(), evalResult.value);
 					}
 					if (evalResult.isNaN)
 						return std::numeric_limits<Real>::quiet_NaN();
@@ -794,12 +809,23 @@ namespace MML {
 					} else {
 						stableCount = 0;
 					}
+
+					// Values that keep growing by ever larger steps are diverging
+					if (std::abs(value) > std::abs(prevValue) && diff > prevDiff * 1.1 && diff > tolerance)
+						growthCount++;
+					else
+						growthCount = 0;
+					prevDiff = diff;
 				}
 
 				prevValue = value;
 				h /= 2.0;
 			}
 
+			// An unbounded value has no finite limit, even if it is still moderate at the last step
+			if (growthCount >= 10)
+				return std::copysign(std::numeric_limits<Real>::infinity(), prevValue);
+
 			// Return best approximation, or infinity if we detected overflow trend
 			if (overflowCount >= 2 && !std::isnan(prevValue) && std::abs(prevValue) > overflowThreshold)
 				return (prevValue > 0) ? std::numeric_limits<Real>::infinity() 
@@ -827,7 +853,9 @@ namespace MML {
 			bool rightLimitVeryLarge = std::abs(disc.rightLimit) > largeThreshold;
 
 			// Classify discontinuity type
-			if (!leftLimitExists && !rightLimitExists) {
+			if (std::isinf(disc.leftLimit) || std::isinf(disc.rightLimit)) {
+				disc.type = DiscontinuityType::INFINITE;
+			} else if (!leftLimitExists && !rightLimitExists) {
 				disc.type = DiscontinuityType::OSCILLATORY; // Or could be UNKNOWN
 			} else if (!leftLimitExists || !rightLimitExists || leftLimitVeryLarge || rightLimitVeryLarge) {
 				// At least one limit is infinite or doesn't exist
-- 
2.43.0


From 855e591c65f166438a710db8d62e35673f24692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:20 +0000
Subject: [PATCH 127/188] fix: FunctionsAnalyzer missed jumps between its
 sample points

---
 mml/algorithms/FunctionsAnalyzer.h | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index ed236a7..4712032 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -580,7 +580,6 @@ namespace MML {
 				// If derivative changes dramatically or function value jumps
 				Real val_left = _f(x_left);
 				Real val_right = _f(x_right);
-				Real val_mid = _f(x_mid);
 
 				// Check for non-smooth behavior (jump or cusp)
 				bool potentialJump = std::abs(val_right - val_left) > 10 * eps * std::abs(val_left + val_right);
@@ -588,6 +587,7 @@ namespace MML {
 
 				if (potentialJump || derivativeJump) {
 					// Refine search in this interval
+					x_mid = LocateLargestChange(x_left, x_right);
 					if (!isContinuousAtPoint(x_mid, eps)) {
 						allContinuous = false;
 						// Avoid duplicates
@@ -881,6 +881,25 @@ namespace MML {
 			return disc;
 		}
 
+		// Bisects towards the half with the larger change in value, which closes in on a jump inside the interval
+		Real LocateLargestChange(Real a, Real b) const {
+			Real fa = _f(a), fb = _f(b);
+			for (int i = 0; i < 60; i++) {
+				Real m = (a + b) / 2.0;
+				if (!(m > a && m < b))
+					break;
+				Real fm = _f(m);
+				if (std::abs(fm - fa) > std::abs(fb - fm)) {
+					b = m;
+					fb = fm;
+				} else {
+					a = m;
+					fa = fm;
+				}
+			}
+			return (a + b) / 2.0;
+		}
+
 		// Find all discontinuities in an interval
 		std::vector<DiscontinuityPoint> FindDiscontinuities(Real x1, Real x2, int numPoints = 1000, Real eps = 1e-6) {
 			std::vector<DiscontinuityPoint> discontinuities;
@@ -931,8 +950,9 @@ namespace MML {
 
 				if (std::abs(val_right - val_left) > jumpThreshold) {
 					// Potential discontinuity - check multiple points in this interval
-					for (int j = 1; j <= 4; j++) {
-						Real x_test = x_left + (j / 5.0) * (x_right - x_left);
+					for (int j = 0; j <= 4; j++) {
+						Real x_test = (j == 0) ? LocateLargestChange(x_left, x_right)
+						                       : x_left + (j / 5.0) * (x_right - x_left);
 						if (!isContinuousAtPoint(x_test, eps)) {
 							// Avoid duplicates
 							bool alreadyFound = false;
-- 
2.43.0


From 80416c6d07a4588c5cec881d7671b744b71b66af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:49 +0000
Subject: [PATCH 128/188] fix: FunctionsAnalyzer reported a derivative at jumps

---
 mml/algorithms/FunctionsAnalyzer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mml/algorithms/FunctionsAnalyzer.h b/mml/algorithms/FunctionsAnalyzer.h
index 4712032..bdc03b2 100644
--- a/mml/algorithms/FunctionsAnalyzer.h
+++ b/mml/algorithms/FunctionsAnalyzer.h
@@ -420,6 +420,10 @@ namespace MML {
 			if (!isDefinedAtPoint(x - h) || !isDefinedAtPoint(x + h))
 				return false;
 
+			// No derivative at a discontinuity, even where the one-sided slopes agree
+			if (!isContinuousAtPoint(x, eps))
+				return false;
+
 			// Compute left and right derivatives using NDer2
 			Real leftDeriv = Derivation::NDer2Left(_f, x, eps);
 			Real rightDeriv = Derivation::NDer2Right(_f, x, eps);
-- 
2.43.0


From 451d97d8a4775147ee3f43abf03cfa340150d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:10 +0000
Subject: [PATCH 129/188] fix: IntegrateTrajectory recorded an extra point
 after the first step and skipped or overran outputs by rounding

---
 mml/systems/DynamicalSystemAnalyzers.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 0554c7f..f97d4c6 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -588,15 +588,16 @@ namespace MML::Systems
 			Vector<Real> k1(n), k2(n), k3(n), k4(n), xTemp(n);
 
 			Real t = 0;
-			Real nextOutput = 0;
+			Real nextOutput = dtOutput; // the state at t = 0 is recorded before the first step
+			const Real tTol = 1e-6 * h; // accumulated time is not exact
 
 			trajectory.push_back(x);
 
-			while (t < tTotal) {
+			while (t < tTotal - tTol) {
 				RK4Step(sys, x, t, h, k1, k2, k3, k4, xTemp);
 				t += h;
 
-				if (t >= nextOutput) {
+				if (t >= nextOutput - tTol) {
 					trajectory.push_back(x);
 					nextOutput += dtOutput;
 				}
-- 
2.43.0


From 3042d51d09e1cfc8302354260b48cb11897a098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:10 +0000
Subject: [PATCH 130/188] fix: parameter sweeps of a single step used a NaN
 parameter

---
 mml/systems/DynamicalSystemAnalyzer.h  | 2 +-
 mml/systems/DynamicalSystemAnalyzers.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/systems/DynamicalSystemAnalyzer.h b/mml/systems/DynamicalSystemAnalyzer.h
index 36a15da..8fe5217 100644
--- a/mml/systems/DynamicalSystemAnalyzer.h
+++ b/mml/systems/DynamicalSystemAnalyzer.h
@@ -386,7 +386,7 @@ namespace MML::Systems
 																														int numSteps, const Vector<Type>& x0,
 																														Type lyapunovTime = 200) const {
 			std::vector<std::pair<Type, Type>> results;
-			Type dParam = (paramMax - paramMin) / (numSteps - 1);
+			Type dParam = (numSteps > 1) ? (paramMax - paramMin) / (numSteps - 1) : 0.0;
 			Type originalParam = _sys.getParam(paramIndex);
 
 			for (int i = 0; i < numSteps; ++i) {
diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index f97d4c6..dfc6ad5 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -424,7 +424,7 @@ namespace MML::Systems
 																					Vector<Real> x0, int component, Real tTransient = 100.0, Real tRecord = 50.0, Real h = 0.01) {
 			BifurcationDiagram<Real> diagram;
 			diagram.parameterName = sys.getParamName(paramIndex);
-			Real originalParam = sys.getParam(paramIndex);			Real dParam = (paramMax - paramMin) / (numSteps - 1);
+			Real originalParam = sys.getParam(paramIndex);			Real dParam = (numSteps > 1) ? (paramMax - paramMin) / (numSteps - 1) : 0.0;
 
 			for (int step = 0; step < numSteps; ++step) {
 				Real param = paramMin + step * dParam;
-- 
2.43.0


From c4dd793398782ffd9687251787e2c24bd9419883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:10 +0000
Subject: [PATCH 131/188] fix: ComputePoincareSection never returned when the
 section was not reached and missed crossings at a step end

---
 mml/systems/DynamicalSystemAnalyzers.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index dfc6ad5..e1f3698 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -547,7 +547,11 @@ namespace MML::Systems
 			}
 
 			// Collect intersections
-			while (count < numIntersections) {
+			// Give up when the trajectory has not met the section for this many steps (it may never do so)
+			const int maxStepsWithoutCrossing = 1000000;
+			int stepsSinceCrossing = 0;
+
+			while (count < numIntersections && stepsSinceCrossing++ < maxStepsWithoutCrossing) {
 				xPrev = x;
 				Real valPrev = xPrev[section.variable] - section.value;
 
@@ -557,7 +561,8 @@ namespace MML::Systems
 				Real val = x[section.variable] - section.value;
 
 				// Check for crossing
-				if (valPrev * val < 0) {
+				// A step that ends exactly on the section crosses it as well
+				if ((valPrev < 0) != (val < 0)) {
 					// Check direction
 					bool correctDirection =
 						(section.direction == 0) || (section.direction > 0 && val > valPrev) || (section.direction < 0 && val < valPrev);
@@ -571,6 +576,7 @@ namespace MML::Systems
 
 						intersections.push_back(xCross);
 						count++;
+						stepsSinceCrossing = 0;
 					}
 				}
 			}
-- 
2.43.0


From eec5c78a4073c1146ef7bf2f02219b7869d5dc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:31 +0000
Subject: [PATCH 132/188] fix: LinearSystem cached tolerance-dependent answers

---
 mml/systems/LinearSystem.h | 41 +++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index 412feca..0bf1b14 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -455,35 +455,29 @@ namespace MML::Systems
 
 		/// @brief Check if matrix is symmetric within tolerance
 		bool isSymmetric(Type tol = Precision::DefaultToleranceStrict) const {
-			if (!_isSymmetric.has_value()) {
-				if (!isSquare()) {
-					_isSymmetric = false;
-				} else {
-					_isSymmetric = true;
-					int n = rows();
-					for (int i = 0; i < n && *_isSymmetric; ++i)
-						for (int j = i + 1; j < n && *_isSymmetric; ++j)
-							if (std::abs(_A(i, j) - _A(j, i)) > tol)
-								_isSymmetric = false;
-				}
-			}
-			return *_isSymmetric;
+			// Depends on tol, so the verdict is not cached
+			if (!isSquare())
+				return false;
+			int n = rows();
+			for (int i = 0; i < n; ++i)
+				for (int j = i + 1; j < n; ++j)
+					if (std::abs(_A(i, j) - _A(j, i)) > tol)
+						return false;
+			return true;
 		}
 
 		/// @brief Check if matrix is positive definite
 		///
 		/// @note Attempts Cholesky decomposition
 		bool isPositiveDefinite(Type tol = Precision::DefaultToleranceStrict) const {
+			if (!isSymmetric(tol))
+				return false;
 			if (!_isPositiveDefinite.has_value()) {
-				if (!isSymmetric(tol)) {
+				try {
+					CholeskySolver<Type> solver(_A);
+					_isPositiveDefinite = true;
+				} catch (const std::exception&) {
 					_isPositiveDefinite = false;
-				} else {
-					try {
-						CholeskySolver<Type> solver(_A);
-						_isPositiveDefinite = true;
-					} catch (const SingularMatrixError&) {
-						_isPositiveDefinite = false;
-					}
 				}
 			}
 			return *_isPositiveDefinite;
@@ -546,9 +540,10 @@ namespace MML::Systems
 		///
 		/// @param tol Threshold below which singular values are considered zero
 		int Rank(Type tol = -1) const {
-			if (!_rank.has_value()) {
+			if (!_rank.has_value() || _rankTol != tol) {
 				SVDecompositionSolver<Type> solver(_A);
 				_rank = solver.Rank(tol);
+				_rankTol = tol;
 			}
 			return *_rank;
 		}
@@ -874,10 +869,10 @@ namespace MML::Systems
 		mutable std::optional<CholeskyDecomposition<Type>> _cholesky;
 
 		// Cached properties
-		mutable std::optional<bool> _isSymmetric;
 		mutable std::optional<bool> _isPositiveDefinite;
 		mutable std::optional<Type> _conditionNumber;
 		mutable std::optional<int> _rank;
+		mutable Type _rankTol = -1;
 
 		//=========================================================================
 		// INTERNAL HELPERS
-- 
2.43.0


From 4e443e0d03f9f4323465e3d7900116e3e03d1a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:31 +0000
Subject: [PATCH 133/188] fix: LinearSystem.Solve used a triangular solve for
 matrices that are not

---
 mml/systems/LinearSystem.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index 0bf1b14..2dcd933 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -254,8 +254,8 @@ namespace MML::Systems
 				return SolveTriangular();
 			else if (solver == "Cholesky")
 				return SolveByCholesky();
-			else if (solver == "QR")
-				return SolveByQR();
+			else if (solver == "QR") // rank-deficient least squares need the SVD
+				return (Rank() == cols()) ? SolveByQR() : SolveBySVD();
 			else if (solver == "SVD")
 				return SolveBySVD();
 			else
@@ -952,9 +952,16 @@ namespace MML::Systems
 			}
 		}
 
+		bool HasNonZeroDiagonal() const {
+			for (int i = 0; i < rows(); ++i)
+				if (_A(i, i) == Type(0))
+					return false;
+			return true;
+		}
+
 		std::string SelectBestSolver() const {
-			// Quick structural checks first
-			if (isUpperTriangular() || isLowerTriangular())
+			// Quick structural checks first (exact zeros: small entries must not be dropped)
+			if (isSquare() && HasNonZeroDiagonal() && (isUpperTriangular(0) || isLowerTriangular(0)))
 				return "Triangular";
 
 			// For overdetermined systems, use QR (least squares)
@@ -967,7 +974,7 @@ namespace MML::Systems
 				return "SVD"; // Most robust for ill-conditioned
 
 			// For SPD matrices, Cholesky is best
-			if (isSymmetric() && isPositiveDefinite())
+			if (isSymmetric(0) && isPositiveDefinite())
 				return "Cholesky";
 
 			// Default: LU with partial pivoting
@@ -988,7 +995,7 @@ namespace MML::Systems
 			int n = rows();
 			Vector<Type> x(n);
 
-			if (isUpperTriangular()) {
+			if (isUpperTriangular(0)) {
 				// Back substitution
 				for (int i = n - 1; i >= 0; --i) {
 					Type sum = _b[i];
-- 
2.43.0


From a7705b00f72babe6f2c7d66589fa11c4ea60bd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:31 +0000
Subject: [PATCH 134/188] fix: LinearSystem read an empty vector when
 constructed with several right-hand sides

---
 mml/systems/LinearSystem.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index 2dcd933..5d20050 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -881,6 +881,8 @@ namespace MML::Systems
 		void RequireRHS() const {
 			if (!_hasRHS)
 				throw std::runtime_error("LinearSystem: operation requires right-hand side");
+			if (_multipleRHS)
+				throw std::runtime_error("LinearSystem: operation requires a single right-hand side - use SolveMultiple");
 		}
 
 		void RequireSquare() const {
-- 
2.43.0


From 640f6025f26d26eb3345f7a8a27e495c0f9b5f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:31 +0000
Subject: [PATCH 135/188] fix: LinearSystem.GetLU returned zero factors

---
 mml/systems/LinearSystem.h | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/mml/systems/LinearSystem.h b/mml/systems/LinearSystem.h
index 5d20050..c20c36f 100644
--- a/mml/systems/LinearSystem.h
+++ b/mml/systems/LinearSystem.h
@@ -896,13 +896,37 @@ namespace MML::Systems
 				try {
 					LUSolver<Type> solver(_A);
 
-					// Extract L and U from the solver's combined storage
+					// Row permutation p and factors with (L * U)(i, j) = A(p[i], j)
 					int n = rows();
-					_lu->L.Resize(n, n);
-					_lu->U.Resize(n, n);
-
-					// The LU matrix has L in lower triangle and U in upper
-					// For now, store raw LU and determinant
+					Matrix<Type> lu(_A);
+					_lu->permutation.resize(n);
+					for (int i = 0; i < n; ++i)
+						_lu->permutation[i] = i;
+					for (int k = 0; k < n; ++k) {
+						int pivot = k;
+						for (int i = k + 1; i < n; ++i)
+							if (std::abs(lu(i, k)) > std::abs(lu(pivot, k)))
+								pivot = i;
+						if (pivot != k) {
+							std::swap(_lu->permutation[k], _lu->permutation[pivot]);
+							for (int j = 0; j < n; ++j)
+								std::swap(lu(k, j), lu(pivot, j));
+						}
+						for (int i = k + 1; i < n; ++i) {
+							lu(i, k) /= lu(k, k);
+							for (int j = k + 1; j < n; ++j)
+								lu(i, j) -= lu(i, k) * lu(k, j);
+						}
+					}
+					_lu->L = Matrix<Type>::Identity(n);
+					_lu->U = Matrix<Type>(n, n);
+					for (int i = 0; i < n; ++i)
+						for (int j = 0; j < n; ++j) {
+							if (j < i)
+								_lu->L(i, j) = lu(i, j);
+							else
+								_lu->U(i, j) = lu(i, j);
+						}
 					_lu->determinant = solver.det();
 					_lu->valid = true;
 				} catch (...) {
-- 
2.43.0


From a7804c8aa7738c6657e252608d75b64b4e615447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:55 +0000
Subject: [PATCH 136/188] fix: DiscreteMapLyapunov did not order its exponents

---
 mml/systems/DiscreteMaps.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mml/systems/DiscreteMaps.h b/mml/systems/DiscreteMaps.h
index f285dd0..3a67477 100644
--- a/mml/systems/DiscreteMaps.h
+++ b/mml/systems/DiscreteMaps.h
@@ -16,7 +16,9 @@
 #include "base/Vector/Vector.h"
 #include "base/Matrix/Matrix.h"
 
+#include <algorithm>
 #include <cmath>
+#include <functional>
 #include <vector>
 #include <string>
 
@@ -346,6 +348,9 @@ namespace MML::Systems
 			for (int i = 0; i < N; ++i)
 				result.exponents[i] = lyapunovSums[i] / numIterations;
 
+			// The orthonormalisation keeps the order of the columns, which need not be descending
+			std::sort(&result.exponents[0], &result.exponents[0] + N, std::greater<Real>());
+
 			result.maxExponent = result.exponents[0];
 			result.isChaotic = result.maxExponent > 0.01;  // Small threshold
 
-- 
2.43.0


From c16035aef3579d940e139b25f51176ad3bd4315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:28 +0000
Subject: [PATCH 137/188] fix: serializers reported success for files they
 could not write

---
 mml/tools/serializer/SerializerBase.h       | 17 ++++++++++++++---
 mml/tools/serializer/SerializerCurves.h     | 10 +++++-----
 mml/tools/serializer/SerializerFieldLines.h | 10 +++++-----
 mml/tools/serializer/SerializerFunctions.h  | 14 +++++++-------
 mml/tools/serializer/SerializerODE.h        |  8 ++++----
 mml/tools/serializer/SerializerSimulation.h |  4 ++--
 mml/tools/serializer/SerializerSurfaces.h   | 10 +++++-----
 mml/tools/serializer/SerializerVectors.h    |  8 ++++----
 8 files changed, 46 insertions(+), 35 deletions(-)

diff --git a/mml/tools/serializer/SerializerBase.h b/mml/tools/serializer/SerializerBase.h
index 130f3a4..17da83a 100644
--- a/mml/tools/serializer/SerializerBase.h
+++ b/mml/tools/serializer/SerializerBase.h
@@ -43,6 +43,17 @@ namespace MML
 	/// All functions are free functions within the Serializer namespace.
 	namespace Serializer
 	{
+
+		/// @brief Outcome of a finished write: flushes the stream and reports a write it could not complete
+		/// @param out Stream the data went to
+		/// @param message Message of a successful result
+		inline SerializeResult FinishWrite(std::ostream& out, const std::string& message = "Success")
+		{
+			out.flush();
+			if (!out)
+				return {false, SerializeError::WRITE_FAILED, "Write error: the stream reported a failure"};
+			return {true, SerializeError::OK, message};
+		}
 		//===================================================================================
 		// Header writers - common utilities used by other serializer modules
 		//===================================================================================
@@ -59,7 +70,7 @@ namespace MML
 				out << "x1: " << x1 << std::endl;
 				out << "x2: " << x2 << std::endl;
 				out << "NumPoints: " << numPoints << std::endl;
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(out);
 			}
 			catch (const std::exception& e)
 			{
@@ -82,7 +93,7 @@ namespace MML
 				out << "x1: " << x1 << std::endl;
 				out << "x2: " << x2 << std::endl;
 				out << "NumPoints: " << numPoints << std::endl;
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(out);
 			}
 			catch (const std::exception& e)
 			{
@@ -103,7 +114,7 @@ namespace MML
 				out << "t1: " << t1 << std::endl;
 				out << "t2: " << t2 << std::endl;
 				out << "NumPoints: " << numPoints << std::endl;
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(out);
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerCurves.h b/mml/tools/serializer/SerializerCurves.h
index db20385..9746ce8 100644
--- a/mml/tools/serializer/SerializerCurves.h
+++ b/mml/tools/serializer/SerializerCurves.h
@@ -58,7 +58,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return FinishWrite(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -99,7 +99,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return FinishWrite(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -143,7 +143,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return FinishWrite(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -184,7 +184,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved parametric curve"};
+				return FinishWrite(file, "Successfully saved parametric curve");
 			}
 			catch (const std::exception& e)
 			{
@@ -237,7 +237,7 @@ namespace MML
 					file << t << " " << vec_x[i] << " " << vec_y[i] << std::endl;
 				}
 				file.close();
-				return { true, SerializeError::OK, "Successfully saved parametric curve 2D" };
+				return FinishWrite(file, "Successfully saved parametric curve 2D");
 			}
 			catch (const std::exception& e) {
 				file.close();
diff --git a/mml/tools/serializer/SerializerFieldLines.h b/mml/tools/serializer/SerializerFieldLines.h
index 7577112..19dd5d1 100644
--- a/mml/tools/serializer/SerializerFieldLines.h
+++ b/mml/tools/serializer/SerializerFieldLines.h
@@ -38,7 +38,7 @@ namespace MML
 				out << type << std::endl;
 				out << "Title: " << title << std::endl;
 				out << "NUM_LINES: " << numLines << std::endl;
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(out);
 			}
 			catch (const std::exception& e)
 			{
@@ -89,7 +89,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return FinishWrite(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
@@ -137,7 +137,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return FinishWrite(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
@@ -189,7 +189,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return FinishWrite(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
@@ -233,7 +233,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Successfully saved " + std::to_string(lines.size()) + " field lines"};
+				return FinishWrite(file, "Successfully saved " + std::to_string(lines.size()) + " field lines");
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerFunctions.h b/mml/tools/serializer/SerializerFunctions.h
index 38e1b44..9bab02e 100644
--- a/mml/tools/serializer/SerializerFunctions.h
+++ b/mml/tools/serializer/SerializerFunctions.h
@@ -53,7 +53,7 @@ namespace MML
 					Real x = x1 + i * step;
 					out << x << " " << f(x) << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(out);
 			}
 			catch (const std::exception& e)
 			{
@@ -96,7 +96,7 @@ namespace MML
 					Real x = points[i];
 					out << x << " " << f(x) << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(out);
 			}
 			catch (const std::exception& e)
 			{
@@ -140,7 +140,7 @@ namespace MML
 					Real x = x1 + i * step;
 					out << f(x) << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(out);
 			}
 			catch (const std::exception& e)
 			{
@@ -197,7 +197,7 @@ namespace MML
 
 					out << std::endl;
 				}
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(out);
 			}
 			catch (const std::exception& e)
 			{
@@ -257,7 +257,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -300,7 +300,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -343,7 +343,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerODE.h b/mml/tools/serializer/SerializerODE.h
index 1211821..9637e1f 100644
--- a/mml/tools/serializer/SerializerODE.h
+++ b/mml/tools/serializer/SerializerODE.h
@@ -54,7 +54,7 @@ namespace MML
 				}
 				
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -95,7 +95,7 @@ namespace MML
 					file << std::endl;
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -138,7 +138,7 @@ namespace MML
 				}
 				
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -183,7 +183,7 @@ namespace MML
 				}
 
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerSimulation.h b/mml/tools/serializer/SerializerSimulation.h
index 47c0946..cf0552a 100644
--- a/mml/tools/serializer/SerializerSimulation.h
+++ b/mml/tools/serializer/SerializerSimulation.h
@@ -85,7 +85,7 @@ namespace MML
 				}
 				file << buffer.str();
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -155,7 +155,7 @@ namespace MML
 					}
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerSurfaces.h b/mml/tools/serializer/SerializerSurfaces.h
index 5187222..1a0dbaf 100644
--- a/mml/tools/serializer/SerializerSurfaces.h
+++ b/mml/tools/serializer/SerializerSurfaces.h
@@ -84,7 +84,7 @@ namespace MML
 				}
 				
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -140,7 +140,7 @@ namespace MML
 				}
 				
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -209,7 +209,7 @@ namespace MML
 					}
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -269,7 +269,7 @@ namespace MML
 					}
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -341,7 +341,7 @@ namespace MML
 					}
 				}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
diff --git a/mml/tools/serializer/SerializerVectors.h b/mml/tools/serializer/SerializerVectors.h
index a469404..86d9c95 100644
--- a/mml/tools/serializer/SerializerVectors.h
+++ b/mml/tools/serializer/SerializerVectors.h
@@ -55,7 +55,7 @@ namespace MML
 						file << x << " " << y << " " << val[0] << " " << val[1] << std::endl;
 					}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -98,7 +98,7 @@ namespace MML
 							file << x << " " << y << " " << val[0] << " " << val[1] << std::endl;
 					}
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -161,7 +161,7 @@ namespace MML
 						}
 
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
@@ -210,7 +210,7 @@ namespace MML
 						}
 
 				file.close();
-				return {true, SerializeError::OK, "Success"};
+				return FinishWrite(file);
 			}
 			catch (const std::exception& e)
 			{
-- 
2.43.0


From d0c0295b3b9358ab5ae8ec64460eb69378d9f066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:44 +0000
Subject: [PATCH 138/188] fix: saving vectors and matrices reported success
 when the file could not be written

---
 mml/base/Vector/Vector.h        | 4 ++--
 mml/tools/serializer/MatrixIO.h | 6 +++---
 mml/tools/serializer/VectorIO.h | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index 99e669f..1f46440 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -519,7 +519,7 @@ namespace MML
 			}
 			
 			file.close();
-			return true;
+			return !file.fail();
 		}
 		
 		/// @brief Load vector from binary file
@@ -583,7 +583,7 @@ namespace MML
 				file << val << std::endl;
 			
 			file.close();
-			return true;
+			return !file.fail();
 		}
 		
 		/// @brief Load vector from text file
diff --git a/mml/tools/serializer/MatrixIO.h b/mml/tools/serializer/MatrixIO.h
index 46b977f..92522eb 100644
--- a/mml/tools/serializer/MatrixIO.h
+++ b/mml/tools/serializer/MatrixIO.h
@@ -89,7 +89,7 @@ namespace Serializer
 		}
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	///////////////////////////////////////////////////////////////////////////////////////////
@@ -155,7 +155,7 @@ namespace Serializer
 		}
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	///////////////////////////////////////////////////////////////////////////////////////////
@@ -207,7 +207,7 @@ namespace Serializer
 		           static_cast<std::streamsize>(rows) * cols * sizeof(Type));
 		
 		file.close();
-		return true;
+		return !file.fail();
 	}
 
 	/**
diff --git a/mml/tools/serializer/VectorIO.h b/mml/tools/serializer/VectorIO.h
index 5ac2710..d2693cf 100644
--- a/mml/tools/serializer/VectorIO.h
+++ b/mml/tools/serializer/VectorIO.h
@@ -77,7 +77,7 @@ bool SaveComplexVector(const std::vector<std::complex<T>>& vec,
     }
     
     file.close();
-    return true;
+    return !file.fail();
 }
 
 /// @brief Load complex vector from binary file
-- 
2.43.0


From c8c402e52f82a8baabf26963624381d09da23bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:18 +0000
Subject: [PATCH 139/188] fix: vector and matrix loaders accepted truncated and
 malformed files

---
 mml/base/Vector/Vector.h        | 44 ++++++++++++++++++++---------
 mml/tools/serializer/MatrixIO.h | 50 ++++++++++++++++++++++++---------
 mml/tools/serializer/VectorIO.h |  2 +-
 3 files changed, 69 insertions(+), 27 deletions(-)

diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index 1f46440..a96cd8f 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -535,7 +535,7 @@ namespace MML
 			}
 			
 			// Read and verify header
-			uint32_t magic, version, size, elemSize;
+			uint32_t magic = 0, version = 0, size = 0, elemSize = 0;
 			
 			file.read(reinterpret_cast<char*>(&magic), sizeof(magic));
 			if (magic != BinaryFormat::MAGIC_VECTOR) {
@@ -559,13 +559,25 @@ namespace MML
 			}
 			
 			// Read data
-			outVec._elems.resize(size);
-			if (size > 0) {
-				file.read(reinterpret_cast<char*>(outVec._elems.data()), 
-				          size * sizeof(Type));
+			const std::streamoff dataStart = file.tellg();
+			file.seekg(0, std::ios::end);
+			const std::streamoff dataSize = static_cast<std::streamoff>(size) * static_cast<std::streamoff>(sizeof(Type));
+			if (!file || static_cast<std::streamoff>(file.tellg()) - dataStart < dataSize) {
+				std::cerr << "Error: file " << filename << " is too small for its declared size " << size << std::endl;
+				return false;
 			}
-			
+			file.seekg(dataStart);
+
+			std::vector<Type> elems(size);
+			if (size > 0)
+				file.read(reinterpret_cast<char*>(elems.data()), dataSize);
+			if (!file) {
+				std::cerr << "Error: could not read data from " << filename << std::endl;
+				return false;
+			}
+
 			file.close();
+			outVec._elems = std::move(elems);
 			return true;
 		}
 		
@@ -595,14 +607,20 @@ namespace MML
 			std::ifstream file(filename);
 			if (!file.is_open()) return false;
 			
-			size_t size;
-			file >> size;
-			outVec._elems.resize(size);
-			
-			for (size_t i = 0; i < size; ++i)
-				file >> outVec._elems[i];
-			
+			long long size = -1;
+			if (!(file >> size) || size < 0)
+				return false;
+
+			std::vector<Type> elems;
+			for (long long i = 0; i < size; ++i) {
+				Type val{};
+				if (!(file >> val))
+					return false;
+				elems.push_back(val);
+			}
+
 			file.close();
+			outVec._elems = std::move(elems);
 			return true;
 		}
 	};
diff --git a/mml/tools/serializer/MatrixIO.h b/mml/tools/serializer/MatrixIO.h
index 92522eb..f61d377 100644
--- a/mml/tools/serializer/MatrixIO.h
+++ b/mml/tools/serializer/MatrixIO.h
@@ -49,19 +49,27 @@ namespace Serializer
 			return false;
 		}
 		
-		int rows, cols;
+		int rows = 0, cols = 0;
 		file >> rows >> cols;
 		if (file.fail() || rows <= 0 || cols <= 0 || rows > 100000 || cols > 100000) {
 			std::cerr << "Error: invalid dimensions (" << rows << "x" << cols << ") in " << filename << std::endl;
 			return false;
 		}
+		std::vector<Type> values;
+		for (long long k = 0; k < static_cast<long long>(rows) * cols; ++k) {
+			Type value{};
+			if (!(file >> value)) {
+				std::cerr << "Error: missing or invalid matrix element in " << filename << std::endl;
+				return false;
+			}
+			values.push_back(value);
+		}
+		file.close();
+
 		outMat.Resize(rows, cols);
-		
 		for (int i = 0; i < rows; ++i)
 			for (int j = 0; j < cols; ++j)
-				file >> outMat(i, j);
-		
-		file.close();
+				outMat(i, j) = values[static_cast<size_t>(i) * cols + j];
 		return true;
 	}
 
@@ -118,12 +126,16 @@ namespace Serializer
 			std::string cell;
 			while (std::getline(ss, cell, ',')) {
 				std::stringstream cellStream(cell);
-				Type value;
-				cellStream >> value;
+				Type value{};
+				if (!(cellStream >> value) || !(cellStream >> std::ws).eof())
+					return false;
 				row.push_back(value);
 			}
-			if (!row.empty())
+			if (!row.empty()) {
+				if (!data.empty() && row.size() != data.front().size())
+					return false;
 				data.push_back(row);
+			}
 		}
 		
 		file.close();
@@ -227,7 +239,7 @@ namespace Serializer
 		}
 		
 		// Read and verify header
-		uint32_t magic, version, rows, cols, elemSize, reserved;
+		uint32_t magic = 0, version = 0, rows = 0, cols = 0, elemSize = 0, reserved = 0;
 		
 		file.read(reinterpret_cast<char*>(&magic), sizeof(magic));
 		if (magic != BinaryFormat::MAGIC_MATRIX) {
@@ -257,11 +269,23 @@ namespace Serializer
 		}
 		
 		// Read data
-		outMat.Resize(static_cast<int>(rows), static_cast<int>(cols));
-		file.read(reinterpret_cast<char*>(outMat.data()), 
-		          static_cast<std::streamsize>(rows) * cols * sizeof(Type));
-		
+		const std::streamoff dataStart = file.tellg();
+		file.seekg(0, std::ios::end);
+		const std::streamoff dataSize = static_cast<std::streamoff>(rows) * cols * static_cast<std::streamoff>(sizeof(Type));
+		if (!file || static_cast<std::streamoff>(file.tellg()) - dataStart < dataSize) {
+			std::cerr << "Error: file " << filename << " is too small for a " << rows << "x" << cols << " matrix" << std::endl;
+			return false;
+		}
+		file.seekg(dataStart);
+
+		Matrix<Type> mat(static_cast<int>(rows), static_cast<int>(cols));
+		file.read(reinterpret_cast<char*>(mat.data()), dataSize);
+		if (!file) {
+			std::cerr << "Error: could not read data from " << filename << std::endl;
+			return false;
+		}
 		file.close();
+		outMat = std::move(mat);
 		return true;
 	}
 
diff --git a/mml/tools/serializer/VectorIO.h b/mml/tools/serializer/VectorIO.h
index d2693cf..e6abc1d 100644
--- a/mml/tools/serializer/VectorIO.h
+++ b/mml/tools/serializer/VectorIO.h
@@ -96,7 +96,7 @@ bool LoadComplexVector(const std::string& filename,
     }
     
     // Read and verify header
-    uint32_t magic, version, count, elemSize;
+    uint32_t magic = 0, version = 0, count = 0, elemSize = 0;
     
     file.read(reinterpret_cast<char*>(&magic), sizeof(magic));
     if (magic != BinaryFormat::MAGIC_VECTOR_COMPLEX) {
-- 
2.43.0


From b31d4889e0e02511e88ff612eda39b961388c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:13 +0000
Subject: [PATCH 140/188] fix: ODE solution serializers wrote unused storage as
 data points

---
 mml/tools/serializer/SerializerODE.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mml/tools/serializer/SerializerODE.h b/mml/tools/serializer/SerializerODE.h
index 9637e1f..bc710e6 100644
--- a/mml/tools/serializer/SerializerODE.h
+++ b/mml/tools/serializer/SerializerODE.h
@@ -46,9 +46,9 @@ namespace MML
 
 			try
 			{
-				WriteRealFuncHeader(file, "REAL_FUNCTION", title, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				WriteRealFuncHeader(file, "REAL_FUNCTION", title, sol.getT1(), sol.getT2(), sol.size());
 				
-				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
+				for (int i = 0; i < sol.size(); i++)
 				{
 					file << sol.getTValues()[i] << " " << sol.getXValues()[compInd][i] << std::endl;
 				}
@@ -83,9 +83,9 @@ namespace MML
 
 			try
 			{
-				WriteRealMultiFuncHeader(file, title, sol.getSysDim(), legend, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				WriteRealMultiFuncHeader(file, title, sol.getSysDim(), legend, sol.getT1(), sol.getT2(), sol.size());
 
-				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
+				for (int i = 0; i < sol.size(); i++)
 				{
 					file << sol.getTValues()[i] << " ";
 					for (int j = 0; j < sol.getSysDim(); j++)
@@ -127,9 +127,9 @@ namespace MML
 
 			try
 			{
-				WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_2D", title, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_2D", title, sol.getT1(), sol.getT2(), sol.size());
 				
-				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
+				for (int i = 0; i < sol.size(); i++)
 				{
 					file << sol.getTValues()[i] << " ";
 					file << sol.getXValues()[ind1][i] << " ";
@@ -171,9 +171,9 @@ namespace MML
 
 			try
 			{
-				WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_3D", title, sol.getT1(), sol.getT2(), sol.getTotalSavedSteps());
+				WriteParamCurveHeader(file, "PARAMETRIC_CURVE_CARTESIAN_3D", title, sol.getT1(), sol.getT2(), sol.size());
 
-				for (int i = 0; i < sol.getTotalSavedSteps(); i++)
+				for (int i = 0; i < sol.size(); i++)
 				{
 					file << sol.getTValues()[i] << " ";
 					file << sol.getXValues()[ind1][i] << " ";
-- 
2.43.0


From cfde8560cf27f5ad518fcb1e56fe82424ea6c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:13 +0000
Subject: [PATCH 141/188] fix: particle simulation serializers read past the
 end of shorter position lists

---
 mml/tools/serializer/SerializerSimulation.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mml/tools/serializer/SerializerSimulation.h b/mml/tools/serializer/SerializerSimulation.h
index cf0552a..49ae921 100644
--- a/mml/tools/serializer/SerializerSimulation.h
+++ b/mml/tools/serializer/SerializerSimulation.h
@@ -48,6 +48,9 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "dT must be positive"};
 			if (ballPositions.size() != numBalls || ballColors.size() != numBalls || ballRadius.size() != numBalls)
 				return {false, SerializeError::INVALID_PARAMETERS, "ballPositions, ballColors, and ballRadius sizes must equal numBalls"};
+			for (const auto& positions : ballPositions)
+				if (positions.size() != ballPositions[0].size())
+					return {false, SerializeError::INVALID_PARAMETERS, "all balls must have the same number of positions"};
 			if (fileName.empty())
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 			if (saveEveryNSteps < 1)
@@ -119,6 +122,9 @@ namespace MML
 				return {false, SerializeError::INVALID_PARAMETERS, "dT must be positive"};
 			if (ballPositions.size() != numBalls || ballColors.size() != numBalls || ballRadius.size() != numBalls)
 				return {false, SerializeError::INVALID_PARAMETERS, "ballPositions, ballColors, and ballRadius sizes must equal numBalls"};
+			for (const auto& positions : ballPositions)
+				if (positions.size() != ballPositions[0].size())
+					return {false, SerializeError::INVALID_PARAMETERS, "all balls must have the same number of positions"};
 			if (fileName.empty())
 				return {false, SerializeError::INVALID_PARAMETERS, "fileName cannot be empty"};
 			if (saveEveryNSteps < 1)
-- 
2.43.0


From 80dfad62f2de94a20dc128b11fa682b8ef1f7ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:13 +0000
Subject: [PATCH 142/188] fix: LoadComplexVector accepted files with a
 truncated header and CSV loading choked on CRLF

---
 mml/tools/serializer/MatrixIO.h | 2 ++
 mml/tools/serializer/VectorIO.h | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/mml/tools/serializer/MatrixIO.h b/mml/tools/serializer/MatrixIO.h
index f61d377..5349822 100644
--- a/mml/tools/serializer/MatrixIO.h
+++ b/mml/tools/serializer/MatrixIO.h
@@ -121,6 +121,8 @@ namespace Serializer
 		std::string line;
 		
 		while (std::getline(file, line)) {
+			if (!line.empty() && line.back() == '\r')
+				line.pop_back();
 			std::vector<Type> row;
 			std::stringstream ss(line);
 			std::string cell;
diff --git a/mml/tools/serializer/VectorIO.h b/mml/tools/serializer/VectorIO.h
index e6abc1d..0d90d11 100644
--- a/mml/tools/serializer/VectorIO.h
+++ b/mml/tools/serializer/VectorIO.h
@@ -126,7 +126,7 @@ bool LoadComplexVector(const std::string& filename,
     file.seekg(currentPos);
 
     auto expectedDataSize = static_cast<std::streamoff>(count) * elemSize * 2;
-    if (fileSize - currentPos < expectedDataSize) {
+    if (!file || fileSize - currentPos < expectedDataSize) {
         std::cerr << "Error: file " << filename << " is too small for declared count "
                   << count << " (need " << expectedDataSize << " data bytes, have "
                   << (fileSize - currentPos) << ")" << std::endl;
-- 
2.43.0


From 2a491662a5aa7976d04c5de135af8df12188904c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:13 +0000
Subject: [PATCH 143/188] fix: SaveRealMultiFunc could sample just past the end
 of the range

---
 mml/tools/serializer/SerializerFunctions.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/tools/serializer/SerializerFunctions.h b/mml/tools/serializer/SerializerFunctions.h
index 9bab02e..10879bf 100644
--- a/mml/tools/serializer/SerializerFunctions.h
+++ b/mml/tools/serializer/SerializerFunctions.h
@@ -189,7 +189,7 @@ namespace MML
 
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + (x2 - x1) * i / (numPoints - 1);
+					Real x = (i == numPoints - 1) ? x2 : x1 + (x2 - x1) * i / (numPoints - 1);
 					out << x << " ";
 
 					for (size_t j = 0; j < funcs.size(); j++)
@@ -248,7 +248,7 @@ namespace MML
 
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + (x2 - x1) * i / (numPoints - 1);
+					Real x = (i == numPoints - 1) ? x2 : x1 + (x2 - x1) * i / (numPoints - 1);
 					file << x << " ";
 
 					for (int j = 0; j < funcs.size(); j++)
@@ -291,7 +291,7 @@ namespace MML
 
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + (x2 - x1) * i / (numPoints - 1);
+					Real x = (i == numPoints - 1) ? x2 : x1 + (x2 - x1) * i / (numPoints - 1);
 					file << x << " ";
 
 					for (int j = 0; j < funcs.size(); j++)
@@ -334,7 +334,7 @@ namespace MML
 
 				for (int i = 0; i < numPoints; i++)
 				{
-					Real x = x1 + (x2 - x1) * i / (numPoints - 1);
+					Real x = (i == numPoints - 1) ? x2 : x1 + (x2 - x1) * i / (numPoints - 1);
 					file << x << " ";
 
 					for (int j = 0; j < funcs.size(); j++)
-- 
2.43.0


From 975b67a6765b1aa003b8eb9bcac829c3bc68d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:22 +0000
Subject: [PATCH 144/188] fix: loading data truncated reals in mostly-integer
 columns, dropped integers beyond int and accepted trailing garbage in numbers

---
 mml/tools/data_loader/DataLoaderParsing.h | 67 ++++++++++++++++++++---
 1 file changed, 59 insertions(+), 8 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderParsing.h b/mml/tools/data_loader/DataLoaderParsing.h
index 177fd32..f3193c9 100644
--- a/mml/tools/data_loader/DataLoaderParsing.h
+++ b/mml/tools/data_loader/DataLoaderParsing.h
@@ -15,6 +15,10 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
+#include <limits>
 #include <regex>
 #include <string>
 #include <vector>
@@ -25,6 +29,48 @@ namespace MML {
 		/////////////////////////////////////////////////////////////////////////////////////
 		///                              TYPE INFERENCE                                    ///
 		/////////////////////////////////////////////////////////////////////////////////////
+		/// @brief Check for an (optionally signed) run of decimal digits
+		inline bool IsIntegerLiteral(const std::string& s) {
+			size_t i = (!s.empty() && (s[0] == '+' || s[0] == '-')) ? 1 : 0;
+			if (i >= s.size()) return false;
+			for (; i < s.size(); ++i)
+				if (!std::isdigit(static_cast<unsigned char>(s[i]))) return false;
+			return true;
+		}
+
+		/// @brief Check for a decimal floating-point literal (digits, optional fraction and exponent)
+		inline bool IsRealLiteral(const std::string& s) {
+			auto digits = [&s](size_t& i) {
+				size_t start = i;
+				while (i < s.size() && std::isdigit(static_cast<unsigned char>(s[i]))) ++i;
+				return i - start;
+			};
+			size_t i = (!s.empty() && (s[0] == '+' || s[0] == '-')) ? 1 : 0;
+			size_t mantissa = digits(i);
+			if (i < s.size() && s[i] == '.') {
+				++i;
+				mantissa += digits(i);
+			}
+			if (mantissa == 0) return false;
+			if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
+				++i;
+				if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
+				if (digits(i) == 0) return false;
+			}
+			return i == s.size();
+		}
+
+		/// @brief Convert an integer literal, reporting failure if it does not fit into an int
+		inline bool ParseIntLiteral(const std::string& s, int& out) {
+			if (!IsIntegerLiteral(s)) return false;
+			errno = 0;
+			long long v = std::strtoll(s.c_str(), nullptr, 10);
+			if (errno == ERANGE || v < std::numeric_limits<int>::min() || v > std::numeric_limits<int>::max())
+				return false;
+			out = static_cast<int>(v);
+			return true;
+		}
+
 		/// @brief Infer column type from string values
 		/// @param values Sample of string values from the column
 		/// @return Most appropriate ColumnType for the data
@@ -37,8 +83,6 @@ namespace MML {
 			size_t missingCount = 0;
 
 			// Patterns
-			std::regex intPattern(R"(^[-+]?\d+$)");
-			std::regex realPattern(R"(^[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$)");
 			std::regex datePattern(R"(^\d{4}[-/]\d{1,2}[-/]\d{1,2}$)");
 			std::regex timePattern(R"(^\d{1,2}:\d{2}(:\d{2})?(\.\d+)?$)");
 			std::regex dateTimePattern(R"(^\d{4}[-/]\d{1,2}[-/]\d{1,2}[T ]\d{1,2}:\d{2}(:\d{2})?$)");
@@ -55,11 +99,13 @@ namespace MML {
 				}
 
 				// Check numeric patterns FIRST (before bool, since "1"/"0" could be numeric)
-				if (std::regex_match(trimmed, intPattern)) {
+				// (integers that do not fit into an int can only be represented as reals)
+				int intValue = 0;
+				if (ParseIntLiteral(trimmed, intValue)) {
 					++intCount;
 					continue;
 				}
-				if (std::regex_match(trimmed, realPattern)) {
+				if (IsRealLiteral(trimmed)) {
 					++realCount;
 					continue;
 				}
@@ -98,7 +144,7 @@ namespace MML {
 			if (dateCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::DATE;
 			if (timeCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::TIME;
 			if (boolCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::BOOL;
-			if (intCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::INT;
+			if (realCount == 0 && intCount >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::INT;
 			if ((intCount + realCount) >= threshold * static_cast<double>(totalNonMissing)) return ColumnType::REAL;
 
 			return ColumnType::STRING;
@@ -136,12 +182,17 @@ namespace MML {
 			try {
 				switch (targetType) {
 					case ColumnType::REAL: {
-						realOut = std::stod(trimmed);
+						char* end = nullptr;
+						Real parsed = static_cast<Real>(std::strtod(trimmed.c_str(), &end));
+						if (end != trimmed.c_str() + trimmed.size())
+							return ParseResult::Invalid;
+						if (std::isinf(parsed) && IsRealLiteral(trimmed))
+							return ParseResult::Invalid;  // overflow
+						realOut = parsed;
 						return ParseResult::Parsed;
 					}
 					case ColumnType::INT: {
-						intOut = std::stoi(trimmed);
-						return ParseResult::Parsed;
+						return ParseIntLiteral(trimmed, intOut) ? ParseResult::Parsed : ParseResult::Invalid;
 					}
 					case ColumnType::BOOL: {
 						std::string lower = trimmed;
-- 
2.43.0


From 55418ae4b75d7627de6aa5b2c9b8d756a658fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:22 +0000
Subject: [PATCH 145/188] fix: inferring the type of a column with very long
 text fields overflowed the stack

---
 mml/tools/data_loader/DataLoaderParsing.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/tools/data_loader/DataLoaderParsing.h b/mml/tools/data_loader/DataLoaderParsing.h
index f3193c9..6b2dda5 100644
--- a/mml/tools/data_loader/DataLoaderParsing.h
+++ b/mml/tools/data_loader/DataLoaderParsing.h
@@ -119,7 +119,8 @@ namespace MML {
 					continue;
 				}
 
-				// Check date/time patterns
+				// Check date/time patterns (std::regex recurses per character, so never run it on long text)
+				if (trimmed.size() > 64) continue;
 				if (std::regex_match(trimmed, dateTimePattern)) {
 					++dateTimeCount;
 					continue;
-- 
2.43.0


From a7488b4d8fd3063ea383c0db78c2bb663170b556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:22 +0000
Subject: [PATCH 146/188] fix: TSV records whose values are all missing were
 dropped as blank lines

---
 mml/tools/data_loader/DataLoaderCSV.h     | 4 ++--
 mml/tools/data_loader/DataLoaderParsing.h | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderCSV.h b/mml/tools/data_loader/DataLoaderCSV.h
index daca260..4d9c774 100644
--- a/mml/tools/data_loader/DataLoaderCSV.h
+++ b/mml/tools/data_loader/DataLoaderCSV.h
@@ -61,7 +61,7 @@ namespace MML {
 				}
 
 				// Skip empty lines
-				if (Trim(line).empty()) continue;
+				if (IsBlankLine(line, opts.delimiter)) continue;
 
 				// Handle Windows line endings
 				if (!line.empty() && line.back() == '\r')
@@ -297,7 +297,7 @@ namespace MML {
 			std::string line;
 
 			while (std::getline(iss, line)) {
-				if (Trim(line).empty()) continue;
+				if (IsBlankLine(line, delimiter)) continue;
 				if (!line.empty() && line.back() == '\r')
 					line.pop_back();
 				allData.push_back(SplitLine(line, delimiter));
diff --git a/mml/tools/data_loader/DataLoaderParsing.h b/mml/tools/data_loader/DataLoaderParsing.h
index 6b2dda5..659d76f 100644
--- a/mml/tools/data_loader/DataLoaderParsing.h
+++ b/mml/tools/data_loader/DataLoaderParsing.h
@@ -270,6 +270,12 @@ namespace MML {
 			return s.substr(start, end - start + 1);
 		}
 
+		/// @brief Check for a line that carries no record (whitespace only, and no delimiter)
+		/// @details A line of delimiters only is a record whose values are all missing.
+		inline bool IsBlankLine(const std::string& line, char delimiter) {
+			return Trim(line).empty() && line.find(delimiter) == std::string::npos;
+		}
+
 		/// @brief Remove UTF-8 BOM if present
 		inline std::string RemoveBOM(const std::string& s) {
 			if (s.size() >= 3 &&
-- 
2.43.0


From a5ac4ccd4cf07c9157cd2be692dc5299605e7854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:22 +0000
Subject: [PATCH 147/188] fix: a quoted CSV field containing a line break was
 torn into two records

---
 mml/tools/data_loader/DataLoaderCSV.h     |  4 +++
 mml/tools/data_loader/DataLoaderParsing.h | 35 +++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/mml/tools/data_loader/DataLoaderCSV.h b/mml/tools/data_loader/DataLoaderCSV.h
index 4d9c774..f896dfa 100644
--- a/mml/tools/data_loader/DataLoaderCSV.h
+++ b/mml/tools/data_loader/DataLoaderCSV.h
@@ -63,6 +63,9 @@ namespace MML {
 				// Skip empty lines
 				if (IsBlankLine(line, opts.delimiter)) continue;
 
+				// A quoted field may span several lines
+				AppendQuotedContinuation(file, line, opts.delimiter);
+
 				// Handle Windows line endings
 				if (!line.empty() && line.back() == '\r')
 					line.pop_back();
@@ -298,6 +301,7 @@ namespace MML {
 
 			while (std::getline(iss, line)) {
 				if (IsBlankLine(line, delimiter)) continue;
+				AppendQuotedContinuation(iss, line, delimiter);
 				if (!line.empty() && line.back() == '\r')
 					line.pop_back();
 				allData.push_back(SplitLine(line, delimiter));
diff --git a/mml/tools/data_loader/DataLoaderParsing.h b/mml/tools/data_loader/DataLoaderParsing.h
index 659d76f..42e59cd 100644
--- a/mml/tools/data_loader/DataLoaderParsing.h
+++ b/mml/tools/data_loader/DataLoaderParsing.h
@@ -15,6 +15,7 @@
 
 #include <algorithm>
 #include <cctype>
+#include <istream>
 #include <cerrno>
 #include <cmath>
 #include <cstdlib>
@@ -262,6 +263,40 @@ namespace MML {
 			return result;
 		}
 
+		/// @brief Check whether a line ends inside a quoted field (one that starts with a quote)
+		inline bool EndsInsideQuotedField(const std::string& line, char delimiter) {
+			bool inQuotes = false, quotedField = false, atStart = true;
+			for (size_t i = 0; i < line.size(); ++i) {
+				char c = line[i];
+				if (c == '"') {
+					if (inQuotes && i + 1 < line.size() && line[i + 1] == '"')
+						++i;
+					else {
+						inQuotes = !inQuotes;
+						if (inQuotes) quotedField = atStart;
+					}
+					atStart = false;
+				}
+				else if (c == delimiter && !inQuotes)
+					atStart = true;
+				else if (c != ' ' && c != '\t')
+					atStart = false;
+			}
+			return inQuotes && quotedField;
+		}
+
+		/// @brief Complete a record whose quoted field contains line breaks
+		/// @throws DataError if the input ends inside the quoted field
+		inline void AppendQuotedContinuation(std::istream& in, std::string& line, char delimiter) {
+			std::string next;
+			while (EndsInsideQuotedField(line, delimiter)) {
+				if (!std::getline(in, next))
+					throw DataError("CSV: Unterminated quoted field");
+				line += '\n';
+				line += next;
+			}
+		}
+
 		/// @brief Trim whitespace from string
 		inline std::string Trim(const std::string& s) {
 			size_t start = s.find_first_not_of(" \t\r\n");
-- 
2.43.0


From 697e40c25f8cdfa6e4f2d3a14a1501ebd9c46e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:22 +0000
Subject: [PATCH 148/188] fix: GetRealColumn returned 0 for missing values of
 an integer column

---
 mml/tools/data_loader/DataLoaderTypes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/tools/data_loader/DataLoaderTypes.h b/mml/tools/data_loader/DataLoaderTypes.h
index 96ed18e..1c89017 100644
--- a/mml/tools/data_loader/DataLoaderTypes.h
+++ b/mml/tools/data_loader/DataLoaderTypes.h
@@ -255,7 +255,7 @@ namespace MML {
 				// Convert int to real
 				Vector<Real> result(col.intData.size());
 				for (size_t i = 0; i < col.intData.size(); ++i)
-					result[i] = static_cast<Real>(col.intData[i]);
+					result[i] = col.IsMissing(i) ? std::numeric_limits<Real>::quiet_NaN() : static_cast<Real>(col.intData[i]);
 				return result;
 			}
 
-- 
2.43.0


From cb28bb7c9ed5e6b4633f77edaca40f9beb11731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:02 +0000
Subject: [PATCH 149/188] fix: JSON objects with differing keys shifted values
 to other rows, and malformed arrays were accepted

---
 mml/tools/data_loader/DataLoaderJSON.h | 37 +++++++++++++++-----------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderJSON.h b/mml/tools/data_loader/DataLoaderJSON.h
index bd5d6a7..709e18e 100644
--- a/mml/tools/data_loader/DataLoaderJSON.h
+++ b/mml/tools/data_loader/DataLoaderJSON.h
@@ -135,17 +135,23 @@ namespace MML {
 				std::vector<std::string> columnOrder;
 
 				// Parse each object
+				size_t rows = 0;
 				while (Peek() != ']') {
-					if (Peek() == ',') Get();  // Skip comma
+					if (rows > 0 && Get() != ',')
+						throw DataError("JSON: Expected ',' between objects");
 
 					if (Get() != '{')
 						throw DataError("JSON: Expected '{' for object");
 
 					// Parse object key-value pairs
+					bool firstKey = true;
 					while (Peek() != '}') {
-						if (Peek() == ',') Get();
+						if (!firstKey && Get() != ',')
+							throw DataError("JSON: Expected ',' between members");
+						firstKey = false;
 
 						std::string key = ParseString();
+
 						if (Get() != ':')
 							throw DataError("JSON: Expected ':' after key");
 
@@ -174,30 +180,31 @@ namespace MML {
 								throw DataError("JSON: Unsupported value type (nested objects/arrays not supported)");
 						}
 
-						columnData[key].push_back(value);
+						// Keys absent from earlier objects are missing there
+						auto& column = columnData[key];
+						column.resize(rows + 1);
+						column[rows] = value;
 					}
 
 					if (Get() != '}')
 						throw DataError("JSON: Expected '}'");
-
-					// Fill missing columns with empty for this row
-					size_t maxRows = 0;
-					for (const auto& col : columnOrder) {
-						maxRows = std::max(maxRows, columnData[col].size());
-					}
-					for (const auto& col : columnOrder) {
-						while (columnData[col].size() < maxRows)
-							columnData[col].push_back("");
-					}
+					++rows;
 				}
 
 				if (Get() != ']')
 					throw DataError("JSON: Expected ']'");
 
+				if (Peek() != '\0' || pos < json.size())
+					throw DataError("JSON: Unexpected content after the array");
+
+				// Keys absent from later objects are missing there
+				for (auto& entry : columnData)
+					entry.second.resize(rows);
+
 				// Build dataset
+				dataset.rowCount = rows;
 				if (!columnOrder.empty()) {
-					dataset.rowCount = columnData[columnOrder[0]].size();
-					dataset.columns.reserve(columnOrder.size());
+										dataset.columns.reserve(columnOrder.size());
 
 					for (const auto& colName : columnOrder) {
 						DataColumn col;
-- 
2.43.0


From c5b5afe69b77278a8682aab6f8d30903d0e46311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:02 +0000
Subject: [PATCH 150/188] fix: malformed JSON numbers such as 1-2 or 1e were
 accepted

---
 mml/tools/data_loader/DataLoaderJSON.h | 30 ++++++++++++++++++--------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/mml/tools/data_loader/DataLoaderJSON.h b/mml/tools/data_loader/DataLoaderJSON.h
index 709e18e..f172d3d 100644
--- a/mml/tools/data_loader/DataLoaderJSON.h
+++ b/mml/tools/data_loader/DataLoaderJSON.h
@@ -81,17 +81,29 @@ namespace MML {
 			}
 
 			std::string ParseNumber() {
-				SkipWhitespace();
-				size_t start = pos;
-				if (json[pos] == '-') ++pos;
-				while (pos < json.size() && (std::isdigit(json[pos]) || json[pos] == '.' ||
-				       json[pos] == 'e' || json[pos] == 'E' || json[pos] == '+' || json[pos] == '-')) {
-					++pos;
+					SkipWhitespace();
+					size_t start = pos;
+					auto digits = [this]() {
+						size_t first = pos;
+						while (pos < json.size() && std::isdigit(static_cast<unsigned char>(json[pos]))) ++pos;
+						if (pos == first)
+							throw DataError("JSON: Malformed number");
+					};
+					if (pos < json.size() && json[pos] == '-') ++pos;
+					digits();
+					if (pos < json.size() && json[pos] == '.') {
+						++pos;
+						digits();
+					}
+					if (pos < json.size() && (json[pos] == 'e' || json[pos] == 'E')) {
+						++pos;
+						if (pos < json.size() && (json[pos] == '+' || json[pos] == '-')) ++pos;
+						digits();
+					}
+					return json.substr(start, pos - start);
 				}
-				return json.substr(start, pos - start);
-			}
 
-			bool ParseBool() {
+				bool ParseBool() {
 				SkipWhitespace();
 				if (json.substr(pos, 4) == "true") {
 					pos += 4;
-- 
2.43.0


From ff5dc5b4768f1c1338d954ba49c176652483ad85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:02 +0000
Subject: [PATCH 151/188] fix: JSON escapes \uXXXX, \b and \f were not decoded

---
 mml/tools/data_loader/DataLoaderJSON.h | 53 +++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/mml/tools/data_loader/DataLoaderJSON.h b/mml/tools/data_loader/DataLoaderJSON.h
index f172d3d..3ee9b57 100644
--- a/mml/tools/data_loader/DataLoaderJSON.h
+++ b/mml/tools/data_loader/DataLoaderJSON.h
@@ -53,7 +53,55 @@ namespace MML {
 				return pos < json.size() ? json[pos++] : '\0';
 			}
 
-			std::string ParseString() {
+			/// @brief Read the four hex digits of a \u escape
+				unsigned ParseHex4() {
+					if (pos + 4 > json.size())
+						throw DataError("JSON: Malformed unicode escape");
+					unsigned code = 0;
+					for (int i = 0; i < 4; ++i) {
+						unsigned char c = static_cast<unsigned char>(json[pos++]);
+						if (!std::isxdigit(c))
+							throw DataError("JSON: Malformed unicode escape");
+						code = code * 16 + (std::isdigit(c) ? c - '0' : std::tolower(c) - 'a' + 10);
+					}
+					return code;
+				}
+
+				/// @brief Decode a \u escape (or surrogate pair) and append it as UTF-8
+				void AppendCodePoint(std::string& out) {
+					unsigned code = ParseHex4();
+					if (code >= 0xD800 && code <= 0xDBFF) {
+						if (json.compare(pos, 2, "\\u") != 0)
+							throw DataError("JSON: Unpaired surrogate");
+						pos += 2;
+						unsigned low = ParseHex4();
+						if (low < 0xDC00 || low > 0xDFFF)
+							throw DataError("JSON: Unpaired surrogate");
+						code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+					}
+					else if (code >= 0xDC00 && code <= 0xDFFF)
+						throw DataError("JSON: Unpaired surrogate");
+
+					if (code < 0x80)
+						out += static_cast<char>(code);
+					else if (code < 0x800) {
+						out += static_cast<char>(0xC0 | (code >> 6));
+						out += static_cast<char>(0x80 | (code & 0x3F));
+					}
+					else if (code < 0x10000) {
+						out += static_cast<char>(0xE0 | (code >> 12));
+						out += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+						out += static_cast<char>(0x80 | (code & 0x3F));
+					}
+					else {
+						out += static_cast<char>(0xF0 | (code >> 18));
+						out += static_cast<char>(0x80 | ((code >> 12) & 0x3F));
+						out += static_cast<char>(0x80 | ((code >> 6) & 0x3F));
+						out += static_cast<char>(0x80 | (code & 0x3F));
+					}
+				}
+
+				std::string ParseString() {
 				if (Get() != '"')
 					throw DataError("JSON: Expected '\"'");
 
@@ -70,6 +118,9 @@ namespace MML {
 							case '"': result += '"'; break;
 							case '\\': result += '\\'; break;
 							case '/': result += '/'; break;
+								case 'b': result += '\b'; break;
+								case 'f': result += '\f'; break;
+								case 'u': AppendCodePoint(result); break;
 							default: result += esc; break;
 						}
 					}
-- 
2.43.0


From c650d42bc9d9261e82313f7b412557320fb76b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:24 +0000
Subject: [PATCH 152/188] fix: JSON numbers with leading zeros were accepted

---
 mml/tools/data_loader/DataLoaderJSON.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mml/tools/data_loader/DataLoaderJSON.h b/mml/tools/data_loader/DataLoaderJSON.h
index 3ee9b57..16a4692 100644
--- a/mml/tools/data_loader/DataLoaderJSON.h
+++ b/mml/tools/data_loader/DataLoaderJSON.h
@@ -141,7 +141,10 @@ namespace MML {
 							throw DataError("JSON: Malformed number");
 					};
 					if (pos < json.size() && json[pos] == '-') ++pos;
+					size_t integer = pos;
 					digits();
+					if (json[integer] == '0' && pos > integer + 1)
+						throw DataError("JSON: Malformed number");  // leading zero
 					if (pos < json.size() && json[pos] == '.') {
 						++pos;
 						digits();
-- 
2.43.0


From e49ea04aca20a3c27d7164d6b437acf5b45c7d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:01 +0000
Subject: [PATCH 153/188] fix: VectorTablePrinter threw length_error for
 columns with automatic width

---
 mml/tools/ConsolePrinter.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mml/tools/ConsolePrinter.h b/mml/tools/ConsolePrinter.h
index 04d2741..b94cbfa 100644
--- a/mml/tools/ConsolePrinter.h
+++ b/mml/tools/ConsolePrinter.h
@@ -867,6 +867,7 @@ namespace MML {
 
 		void print(std::ostream& os = std::cout) const {
 			StreamStateGuard guard(os);
+			calculateAutoWidths();
 
 			auto bc = m_style.getChars();
 			bool hasBorders = m_style.borderStyle() != BorderStyle::None;
@@ -941,6 +942,18 @@ namespace MML {
 
 	private:
 		// Helper: print horizontal line for borders (UTF-8 safe)
+		void calculateAutoWidths() const {
+			auto& formats = const_cast<std::vector<ColumnFormat>&>(m_formats);
+			for (size_t col = 0; col < formats.size(); ++col) {
+				if (formats[col].rawWidth() != ColumnFormat::AUTO_WIDTH)
+					continue;
+				int maxWidth = static_cast<int>(formats[col].name().length());
+				for (int row = 0; row < m_vectors[col]->size(); ++row)
+					maxWidth = std::max(maxWidth, static_cast<int>(formats[col].formatValue((*m_vectors[col])[row]).length()));
+				formats[col].setCalculatedWidth(maxWidth);
+			}
+		}
+
 		void printHorizontalLine(std::ostream& os, const std::string& left, const std::string& horiz, const std::string& cross,
 								 const std::string& right) const {
 			os << left;
-- 
2.43.0


From a1865a9c1c45cdc1d32ac98f0ba5e7ac620ec8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:01 +0000
Subject: [PATCH 154/188] fix: FormatType::Integer printed real values with a
 decimal point or exponent

---
 mml/tools/ConsolePrinter.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mml/tools/ConsolePrinter.h b/mml/tools/ConsolePrinter.h
index b94cbfa..14bddb7 100644
--- a/mml/tools/ConsolePrinter.h
+++ b/mml/tools/ConsolePrinter.h
@@ -17,6 +17,7 @@
 #include <sstream>
 #include <fstream>
 #include <string>
+#include <type_traits>
 #include <vector>
 #include <tuple>
 #include <functional>
@@ -337,7 +338,8 @@ namespace MML {
 				oss << std::hex;
 				break;
 			case FormatType::Integer:
-				// No decimal formatting
+				if constexpr (std::is_floating_point_v<T>)
+					oss << std::fixed << std::setprecision(0);
 				break;
 			case FormatType::General:
 			default:
-- 
2.43.0


From d3005dd4628b5184b717feb6f078af5191d3ebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:01 +0000
Subject: [PATCH 155/188] fix: table columns with non-ASCII text were
 misaligned

---
 mml/tools/ConsolePrinter.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mml/tools/ConsolePrinter.h b/mml/tools/ConsolePrinter.h
index 14bddb7..d2207bc 100644
--- a/mml/tools/ConsolePrinter.h
+++ b/mml/tools/ConsolePrinter.h
@@ -51,6 +51,14 @@ namespace MML {
 			return result;
 		}
 
+		/// @brief Number of code points in a UTF-8 string (its width on screen)
+		inline size_t displayLength(const std::string& str) {
+			size_t n = 0;
+			for (unsigned char c : str)
+				if ((c & 0xC0) != 0x80) ++n;
+			return n;
+		}
+
 		/// @brief Check if a string represents exactly one display character.
 		///
 		/// A display character can be:
@@ -360,11 +368,11 @@ namespace MML {
 		// Helper to format with alignment and width
 		std::string formatAligned(const std::string& content) const {
 			int w = width();
-			if (content.length() >= static_cast<size_t>(w)) {
+			if (Utf8::displayLength(content) >= static_cast<size_t>(w)) {
 				return content;
 			}
 
-			int padding = w - static_cast<int>(content.length());
+			int padding = w - static_cast<int>(Utf8::displayLength(content));
 
 			switch (m_alignment) {
 			case Alignment::Left:
@@ -802,10 +810,10 @@ namespace MML {
 
 			// Tag column
 			if (tagFmt.rawWidth() == ColumnFormat::AUTO_WIDTH) {
-				int maxWidth = static_cast<int>(tagFmt.name().length());
+				int maxWidth = static_cast<int>(Utf8::displayLength(tagFmt.name()));
 				for (const auto& tag : m_rowTags) {
 					std::string formatted = tagFmt.formatValue(tag);
-					maxWidth = std::max(maxWidth, static_cast<int>(formatted.length()));
+					maxWidth = std::max(maxWidth, static_cast<int>(Utf8::displayLength(formatted)));
 				}
 				tagFmt.setCalculatedWidth(maxWidth);
 			}
@@ -813,10 +821,10 @@ namespace MML {
 			// Value columns
 			for (size_t col = 0; col < colFmts.size(); ++col) {
 				if (colFmts[col].rawWidth() == ColumnFormat::AUTO_WIDTH) {
-					int maxWidth = static_cast<int>(colFmts[col].name().length());
+					int maxWidth = static_cast<int>(Utf8::displayLength(colFmts[col].name()));
 					for (const auto& row : m_data) {
 						std::string formatted = colFmts[col].formatValue(row[col]);
-						maxWidth = std::max(maxWidth, static_cast<int>(formatted.length()));
+						maxWidth = std::max(maxWidth, static_cast<int>(Utf8::displayLength(formatted)));
 					}
 					colFmts[col].setCalculatedWidth(maxWidth);
 				}
@@ -949,9 +957,9 @@ namespace MML {
 			for (size_t col = 0; col < formats.size(); ++col) {
 				if (formats[col].rawWidth() != ColumnFormat::AUTO_WIDTH)
 					continue;
-				int maxWidth = static_cast<int>(formats[col].name().length());
+				int maxWidth = static_cast<int>(Utf8::displayLength(formats[col].name()));
 				for (int row = 0; row < m_vectors[col]->size(); ++row)
-					maxWidth = std::max(maxWidth, static_cast<int>(formats[col].formatValue((*m_vectors[col])[row]).length()));
+					maxWidth = std::max(maxWidth, static_cast<int>(Utf8::displayLength(formats[col].formatValue((*m_vectors[col])[row]))));
 				formats[col].setCalculatedWidth(maxWidth);
 			}
 		}
-- 
2.43.0


From 722240834fbf9372f876b3b8e611d4934c9c335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:01 +0000
Subject: [PATCH 156/188] fix: TSV and Markdown exports did not escape cells
 and used the format flags of the target stream

---
 mml/tools/ConsolePrinter.h | 59 +++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/mml/tools/ConsolePrinter.h b/mml/tools/ConsolePrinter.h
index d2207bc..5884b33 100644
--- a/mml/tools/ConsolePrinter.h
+++ b/mml/tools/ConsolePrinter.h
@@ -162,6 +162,38 @@ namespace MML {
 		}
 	} // namespace Csv
 
+	/// @brief Tab-separated text helpers
+	namespace Tsv {
+		/// @brief Quote a field that a tab-separated file could not hold as it is
+		inline std::string escape(const std::string& str) {
+			if (str.find_first_of("\t\"\n\r") == std::string::npos)
+				return str;
+			std::string result = "\"";
+			for (char c : str) {
+				if (c == '"') result += '"';
+				result += c;
+			}
+			return result + '"';
+		}
+	}
+
+	/// @brief Markdown table helpers
+	namespace Markdown {
+		/// @brief Escape text so that it stays inside one cell of a Markdown table
+		inline std::string escape(const std::string& str) {
+			std::string result;
+			result.reserve(str.size());
+			for (size_t i = 0; i < str.size(); ++i) {
+				char c = str[i];
+				if (c == '|') result += "\\|";
+				else if (c == '\r' && i + 1 < str.size() && str[i + 1] == '\n') continue;
+				else if (c == '\n' || c == '\r') result += "<br>";
+				else result += c;
+			}
+			return result;
+		}
+	}
+
 	namespace Html {
 		/// @brief Escape special HTML characters in a string
 		inline std::string escape(const std::string& str) {
@@ -680,19 +712,26 @@ namespace MML {
 		}
 
 		// TSV export
+		template<typename T>
+		static std::string toText(const T& value) {
+			std::ostringstream oss;
+			oss << value;
+			return oss.str();
+		}
+
 		void exportTSV(std::ostream& os) const {
 			// Header
-			os << m_tagFormat.name();
+			os << Tsv::escape(m_tagFormat.name());
 			for (const auto& fmt : m_columnFormats) {
-				os << "\t" << fmt.name();
+				os << "\t" << Tsv::escape(fmt.name());
 			}
 			os << "\n";
 
 			// Data
 			for (size_t row = 0; row < m_data.size(); ++row) {
-				os << m_rowTags[row];
+				os << Tsv::escape(toText(m_rowTags[row]));
 				for (const auto& value : m_data[row]) {
-					os << "\t" << value;
+					os << "\t" << Tsv::escape(toText(value));
 				}
 				os << "\n";
 			}
@@ -701,24 +740,24 @@ namespace MML {
 		// Markdown export
 		void exportMarkdown(std::ostream& os) const {
 			// Header
-			os << "| " << m_tagFormat.name();
+			os << "| " << Markdown::escape(m_tagFormat.name());
 			for (const auto& fmt : m_columnFormats) {
-				os << " | " << fmt.name();
+				os << " | " << Markdown::escape(fmt.name());
 			}
 			os << " |\n";
 
 			// Separator
-			os << "|" << std::string(m_tagFormat.name().length() + 2, '-');
+			os << "|" << std::string(Markdown::escape(m_tagFormat.name()).length() + 2, '-');
 			for (const auto& fmt : m_columnFormats) {
-				os << "|" << std::string(fmt.name().length() + 2, '-');
+				os << "|" << std::string(Markdown::escape(fmt.name()).length() + 2, '-');
 			}
 			os << "|\n";
 
 			// Data
 			for (size_t row = 0; row < m_data.size(); ++row) {
-				os << "| " << m_rowTags[row];
+				os << "| " << Markdown::escape(toText(m_rowTags[row]));
 				for (const auto& value : m_data[row]) {
-					os << " | " << value;
+					os << " | " << Markdown::escape(toText(value));
 				}
 				os << " |\n";
 			}
-- 
2.43.0


From 8ddc947d89790b329d8f93240715d2d4543ab51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:01 +0000
Subject: [PATCH 157/188] fix: tables whose file could not be written were
 reported as written

---
 mml/tools/ConsolePrinter.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mml/tools/ConsolePrinter.h b/mml/tools/ConsolePrinter.h
index 5884b33..ff4c539 100644
--- a/mml/tools/ConsolePrinter.h
+++ b/mml/tools/ConsolePrinter.h
@@ -574,6 +574,9 @@ namespace MML {
 				throw FileIOError("Cannot open file: " + filename, filename);
 			}
 			print(file);
+			file.flush();
+			if (!file)
+				throw FileIOError("Error writing file: " + filename, filename);
 		}
 
 		// Convert to string
@@ -615,6 +618,9 @@ namespace MML {
 				throw FileIOError("Cannot open file: " + filename, filename);
 			}
 			exportTo(file, format);
+			file.flush();
+			if (!file)
+				throw FileIOError("Error writing file: " + filename, filename);
 		}
 
 	private:
-- 
2.43.0


From f0d7dc76b7f88646d6b44d8a3990fc0f83f743b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:01 +0000
Subject: [PATCH 158/188] fix: Vector::Print showed NaN elements as 0

---
 mml/base/Vector/Vector.h  | 6 +++---
 mml/base/Vector/VectorN.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mml/base/Vector/Vector.h b/mml/base/Vector/Vector.h
index a96cd8f..88752a8 100644
--- a/mml/base/Vector/Vector.h
+++ b/mml/base/Vector/Vector.h
@@ -421,10 +421,10 @@ namespace MML
 				else
 					first = false;
 
-        if( Abs(x) > zeroThreshold )
-				  stream << std::setw(width) << std::setprecision(precision) << x;
+        if (Abs(x) <= zeroThreshold)
+				  stream << std::setw(width) << std::setprecision(precision) << 0.0;
         else
-          stream << std::setw(width) << std::setprecision(precision) << 0.0;
+          stream << std::setw(width) << std::setprecision(precision) << x;
 			}
 			stream << "]";
 
diff --git a/mml/base/Vector/VectorN.h b/mml/base/Vector/VectorN.h
index 175175a..f96fa70 100644
--- a/mml/base/Vector/VectorN.h
+++ b/mml/base/Vector/VectorN.h
@@ -356,10 +356,10 @@ namespace MML
 				else
 					first = false;
 
-				if (Abs(x) > zeroThreshold)
-					stream << std::setw(width) << std::setprecision(precision) << x;
-				else
+				if (Abs(x) <= zeroThreshold)
 					stream << std::setw(width) << std::setprecision(precision) << 0.0;
+				else
+					stream << std::setw(width) << std::setprecision(precision) << x;
 			}
 			stream << "]";
 
-- 
2.43.0


From 7e3a3d3a5b0e110edc40b595a3e0d3ad51773d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:01 +0000
Subject: [PATCH 159/188] fix: MatrixPrintFormat::zeroThreshold was ignored by
 Matrix, MatrixSym and MatrixTriDiag

---
 mml/base/Matrix/Matrix.h        | 6 +++++-
 mml/base/Matrix/MatrixSym.h     | 8 ++++++--
 mml/base/Matrix/MatrixTriDiag.h | 8 ++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index dc6bf32..20190ba 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -1219,7 +1219,11 @@ namespace MML
 			for (int i = 0; i < _rows; ++i) {
 				if (fmt.showBrackets) stream << "[ ";
 				for (int j = 0; j < _cols; ++j) {
-					stream << std::setw(fmt.width) << std::setprecision(fmt.precision) << (*this)(i, j);
+					Type value = (*this)(i, j);
+					if constexpr (is_MML_simple_numeric<Type>) {
+						if (fmt.zeroThreshold > 0.0 && std::abs(static_cast<Real>(value)) <= fmt.zeroThreshold) value = Type{0};
+					}
+					stream << std::setw(fmt.width) << std::setprecision(fmt.precision) << value;
 					if (j < _cols - 1) stream << fmt.delimiter;
 				}
 				if (fmt.showBrackets) stream << " ]";
diff --git a/mml/base/Matrix/MatrixSym.h b/mml/base/Matrix/MatrixSym.h
index 38552e0..065ac0b 100644
--- a/mml/base/Matrix/MatrixSym.h
+++ b/mml/base/Matrix/MatrixSym.h
@@ -819,7 +819,9 @@ namespace MML
 					for (int j = 0; j < _dim; ++j) {
 						if (j > 0)
 							stream << fmt.delimiter;
-						stream << std::setw(fmt.width) << std::setprecision(fmt.precision) << (*this)(i, j);
+						Type value = (*this)(i, j);
+						if (fmt.zeroThreshold > 0.0 && Abs(value) <= fmt.zeroThreshold) value = Type{0};
+						stream << std::setw(fmt.width) << std::setprecision(fmt.precision) << value;
 					}
 				}
 				if (fmt.showBrackets)
@@ -831,7 +833,9 @@ namespace MML
 					if (fmt.showBrackets)
 						stream << "[ ";
 					for (int j = 0; j < _dim; ++j) {
-						stream << std::setw(fmt.width) << std::setprecision(fmt.precision) << (*this)(i, j);
+						Type value = (*this)(i, j);
+						if (fmt.zeroThreshold > 0.0 && Abs(value) <= fmt.zeroThreshold) value = Type{0};
+						stream << std::setw(fmt.width) << std::setprecision(fmt.precision) << value;
 						if (j < _dim - 1)
 							stream << fmt.delimiter;
 					}
diff --git a/mml/base/Matrix/MatrixTriDiag.h b/mml/base/Matrix/MatrixTriDiag.h
index 8ad62ec..b1881ce 100644
--- a/mml/base/Matrix/MatrixTriDiag.h
+++ b/mml/base/Matrix/MatrixTriDiag.h
@@ -276,7 +276,9 @@ namespace MML
 					if (i > 0) stream << "; ";
 					for (int j = 0; j < _dim; j++) {
 						if (j > 0) stream << fmt.delimiter;
-						stream << std::setw(fmt.width) << std::setprecision(fmt.precision) << (*this)(i, j);
+						Type value = (*this)(i, j);
+						if (fmt.zeroThreshold > 0.0 && Abs(value) <= fmt.zeroThreshold) value = Type{0};
+						stream << std::setw(fmt.width) << std::setprecision(fmt.precision) << value;
 					}
 				}
 				if (fmt.showBrackets)
@@ -291,7 +293,9 @@ namespace MML
 						stream << "[ ";
 					for (int j = 0; j < _dim; j++)
 					{
-						stream << std::setw(fmt.width) << std::setprecision(fmt.precision) << (*this)(i, j);
+						Type value = (*this)(i, j);
+						if (fmt.zeroThreshold > 0.0 && Abs(value) <= fmt.zeroThreshold) value = Type{0};
+						stream << std::setw(fmt.width) << std::setprecision(fmt.precision) << value;
 						if (j < _dim - 1)
 							stream << fmt.delimiter;
 					}
-- 
2.43.0


From ca95ca0a1f2e07415cd55eabca2cc01be047b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:09 +0000
Subject: [PATCH 160/188] fix: bordered tables without a header had no top
 border

---
 mml/tools/ConsolePrinter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mml/tools/ConsolePrinter.h b/mml/tools/ConsolePrinter.h
index ff4c539..43e2306 100644
--- a/mml/tools/ConsolePrinter.h
+++ b/mml/tools/ConsolePrinter.h
@@ -633,7 +633,7 @@ namespace MML {
 			calculateAutoWidths();
 
 			// Print top border
-			if (hasBorders && m_style.showHeader()) {
+			if (hasBorders) {
 				printHorizontalLine(os, bc.topLeft, bc.horizontal, bc.topT, bc.topRight);
 			}
 
@@ -928,7 +928,7 @@ namespace MML {
 			bool hasBorders = m_style.borderStyle() != BorderStyle::None;
 
 			// Print top border
-			if (hasBorders && m_style.showHeader()) {
+			if (hasBorders) {
 				printHorizontalLine(os, bc.topLeft, bc.horizontal, bc.topT, bc.topRight);
 			}
 
-- 
2.43.0


From cf944057576802d775b639f1ce93c978c66fdd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:46 +0000
Subject: [PATCH 161/188] fix: LogSpiralCurve ignored its scale c

---
 mml/core/Curves.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/Curves.h b/mml/core/Curves.h
index 5963d20..0549eab 100644
--- a/mml/core/Curves.h
+++ b/mml/core/Curves.h
@@ -215,7 +215,7 @@ namespace MML
 			Real getMinT() const { return Constants::NegInf; }
 			Real getMaxT() const { return Constants::PosInf; }
 
-			VectorN<Real, 2> operator()(Real t) const { return MML::VectorN<Real, 2>{exp(_lambda * t)* cos(t), exp(_lambda * t)* sin(t)}; }
+			VectorN<Real, 2> operator()(Real t) const { return MML::VectorN<Real, 2>{_c * exp(_lambda * t) * cos(t), _c * exp(_lambda * t) * sin(t)}; }
 		};
 
 		/// @brief Lemniscate of Gerono curve (figure-eight curve)
-- 
2.43.0


From 7cd1e658486e736fddd249a28534d5885778199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:46 +0000
Subject: [PATCH 162/188] fix: the unit normal of a planar curve was not
 perpendicular to its tangent

---
 mml/core/Curves.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mml/core/Curves.h b/mml/core/Curves.h
index 0549eab..423d7db 100644
--- a/mml/core/Curves.h
+++ b/mml/core/Curves.h
@@ -153,7 +153,11 @@ namespace MML
 			}
 			Vec2Cart getNormalUnit(Real t)
 			{
-				return getNormal(t).GetAsUnitVector();
+				// unit normal on the side of the second derivative (towards the centre of curvature)
+				Vec2Cart tangent = getTangentUnit(t);
+				Vec2Cart second = getNormal(t);
+				Real side = (-tangent[1]) * second[0] + tangent[0] * second[1];
+				return side < 0 ? Vec2Cart{ tangent[1], -tangent[0] } : Vec2Cart{ -tangent[1], tangent[0] };
 			}
 
 			/// @brief Get scalar curvature κ(t) = |x'y'' - y'x''| / (x'² + y'²)^(3/2)
-- 
2.43.0


From 9b6c831a021361321e7e9c7fbf615dd35481d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:04 +0000
Subject: [PATCH 163/188] fix: PlaneSurface built from a u-axis direction was
 degenerate

---
 mml/core/Surfaces.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mml/core/Surfaces.h b/mml/core/Surfaces.h
index 2551055..8f55e68 100644
--- a/mml/core/Surfaces.h
+++ b/mml/core/Surfaces.h
@@ -340,7 +340,7 @@ namespace MML
 			PlaneSurface(const Vec3Cart& point, const Vec3Cart& normal, const Vec3Cart& uAxisDirection)
 			{
 				// first we have to make sure that the uAxisDirection is not parallel to the normal
-				if (normal.IsParallelTo(uAxisDirection))
+				if (normal.IsParallelTo(uAxisDirection) || normal.IsParallelTo(-uAxisDirection))
 				{
 					throw GeometryError("uAxisDirection must not be parallel to the normal.");
 				}
@@ -349,6 +349,8 @@ namespace MML
 				_normal = normal.Normalized();
 				Vec3Cart uAxis = uAxisDirection - (uAxisDirection.ScalarProduct(_normal) * _normal);
 
+				_uAxis = uAxis.Normalized();
+
 				// now we can compute the vAxis as cross product of normal and uAxis
 				_vAxis = VectorProduct(_normal, uAxis).Normalized();
 			}
-- 
2.43.0


From bc152ed91515f4f264461a646f9d4d704bcae9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:04 +0000
Subject: [PATCH 164/188] fix: PlaneSurface with normal along the negative x
 axis had undefined axes

---
 mml/core/Surfaces.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/Surfaces.h b/mml/core/Surfaces.h
index 8f55e68..41eb5f0 100644
--- a/mml/core/Surfaces.h
+++ b/mml/core/Surfaces.h
@@ -362,7 +362,7 @@ namespace MML
 				_normal = normal.Normalized();
 
 				// try to align uAxis with x axis, if normal is not parallel to x axis
-				if (!normal.IsParallelTo(Vec3Cart(1,0,0)))
+				if (!normal.IsParallelTo(Vec3Cart(1,0,0)) && !normal.IsParallelTo(Vec3Cart(-1,0,0)))
 				{
 					_uAxis = VectorProduct(normal, Vec3Cart(1,0,0)).Normalized();
 				}
-- 
2.43.0


From 9a70e84941ee75ad82ca24c1caad09ec9cd3134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:04 +0000
Subject: [PATCH 165/188] fix: KleinBottle was torn open at u = pi and u = 2 pi

---
 mml/core/Surfaces.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/mml/core/Surfaces.h b/mml/core/Surfaces.h
index 41eb5f0..b50aaf5 100644
--- a/mml/core/Surfaces.h
+++ b/mml/core/Surfaces.h
@@ -592,19 +592,18 @@ namespace MML
 				// u goes around the main loop, v goes around the tube
 				Real cosu = cos(u), sinu = sin(u);
 				Real cosv = cos(v), sinv = sin(v);
-				Real cos_half_u = cos(u / 2), sin_half_u = sin(u / 2);
-				
+								
 				// Radius varies to create the bottle shape
-				Real r = 2 - cosv;
-				
+				Real r = 4 * (1 - cosu / 2);
+
 				Real x, y, z;
 				if (u < Constants::PI) {
-					// First half: normal torus-like shape
-					x = 6 * cosu * (1 + sinu) + r * cos_half_u * cosv;
-					y = 16 * sinu + r * sin_half_u * cosv;
+					// First half: tube follows the profile curve
+					x = 6 * cosu * (1 + sinu) + r * cosu * cosv;
+					y = 16 * sinu + r * sinu * cosv;
 				} else {
-					// Second half: tube goes through itself
-					x = 6 * cosu * (1 + sinu) - r * cos_half_u * cosv;
+					// Second half: tube passes through itself
+					x = 6 * cosu * (1 + sinu) - r * cosv;
 					y = 16 * sinu;
 				}
 				z = r * sinv;
-- 
2.43.0


From bd6d3b55d56ad2f9f509345620dcca007605e1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:50 +0000
Subject: [PATCH 166/188] fix: Matrix::Print with a zero threshold did not
 compile for complex elements

---
 mml/base/Matrix/Matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/base/Matrix/Matrix.h b/mml/base/Matrix/Matrix.h
index 20190ba..75bb340 100644
--- a/mml/base/Matrix/Matrix.h
+++ b/mml/base/Matrix/Matrix.h
@@ -1221,7 +1221,8 @@ namespace MML
 				for (int j = 0; j < _cols; ++j) {
 					Type value = (*this)(i, j);
 					if constexpr (is_MML_simple_numeric<Type>) {
-						if (fmt.zeroThreshold > 0.0 && std::abs(static_cast<Real>(value)) <= fmt.zeroThreshold) value = Type{0};
+						using std::abs;
+						if (fmt.zeroThreshold > 0.0 && abs(value) <= fmt.zeroThreshold) value = Type{0};
 					}
 					stream << std::setw(fmt.width) << std::setprecision(fmt.precision) << value;
 					if (j < _cols - 1) stream << fmt.delimiter;
-- 
2.43.0


From 9c6357c080761df4426e5402238966bf880c6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:05 +0000
Subject: [PATCH 167/188] fix: IRealFunction::GetValues with a single point
 returned NaN

---
 mml/interfaces/IFunction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/interfaces/IFunction.h b/mml/interfaces/IFunction.h
index 6cb8391..1da292a 100644
--- a/mml/interfaces/IFunction.h
+++ b/mml/interfaces/IFunction.h
@@ -114,7 +114,7 @@ namespace MML
 			outY.Resize(numPnt);
 
 			for (int i = 0; i < numPnt; i++) {
-				outX[i] = x1 + i * (x2 - x1) / (numPnt - 1);
+				outX[i] = (numPnt == 1) ? x1 : x1 + i * (x2 - x1) / (numPnt - 1);
 				outY[i] = (*this)(outX[i]);
 			}
 		}
-- 
2.43.0


From edfaea65f4689ca4c530b55ba38e1132438963a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:41 +0000
Subject: [PATCH 168/188] fix: concurrent evaluation of polynomial and rational
 interpolants raced on the error estimate

---
 .../InterpolatedRealFunction.h                | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
index b2f3f7e..9eff948 100644
--- a/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
+++ b/mml/base/InterpolatedFunctions/InterpolatedRealFunction.h
@@ -27,6 +27,7 @@
 #define MML_INTERPOLATED_REAL_FUNCTION_H
 
 #include <algorithm>
+#include <atomic>
 #include <cmath>
 
 #include "MMLBase.h"
@@ -38,6 +39,22 @@
 #include "base/Matrix/Matrix.h"
 
 namespace MML {
+	/// @brief Error estimate of the most recent evaluation of an interpolating function.
+	/// Evaluation is const and may happen concurrently from several threads, so the value is atomic.
+	class LastErrorEstimate {
+		std::atomic<Real> _value;
+
+	public:
+		LastErrorEstimate(Real value = 0.0) : _value(value) {}
+		LastErrorEstimate(const LastErrorEstimate& other) : _value(static_cast<Real>(other)) {}
+		LastErrorEstimate& operator=(const LastErrorEstimate& other) { return *this = static_cast<Real>(other); }
+		LastErrorEstimate& operator=(Real value) {
+			_value.store(value, std::memory_order_relaxed);
+			return *this;
+		}
+		operator Real() const { return _value.load(std::memory_order_relaxed); }
+	};
+
 
 	/// @brief Abstract base class for interpolating real functions from tabulated data.
 	/// RealFunctionInterpolated provides the foundation for all 1D interpolation methods.
@@ -238,7 +255,7 @@ namespace MML {
 
 	class PolynomInterpRealFunc : public RealFunctionInterpolated {
 	private:
-		mutable Real _errorEst;
+		mutable LastErrorEstimate _errorEst;
 
 	public:
 		/// @brief Construct a polynomial interpolation function.
@@ -591,7 +608,7 @@ namespace MML {
 
 	class RationalInterpRealFunc : public RealFunctionInterpolated {
 	private:
-		mutable Real _errorEst;
+		mutable LastErrorEstimate _errorEst;
 		static constexpr Real TINY = 1.0e-99; ///< Small number to prevent 0/0
 
 	public:
@@ -616,7 +633,7 @@ namespace MML {
 
 		Real calcInterpValue(int startInd, Real x) const override {
 			int m, i, ns = 0;
-			Real y, w, t, hh, h, dd;
+			Real y, w, t, hh, h, dd, dy = 0.0;
 			int mm = getInterpOrder();
 			Vector<Real> c(mm), d(mm);
 
@@ -647,9 +664,10 @@ namespace MML {
 					d[i] = c[i + 1] * dd;
 					c[i] = t * dd;
 				}
-				_errorEst = (2 * (ns + 1) < (mm - m) ? c[ns + 1] : d[ns--]);
-				y += _errorEst;
+				dy = (2 * (ns + 1) < (mm - m) ? c[ns + 1] : d[ns--]);
+				y += dy;
 			}
+			_errorEst = dy;
 			return y;
 		}
 	};
-- 
2.43.0


From 5e7d9a3ff0a9f948fe18ca220de7d87d4a8b938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:41 +0000
Subject: [PATCH 169/188] fix: Defaults settings referred to one thread only
 although documented as per thread

---
 mml/MMLBase.h | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/mml/MMLBase.h b/mml/MMLBase.h
index 8902015..04c7ec4 100644
--- a/mml/MMLBase.h
+++ b/mml/MMLBase.h
@@ -239,10 +239,10 @@ namespace MML {
 	namespace Defaults {
 		// Output defaults (thread-safe - changed from static globals to thread_local)
 		// Usage: Defaults::VectorPrintWidth = 20; (now thread-safe!)
-		static inline int& VectorPrintWidth = PrintContext::Get().vectorWidth;
-		static inline int& VectorPrintPrecision = PrintContext::Get().vectorPrecision;
-		static inline int& VectorNPrintWidth = PrintContext::Get().vectorNWidth;
-		static inline int& VectorNPrintPrecision = PrintContext::Get().vectorNPrecision;
+		static inline thread_local int& VectorPrintWidth = PrintContext::Get().vectorWidth;
+		static inline thread_local int& VectorPrintPrecision = PrintContext::Get().vectorPrecision;
+		static inline thread_local int& VectorNPrintWidth = PrintContext::Get().vectorNWidth;
+		static inline thread_local int& VectorNPrintPrecision = PrintContext::Get().vectorNPrecision;
 
 		//////////               Default precisions             ///////////
 		// Use the precision values based on the Real type
@@ -297,22 +297,22 @@ namespace MML {
 		// Algorithm parameters (thread-safe - changed from static constants to
 		// thread_local) Usage: Defaults::TrapezoidIntegrationEPS = 1e-6; (now
 		// thread-safe and mutable!)
-		static inline Real& TrapezoidIntegrationEPS = AlgorithmContext::Get().trapezoidIntegrationEPS;
-		static inline Real& SimpsonIntegrationEPS = AlgorithmContext::Get().simpsonIntegrationEPS;
-		static inline Real& RombergIntegrationEPS = AlgorithmContext::Get().rombergIntegrationEPS;
-		static inline Real& WorkIntegralPrecision = AlgorithmContext::Get().workIntegralPrecision;
-		static inline Real& LineIntegralPrecision = AlgorithmContext::Get().lineIntegralPrecision;
-
-		static inline int& BisectionMaxSteps = AlgorithmContext::Get().bisectionMaxSteps;
-		static inline int& NewtonRaphsonMaxSteps = AlgorithmContext::Get().newtonRaphsonMaxSteps;
-		static inline int& BrentMaxSteps = AlgorithmContext::Get().brentMaxSteps;
-
-		static inline int& TrapezoidIntegrationMaxSteps = AlgorithmContext::Get().trapezoidIntegrationMaxSteps;
-		static inline int& SimpsonIntegrationMaxSteps = AlgorithmContext::Get().simpsonIntegrationMaxSteps;
-		static inline int& RombergIntegrationMaxSteps = AlgorithmContext::Get().rombergIntegrationMaxSteps;
-		static inline int& RombergIntegrationUsedPnts = AlgorithmContext::Get().rombergIntegrationUsedPnts;
-
-		static inline int& ODESolverMaxSteps = AlgorithmContext::Get().odeSolverMaxSteps;
+		static inline thread_local Real& TrapezoidIntegrationEPS = AlgorithmContext::Get().trapezoidIntegrationEPS;
+		static inline thread_local Real& SimpsonIntegrationEPS = AlgorithmContext::Get().simpsonIntegrationEPS;
+		static inline thread_local Real& RombergIntegrationEPS = AlgorithmContext::Get().rombergIntegrationEPS;
+		static inline thread_local Real& WorkIntegralPrecision = AlgorithmContext::Get().workIntegralPrecision;
+		static inline thread_local Real& LineIntegralPrecision = AlgorithmContext::Get().lineIntegralPrecision;
+
+		static inline thread_local int& BisectionMaxSteps = AlgorithmContext::Get().bisectionMaxSteps;
+		static inline thread_local int& NewtonRaphsonMaxSteps = AlgorithmContext::Get().newtonRaphsonMaxSteps;
+		static inline thread_local int& BrentMaxSteps = AlgorithmContext::Get().brentMaxSteps;
+
+		static inline thread_local int& TrapezoidIntegrationMaxSteps = AlgorithmContext::Get().trapezoidIntegrationMaxSteps;
+		static inline thread_local int& SimpsonIntegrationMaxSteps = AlgorithmContext::Get().simpsonIntegrationMaxSteps;
+		static inline thread_local int& RombergIntegrationMaxSteps = AlgorithmContext::Get().rombergIntegrationMaxSteps;
+		static inline thread_local int& RombergIntegrationUsedPnts = AlgorithmContext::Get().rombergIntegrationUsedPnts;
+
+		static inline thread_local int& ODESolverMaxSteps = AlgorithmContext::Get().odeSolverMaxSteps;
 	} // namespace Defaults
 } // namespace MML
 #endif
-- 
2.43.0


From fcd614176e1928d8c2a695ef5fb675e9fb2222d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:02 +0000
Subject: [PATCH 170/188] fix: BFGS, L-BFGS, CG and Powell reported convergence
 to NaN or infinite values

---
 mml/algorithms/OptimizationMultidim.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/mml/algorithms/OptimizationMultidim.h b/mml/algorithms/OptimizationMultidim.h
index fc08989..5f8561f 100644
--- a/mml/algorithms/OptimizationMultidim.h
+++ b/mml/algorithms/OptimizationMultidim.h
@@ -934,7 +934,7 @@ namespace MML::Optimization {
 				}
 
 				// Check convergence
-				if (2.0 * (fp - _fret) <= _ftol * (std::abs(fp) + std::abs(_fret)) + TINY) {
+				if (std::isfinite(_fret) && 2.0 * (fp - _fret) <= _ftol * (std::abs(fp) + std::abs(_fret)) + TINY) {
 					Vector<Real> result(N);
 					for (int j = 0; j < N; ++j)
 						result[j] = p[j];
@@ -1074,7 +1074,7 @@ namespace MML::Optimization {
 				_fret = LineMinimizer::Minimize(func, p, xi, _ftol);
 
 				// Check function convergence
-				if (2.0 * std::abs(_fret - fp) <= _ftol * (std::abs(_fret) + std::abs(fp) + EPS)) {
+				if (std::isfinite(_fret) && 2.0 * std::abs(_fret - fp) <= _ftol * (std::abs(_fret) + std::abs(fp) + EPS)) {
 					Vector<Real> result(N);
 					for (int j = 0; j < N; ++j)
 						result[j] = p[j];
@@ -1091,10 +1091,10 @@ namespace MML::Optimization {
 				Real den = std::max(std::abs(fp), REAL(1.0));
 				for (int j = 0; j < N; ++j) {
 					Real temp = std::abs(xi[j]) * std::max(std::abs(p[j]), REAL(1.0)) / den;
-					if (temp > test)
+					if (temp > test || std::isnan(temp))
 						test = temp;
 				}
-				if (test < _gtol) {
+				if (std::isfinite(_fret) && test < _gtol) {
 					Vector<Real> result(N);
 					for (int j = 0; j < N; ++j)
 						result[j] = p[j];
@@ -1113,7 +1113,7 @@ namespace MML::Optimization {
 					}
 				}
 
-				if (gg == 0.0) {
+				if (std::isfinite(_fret) && gg == 0.0) {
 					// Gradient is zero - we're done
 					Vector<Real> result(N);
 					for (int j = 0; j < N; ++j)
@@ -1241,7 +1241,7 @@ namespace MML::Optimization {
 				_fret = LineSearchWolfe(func, p, g, xi, stpmax);
 
 				// Check for convergence on function value
-				if (2.0 * std::abs(_fret - fp) <= _ftol * (std::abs(_fret) + std::abs(fp) + EPS)) {
+				if (std::isfinite(_fret) && 2.0 * std::abs(_fret - fp) <= _ftol * (std::abs(_fret) + std::abs(fp) + EPS)) {
 					Vector<Real> result(N);
 					for (int j = 0; j < N; ++j)
 						result[j] = p[j];
@@ -1262,10 +1262,10 @@ namespace MML::Optimization {
 				Real den = std::max(std::abs(_fret), REAL(1.0));
 				for (int j = 0; j < N; ++j) {
 					Real temp = std::abs(g[j]) * std::max(std::abs(p[j]), REAL(1.0)) / den;
-					if (temp > test)
+					if (temp > test || std::isnan(temp))
 						test = temp;
 				}
-				if (test < _gtol) {
+				if (std::isfinite(_fret) && test < _gtol) {
 					Vector<Real> result(N);
 					for (int j = 0; j < N; ++j)
 						result[j] = p[j];
@@ -1761,7 +1761,7 @@ namespace MML::Optimization {
 				_fret = LineSearchBacktrackLBFGS(func, x, g, p, stpmax);
 
 				// Check for convergence on function value
-				if (2.0 * std::abs(_fret - fp) <= _ftol * (std::abs(_fret) + std::abs(fp) + EPS)) {
+				if (std::isfinite(_fret) && 2.0 * std::abs(_fret - fp) <= _ftol * (std::abs(_fret) + std::abs(fp) + EPS)) {
 					return MakeResult(x, true);
 				}
 
@@ -1773,10 +1773,10 @@ namespace MML::Optimization {
 				Real den = std::max(std::abs(_fret), REAL(1.0));
 				for (int j = 0; j < N; ++j) {
 					Real temp = std::abs(g[j]) * std::max(std::abs(x[j]), REAL(1.0)) / den;
-					if (temp > test)
+					if (temp > test || std::isnan(temp))
 						test = temp;
 				}
-				if (test < _gtol) {
+				if (std::isfinite(_fret) && test < _gtol) {
 					return MakeResult(x, true);
 				}
 
-- 
2.43.0


From fbf0f5fe74234f1b3bd19b82ff147476e3d25760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:03 +0000
Subject: [PATCH 171/188] fix: IntegrateGKAdaptive did not terminate on
 integrands that are not finite on a region

---
 mml/core/Integration/GaussKronrod.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mml/core/Integration/GaussKronrod.h b/mml/core/Integration/GaussKronrod.h
index 151ed0e..a616001 100644
--- a/mml/core/Integration/GaussKronrod.h
+++ b/mml/core/Integration/GaussKronrod.h
@@ -354,10 +354,11 @@ namespace MML {
 		/// @param tol_rel Relative error tolerance (default 1e-10)
 		/// @param max_depth Maximum recursion depth (default 50)
 		/// @param rule Which Gauss-Kronrod rule to use (default GK15)
+		/// @param parent_finite False when the enclosing interval already gave a non-finite value (set by the recursion)
 		/// @return GKResult with integral and accumulated error estimate
 		template<typename Func>
 		static GKResult IntegrateGKAdaptive(Func f, Real a, Real b, Real tol_abs = 1e-10, Real tol_rel = 1e-10, int max_depth = 50,
-																				GKRule rule = GKRule::GK15) {
+																				GKRule rule = GKRule::GK15, bool parent_finite = true) {
 			// Apply basic rule first
 			GKResult local = (rule == GKRule::GK15)		? IntegrateGK15(f, a, b)
 											 : (rule == GKRule::GK21) ? IntegrateGK21(f, a, b)
@@ -366,15 +367,18 @@ namespace MML {
 			Real tolerance = std::max(tol_abs, tol_rel * std::abs(local.value));
 
 			// Check if we meet tolerance or hit max depth
-			if (local.error_estimate <= tolerance || max_depth <= 0) {
+			// A non-finite value may come from a single singular node, which bisection moves; if it persists on a
+			// subinterval the integrand is not finite there and further subdivision (2^max_depth calls) is pointless
+			bool finite = std::isfinite(local.value) && std::isfinite(local.error_estimate);
+			if (local.error_estimate <= tolerance || max_depth <= 0 || !(finite || parent_finite)) {
 				local.converged = (local.error_estimate <= tolerance);
 				return local;
 			}
 
 			// Subdivide and recurse
 			Real mid = 0.5 * (a + b);
-			GKResult left = IntegrateGKAdaptive(f, a, mid, tol_abs / 2.0, tol_rel, max_depth - 1, rule);
-			GKResult right = IntegrateGKAdaptive(f, mid, b, tol_abs / 2.0, tol_rel, max_depth - 1, rule);
+			GKResult left = IntegrateGKAdaptive(f, a, mid, tol_abs / 2.0, tol_rel, max_depth - 1, rule, finite);
+			GKResult right = IntegrateGKAdaptive(f, mid, b, tol_abs / 2.0, tol_rel, max_depth - 1, rule, finite);
 
 			return GKResult(left.value + right.value, left.error_estimate + right.error_estimate, left.function_evals + right.function_evals,
 											left.converged && right.converged);
-- 
2.43.0


From dd23c601c6a0c4819e94d483fbfd8b1bc3c99136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:25 +0000
Subject: [PATCH 172/188] fix: Gaussian quadrature and surface integrals
 reported non-finite results as converged

---
 mml/core/Integration/GaussianQuadrature.h | 12 ++++++------
 mml/core/Integration/SurfaceIntegration.h |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mml/core/Integration/GaussianQuadrature.h b/mml/core/Integration/GaussianQuadrature.h
index e56f8ae..df13c56 100644
--- a/mml/core/Integration/GaussianQuadrature.h
+++ b/mml/core/Integration/GaussianQuadrature.h
@@ -542,7 +542,7 @@ namespace MML
 	{
 		auto rule = GaussLegendreRule(n, a, b);
 		Real value = IntegrateWithRule(func, rule);
-		return IntegrationResult(value, 0.0, 1, true);
+		return IntegrationResult(value, 0.0, 1, std::isfinite(value));
 	}
 
 	/// @brief Detailed variant with AlgorithmStatus, timing, and diagnostics
@@ -577,7 +577,7 @@ namespace MML
 	{
 		auto rule = GaussLaguerreRule(n, alpha);
 		Real value = IntegrateWithRule(func, rule);
-		return IntegrationResult(value, 0.0, 1, true);
+		return IntegrationResult(value, 0.0, 1, std::isfinite(value));
 	}
 
 	/// @brief Detailed variant with AlgorithmStatus, timing, and diagnostics
@@ -610,7 +610,7 @@ namespace MML
 	{
 		auto rule = GaussHermiteRule(n);
 		Real value = IntegrateWithRule(func, rule);
-		return IntegrationResult(value, 0.0, 1, true);
+		return IntegrationResult(value, 0.0, 1, std::isfinite(value));
 	}
 
 	/// @brief Detailed variant with AlgorithmStatus, timing, and diagnostics
@@ -651,7 +651,7 @@ namespace MML
 	{
 		auto rule = GaussJacobiRule(n, alpha, beta);
 		Real value = IntegrateWithRule(func, rule);
-		return IntegrationResult(value, 0.0, 1, true);
+		return IntegrationResult(value, 0.0, 1, std::isfinite(value));
 	}
 
 	/// @brief Detailed variant with AlgorithmStatus, timing, and diagnostics
@@ -686,7 +686,7 @@ namespace MML
 	{
 		auto rule = GaussChebyshev1Rule(n);
 		Real value = IntegrateWithRule(func, rule);
-		return IntegrationResult(value, 0.0, 1, true);
+		return IntegrationResult(value, 0.0, 1, std::isfinite(value));
 	}
 
 	/// @brief Detailed variant with AlgorithmStatus, timing, and diagnostics
@@ -721,7 +721,7 @@ namespace MML
 	{
 		auto rule = GaussChebyshev2Rule(n);
 		Real value = IntegrateWithRule(func, rule);
-		return IntegrationResult(value, 0.0, 1, true);
+		return IntegrationResult(value, 0.0, 1, std::isfinite(value));
 	}
 
 	/// @brief Detailed variant with AlgorithmStatus, timing, and diagnostics
diff --git a/mml/core/Integration/SurfaceIntegration.h b/mml/core/Integration/SurfaceIntegration.h
index 787c6a1..42601c9 100644
--- a/mml/core/Integration/SurfaceIntegration.h
+++ b/mml/core/Integration/SurfaceIntegration.h
@@ -210,7 +210,7 @@ namespace MML
 			Real total = 0.0;
 			for (int i = 0; i < solid.GetSurfaceCount(); i++)
 				total += SurfaceIntegral(vectorField, solid.GetSurface(i), eps).value;
-			return IntegrationResult(total, 0.0, solid.GetSurfaceCount(), true);
+			return IntegrationResult(total, 0.0, solid.GetSurfaceCount(), std::isfinite(total));
 		}
 
 		/// @brief Flux integral over a single triangle with adaptive refinement
@@ -238,7 +238,7 @@ namespace MML
 		{
 			Real result = CalcSurfaceContrib(vectorField, triangle);
 			Real refined = SurfaceIntegralImproveRecursively(vectorField, triangle, result, eps, maxLevel);
-			return IntegrationResult(refined, 0.0, 1, true);
+			return IntegrationResult(refined, 0.0, 1, std::isfinite(refined));
 		}
 
 	private:
@@ -330,7 +330,7 @@ namespace MML
 			Real total = 0.0;
 			for (int i = 0; i < solid.GetSurfaceCount(); i++)
 				total += SurfaceIntegral(vectorField, solid.GetSurface(i), eps).value;
-			return IntegrationResult(total, 0.0, solid.GetSurfaceCount(), true);
+			return IntegrationResult(total, 0.0, solid.GetSurfaceCount(), std::isfinite(total));
 		}
 
 		/// @brief Flux integral over a single rectangular surface with adaptive refinement
@@ -347,7 +347,7 @@ namespace MML
 		{
 			Real result = CalcSurfaceContrib(vectorField, surface);
 			Real refined = SurfaceIntegralImproveRecursively(vectorField, surface, result, eps, maxLevel);
-			return IntegrationResult(refined, 0.0, 1, true);
+			return IntegrationResult(refined, 0.0, 1, std::isfinite(refined));
 		}
 
 	private:
-- 
2.43.0


From 185cb2a790d0ec2a58391a79f0ab6a42828de1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:44 +0000
Subject: [PATCH 173/188] fix: golden section and Brent minimisation reported
 convergence to NaN or infinite values

---
 mml/algorithms/Optimization.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mml/algorithms/Optimization.h b/mml/algorithms/Optimization.h
index 2566538..98b64a2 100644
--- a/mml/algorithms/Optimization.h
+++ b/mml/algorithms/Optimization.h
@@ -427,7 +427,11 @@ namespace MML {
 				result.fmin = f2;
 			}
 
-			result.converged = true;
+			result.converged = std::isfinite(result.fmin);
+			if (!result.converged) {
+				result.status = AlgorithmStatus::NumericalInstability;
+				result.error_message = "GoldenSectionSearch: function value at the minimum is not finite";
+			}
 			return result;
 		}
 
@@ -544,7 +548,11 @@ namespace MML {
 				if (std::abs(x - xm) <= (tol2 - 0.5 * (b - a))) {
 					result.xmin = x;
 					result.fmin = fx;
-					result.converged = true;
+					result.converged = std::isfinite(result.fmin);
+					if (!result.converged) {
+						result.status = AlgorithmStatus::NumericalInstability;
+						result.error_message = "BrentMinimize: function value at the minimum is not finite";
+					}
 					return result;
 				}
 
-- 
2.43.0


From f6e43943454365e99d5a8502e216d2c23c005fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:58 +0000
Subject: [PATCH 174/188] fix: root finders reported convergence to a point
 where the function is NaN

---
 .../RootFinding/RootFindingBracketing.h        |  6 +++++-
 .../RootFinding/RootFindingMethods.h           | 18 +++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/mml/algorithms/RootFinding/RootFindingBracketing.h b/mml/algorithms/RootFinding/RootFindingBracketing.h
index d4571d4..27667cb 100644
--- a/mml/algorithms/RootFinding/RootFindingBracketing.h
+++ b/mml/algorithms/RootFinding/RootFindingBracketing.h
@@ -318,7 +318,11 @@ namespace MML {
 					result.root = rtb;
 					result.function_value = func(rtb);
 					result.iterations_used = j + 1;
-					result.converged = true;
+					result.converged = IsFunctionValueValid(result.function_value);
+					if (!result.converged) {
+						result.status = AlgorithmStatus::NumericalInstability;
+						result.error_message = "Non-finite function value at the root in FindRootBisection";
+					}
 					result.achieved_tolerance = std::abs(dx);
 					return result;
 				}
diff --git a/mml/algorithms/RootFinding/RootFindingMethods.h b/mml/algorithms/RootFinding/RootFindingMethods.h
index f22bc9c..099337b 100644
--- a/mml/algorithms/RootFinding/RootFindingMethods.h
+++ b/mml/algorithms/RootFinding/RootFindingMethods.h
@@ -224,7 +224,11 @@ namespace MML {
 					result.root = rtn;
 					result.function_value = func(rtn);
 					result.iterations_used = j + 1;
-					result.converged = true;
+					result.converged = IsFunctionValueValid(result.function_value);
+					if (!result.converged) {
+						result.status = AlgorithmStatus::NumericalInstability;
+						result.error_message = "Non-finite function value at the root in FindRootNewton";
+					}
 					result.achieved_tolerance = std::abs(dx);
 					return result;
 				}
@@ -513,7 +517,11 @@ namespace MML {
 					result.root = ans;
 					result.function_value = func(ans);
 					result.iterations_used = j + 1;
-					result.converged = true;
+					result.converged = IsFunctionValueValid(result.function_value);
+					if (!result.converged) {
+						result.status = AlgorithmStatus::NumericalInstability;
+						result.error_message = "Non-finite function value at the root in FindRootRidders";
+					}
 					result.achieved_tolerance = std::abs(x2 - x1);
 					return result;
 				}
@@ -528,7 +536,11 @@ namespace MML {
 					result.root = ans;
 					result.function_value = func(ans);
 					result.iterations_used = j + 1;
-					result.converged = true;
+					result.converged = IsFunctionValueValid(result.function_value);
+					if (!result.converged) {
+						result.status = AlgorithmStatus::NumericalInstability;
+						result.error_message = "Non-finite function value at the root in FindRootRidders";
+					}
 					result.achieved_tolerance = std::abs(xnew - ans);
 					return result;
 				}
-- 
2.43.0


From 8e55fe352c43d529b5339bc430b2938d485418b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:48 +0000
Subject: [PATCH 175/188] fix: IntegrateOpen spent over 10^8 evaluations on an
 integrand that is NaN

---
 mml/core/Integration/IntegrationImproper.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mml/core/Integration/IntegrationImproper.h b/mml/core/Integration/IntegrationImproper.h
index fafc748..9a5ae9e 100644
--- a/mml/core/Integration/IntegrationImproper.h
+++ b/mml/core/Integration/IntegrationImproper.h
@@ -147,6 +147,8 @@ namespace MML
 		for (int j = 0; j < JMAX; j++)
 		{
 			s[j] = mid.next();
+			if (!std::isfinite(s[j]))  // the sum cannot recover: do not go on to 3^JMAX evaluations
+				return IntegrationResult(s[j], std::numeric_limits<Real>::infinity(), j + 1, false);
 			
 			if (j >= K - 1)
 			{
-- 
2.43.0


From 457a646f8e60d2e77ca22ab2cf62bfdf9e314420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:48 +0000
Subject: [PATCH 176/188] fix: IntegrateGKAdaptive reported an infinite
 integral as converged

---
 mml/core/Integration/GaussKronrod.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mml/core/Integration/GaussKronrod.h b/mml/core/Integration/GaussKronrod.h
index a616001..0683e67 100644
--- a/mml/core/Integration/GaussKronrod.h
+++ b/mml/core/Integration/GaussKronrod.h
@@ -370,8 +370,9 @@ namespace MML {
 			// A non-finite value may come from a single singular node, which bisection moves; if it persists on a
 			// subinterval the integrand is not finite there and further subdivision (2^max_depth calls) is pointless
 			bool finite = std::isfinite(local.value) && std::isfinite(local.error_estimate);
-			if (local.error_estimate <= tolerance || max_depth <= 0 || !(finite || parent_finite)) {
-				local.converged = (local.error_estimate <= tolerance);
+			bool within = finite && local.error_estimate <= tolerance;
+			if (within || max_depth <= 0 || !(finite || parent_finite)) {
+				local.converged = within;
 				return local;
 			}
 
-- 
2.43.0


From 4a00aaa1bb74cb6d07bca733686678f4f8a54136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:01 +0000
Subject: [PATCH 177/188] fix: IntegrateGKAdaptive reported a sum that
 overflowed as converged

---
 mml/core/Integration/GaussKronrod.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/core/Integration/GaussKronrod.h b/mml/core/Integration/GaussKronrod.h
index 0683e67..f590333 100644
--- a/mml/core/Integration/GaussKronrod.h
+++ b/mml/core/Integration/GaussKronrod.h
@@ -382,7 +382,7 @@ namespace MML {
 			GKResult right = IntegrateGKAdaptive(f, mid, b, tol_abs / 2.0, tol_rel, max_depth - 1, rule, finite);
 
 			return GKResult(left.value + right.value, left.error_estimate + right.error_estimate, left.function_evals + right.function_evals,
-											left.converged && right.converged);
+											left.converged && right.converged && std::isfinite(left.value + right.value));
 		}
 
 		/*************************************************************************/
-- 
2.43.0


From 38247deab659c29d59b59b551845863b71a64225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:18 +0000
Subject: [PATCH 178/188] fix: adaptive Runge-Kutta steppers accepted steps
 whose error estimate or new state was not finite

---
 mml/algorithms/ODESolvers/ODESteppers.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/mml/algorithms/ODESolvers/ODESteppers.h b/mml/algorithms/ODESolvers/ODESteppers.h
index 8812f66..02668f3 100644
--- a/mml/algorithms/ODESolvers/ODESteppers.h
+++ b/mml/algorithms/ODESolvers/ODESteppers.h
@@ -19,6 +19,16 @@
 
 namespace MML {
 
+	namespace ODEStepperDetail {
+		/// @brief Largest error ratio seen so far; infinite (step rejected) when the error or the new state is not finite.
+		///        (std::max would silently ignore a NaN.)
+		inline Real WorstErrorRatio(Real errMax, Real ratio, Real newState) {
+			if (std::isnan(ratio) || !std::isfinite(newState))
+				return std::numeric_limits<Real>::infinity();
+			return std::max(errMax, ratio);
+		}
+	}
+
 	//===================================================================================
 	//                              StepResult
 	//===================================================================================
@@ -228,7 +238,7 @@ namespace MML {
 				for (int i = 0; i < _n; i++) {
 					Real err = h * (e1 * _k1[i] + e3 * _k3[i] + e4 * _k4[i] + e5 * _k5[i] + e6 * _k6[i] + e7 * _k7[i]);
 					Real scale = std::abs(x[i]) + std::abs(h * _k1[i]) + Precision::DivisionSafetyThreshold; // Avoid division by zero
-					errMax = std::max(errMax, std::abs(err) / scale);
+					errMax = ODEStepperDetail::WorstErrorRatio(errMax, std::abs(err) / scale, xNew[i]);
 				}
 				errMax /= eps;
 				result.errMax = errMax;
@@ -264,7 +274,7 @@ namespace MML {
 				h *= factor;
 				_haveFSAL = false;
 
-				if (std::abs(h) < Constants::Eps) {
+				if (!(std::abs(h) >= Constants::Eps)) {
 					throw ODESolverError("Step size underflow in DormandPrince5_Stepper");
 				}
 			}
@@ -435,7 +445,7 @@ namespace MML {
 				for (int i = 0; i < _n; i++) {
 					Real err = h * (dc1 * _k1[i] + dc3 * _k3[i] + dc4 * _k4[i] + dc5 * _k5[i] + dc6 * _k6[i]);
 					Real scale = std::abs(x[i]) + std::abs(h * dxdt[i]) + Precision::DivisionSafetyThreshold;
-					errMax = std::max(errMax, std::abs(err) / scale);
+					errMax = ODEStepperDetail::WorstErrorRatio(errMax, std::abs(err) / scale, _xNew[i]);
 				}
 				errMax /= eps;
 				result.errMax = errMax;
@@ -469,7 +479,7 @@ namespace MML {
 				Real htemp = SAFETY * h * std::pow(errMax, PSHRINK);
 				h = (h >= 0) ? std::max<Real>(htemp, Real(0.1) * h) : std::min<Real>(htemp, Real(0.1) * h);
 
-				if (std::abs(h) < Constants::Eps)
+				if (!(std::abs(h) >= Constants::Eps))
 					throw ODESolverError("Step size underflow in CashKarp_Stepper");
 			}
 
@@ -677,7 +687,7 @@ namespace MML {
 						err += (b8[j] - b7[j]) * _k[j][i];
 					err *= h;
 					Real scale = std::abs(x[i]) + std::abs(h * _k[0][i]) + Precision::DivisionSafetyThreshold;
-					errMax = std::max(errMax, std::abs(err) / scale);
+					errMax = ODEStepperDetail::WorstErrorRatio(errMax, std::abs(err) / scale, _xNew[i]);
 				}
 				errMax /= eps;
 				result.errMax = errMax;
@@ -714,7 +724,7 @@ namespace MML {
 				h *= factor;
 				_haveFSAL = false;
 
-				if (std::abs(h) < Constants::Eps)
+				if (!(std::abs(h) >= Constants::Eps))
 					throw ODESolverError("Step size underflow in DormandPrince8_Stepper");
 			}
 
-- 
2.43.0


From d3bcded7379755158375cc0792a57c847e44d042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:46 +0000
Subject: [PATCH 179/188] fix: eigenvalue solvers reported convergence to NaN
 or infinite eigenvalues

---
 mml/algorithms/EigenSystemSolvers.h | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/mml/algorithms/EigenSystemSolvers.h b/mml/algorithms/EigenSystemSolvers.h
index 7186564..65e3880 100644
--- a/mml/algorithms/EigenSystemSolvers.h
+++ b/mml/algorithms/EigenSystemSolvers.h
@@ -104,6 +104,18 @@ namespace MML {
 	 ***************************************************************************************************/
 	class SymmMatEigenSolverJacobi {
 	public:
+		/// @brief True if all eigenvalues and eigenvectors are finite (there is nothing to call converged otherwise)
+		static bool AllFinite(const Vector<Real>& values, const Matrix<Real>& vectors) {
+			for (int i = 0; i < values.size(); i++)
+				if (!std::isfinite(values[i]))
+					return false;
+			for (int i = 0; i < vectors.rows(); i++)
+				for (int j = 0; j < vectors.cols(); j++)
+					if (!std::isfinite(vectors(i, j)))
+						return false;
+			return true;
+		}
+
 		/// Result structure for Jacobi eigenvalue decomposition.
 		///
 		/// Contains eigenvalues, eigenvectors, and diagnostic information.
@@ -192,7 +204,7 @@ namespace MML {
 			// Set convergence info
 			result.iterations = sweep;
 			result.residual = offDiagNorm;
-			result.converged = (offDiagNorm <= tol);
+			result.converged = (offDiagNorm <= tol) && AllFinite(result.eigenvalues, result.eigenvectors);
 
 			return result;
 		}
@@ -399,7 +411,7 @@ namespace MML {
 			if (n == 1) {
 				result.eigenvalues[0] = A(0, 0);
 				result.eigenvectors(0, 0) = 1.0;
-				result.converged = true;
+				result.converged = std::isfinite(A(0, 0));
 				return result;
 			}
 
@@ -442,6 +454,9 @@ namespace MML {
 			// Step 7: Sort eigenvalues and eigenvectors in ascending order
 			SortEigenpairs(result.eigenvalues, result.eigenvectors, n);
 
+			if (!SymmMatEigenSolverJacobi::AllFinite(result.eigenvalues, result.eigenvectors))
+				result.converged = false;
+
 			return result;
 		}
 
@@ -888,7 +903,7 @@ namespace MML {
 				result.eigenvalues.push_back(ComplexEigenvalue(A(0, 0), 0.0));
 				result.eigenvectors(0, 0) = 1.0;
 				result.isComplexPair.push_back(false);
-				result.converged = true;
+				result.converged = std::isfinite(A(0, 0));
 				return result;
 			}
 
@@ -946,7 +961,12 @@ namespace MML {
 			// Step 5: Compute residuals and check convergence
 			result.iterations = totalIter;
 			result.maxResidual = 0.0;
-			result.converged = (iHi <= 0);
+			Vector<Real> parts(2 * n);
+			for (int i = 0; i < n; i++) {
+				parts[2 * i] = result.eigenvalues[i].real;
+				parts[2 * i + 1] = result.eigenvalues[i].imag;
+			}
+			result.converged = (iHi <= 0) && SymmMatEigenSolverJacobi::AllFinite(parts, result.eigenvectors);
 
 			// Verify eigenvector quality
 			for (int i = 0; i < n; i++) {
-- 
2.43.0


From 67a68516de599f469f2df67d12a94f9485d2327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:23 +0000
Subject: [PATCH 180/188] fix: Tetrahedron::Volume uses the edges of the faces
 in the Cayley-Menger determinant

---
 mml/base/Geometry/GeometryCore/Geometry3DShapes.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mml/base/Geometry/GeometryCore/Geometry3DShapes.h b/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
index 5f31b49..fda68a4 100644
--- a/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
+++ b/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
@@ -241,7 +241,8 @@ namespace MML {
 			Real term1 = a2 * f2 * (b2 + c2 + d2 + e2 - a2 - f2);
 			Real term2 = b2 * e2 * (a2 + c2 + d2 + f2 - b2 - e2);
 			Real term3 = c2 * d2 * (a2 + b2 + e2 + f2 - c2 - d2);
-			Real term4 = -a2 * b2 * f2 - a2 * c2 * e2 - b2 * c2 * d2;
+			// one product of squared edges per face: ABC, ABD, ACD and (term5) BCD
+			Real term4 = -a2 * b2 * d2 - a2 * c2 * e2 - b2 * c2 * f2;
 			Real term5 = -d2 * e2 * f2;
 
 			Real det = term1 + term2 + term3 + term4 + term5;
-- 
2.43.0


From 7c1eb7be11465afdf22f3d637cfac993845e63cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:23 +0000
Subject: [PATCH 181/188] fix: Spheroid::SurfaceArea does not treat small
 spheroids as spheres

---
 mml/base/Geometry/GeometryCore/Geometry3DShapes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/base/Geometry/GeometryCore/Geometry3DShapes.h b/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
index fda68a4..85a638f 100644
--- a/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
+++ b/mml/base/Geometry/GeometryCore/Geometry3DShapes.h
@@ -314,7 +314,7 @@ namespace MML {
 
 		// Surface area (exact formula involves elliptic integrals, using approximation)
 		Real SurfaceArea() const {
-			if (IsSphere())
+			if (Eccentricity() == 0)
 				return 4.0 * Constants::PI * _equatorial * _equatorial;
 
 			Real a = _equatorial, c = _polar;
-- 
2.43.0


From 3403c0e7891d69d8953b9d4c73feaeaae50cf6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:59 +0000
Subject: [PATCH 182/188] fix: bounding box and sphere of a body with boundary
 functions enclose the body

---
 .../Geometry3DBodiesCore/Geometry3DBodyBase.h | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DBodyBase.h b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DBodyBase.h
index acd67f7..8ce48cf 100644
--- a/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DBodyBase.h
+++ b/mml/base/Geometry/Geometry3DBodiesCore/Geometry3DBodyBase.h
@@ -152,22 +152,29 @@ namespace MML {
 		}
 
 		virtual Box3D GetBoundingBox() const override {
-			// For general case, we need to find min/max across the entire domain
-			// This is an approximation - assumes boundaries are monotonic
-			Real minY = std::min(_y1(_x1), _y1(_x2));
-			Real maxY = std::max(_y2(_x1), _y2(_x2));
-
-			Real midX = (_x1 + _x2) / 2.0;
-			Real midY = (_y1(midX) + _y2(midX)) / 2.0;
-			Real minZ = std::min(_z1(_x1, midY), std::min(_z1(_x2, midY), _z1(midX, minY)));
-			Real maxZ = std::max(_z2(_x1, midY), std::max(_z2(_x2, midY), _z2(midX, maxY)));
+			// For general boundaries the extremes are searched on a grid over the whole domain,
+			// so the box can miss features narrower than one grid cell
+			const int n = 64;
+			Real minY = std::numeric_limits<Real>::max(), maxY = std::numeric_limits<Real>::lowest();
+			Real minZ = minY, maxZ = maxY;
+			for (int i = 0; i <= n; i++) {
+				Real x = i == n ? _x2 : _x1 + (_x2 - _x1) * i / n;
+				Real yLo = _y1(x), yHi = _y2(x);
+				minY = std::min(minY, yLo);
+				maxY = std::max(maxY, yHi);
+				for (int j = 0; j <= n; j++) {
+					Real y = j == n ? yHi : yLo + (yHi - yLo) * j / n;
+					minZ = std::min(minZ, _z1(x, y));
+					maxZ = std::max(maxZ, _z2(x, y));
+				}
+			}
 
 			return Box3D(Pnt3Cart(_x1, minY, minZ), Pnt3Cart(_x2, maxY, maxZ));
 		}
 
 		virtual BoundingSphere3D GetBoundingSphere() const override {
-			Pnt3Cart center = GetCenter();
 			Box3D box = GetBoundingBox();
+			Pnt3Cart center((box.Min().X() + box.Max().X()) / 2.0, (box.Min().Y() + box.Max().Y()) / 2.0, (box.Min().Z() + box.Max().Z()) / 2.0);
 
 			// Use half the diagonal of bounding box as radius
 			Real dx = box.Max().X() - box.Min().X();
-- 
2.43.0


From 7a5e6f15003aa9e0b2bbfcda157a945032c3e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:30 +0000
Subject: [PATCH 183/188] fix: TridiagonalMatrix of dimension one from a list
 does not read past the list

---
 mml/base/Matrix/MatrixTriDiag.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mml/base/Matrix/MatrixTriDiag.h b/mml/base/Matrix/MatrixTriDiag.h
index b1881ce..ea03f9a 100644
--- a/mml/base/Matrix/MatrixTriDiag.h
+++ b/mml/base/Matrix/MatrixTriDiag.h
@@ -54,6 +54,11 @@ namespace MML
 			auto val = values.begin();
 			_belowDiag[0] = 0.0;
 			_diag[0] = *val++;
+			if (dim == 1)
+			{
+				_aboveDiag[0] = 0.0;
+				return;
+			}
 			_aboveDiag[0] = *val++;
 			for (int i = 1; i < dim - 1; ++i)
 			{
-- 
2.43.0


From ee2bd0de0aed7522dd6406fed1d4d9a3079d2853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:30 +0000
Subject: [PATCH 184/188] fix: DAESolution grows until the written index fits

---
 mml/base/DAESystem.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mml/base/DAESystem.h b/mml/base/DAESystem.h
index 8d1c53d..6705bb9 100644
--- a/mml/base/DAESystem.h
+++ b/mml/base/DAESystem.h
@@ -237,7 +237,7 @@ namespace MML
 			if (y.size() != _algDim)
 				throw ArgumentError("Algebraic vector size mismatch in DAESolution::fillValues");
 
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 
 			_tval[ind] = t;
@@ -255,7 +255,7 @@ namespace MML
 		{
 			if (ind < 0)
 				throw IndexError("Index must be non-negative in DAESolution::setTVal");
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 			_tval[ind] = t;
 			if (ind + 1 > _count) _count = ind + 1;
@@ -271,7 +271,7 @@ namespace MML
 				throw IndexError("Index must be non-negative in DAESolution::setXVal");
 			if (component < 0 || component >= _diffDim)
 				throw IndexError("Component index out of range in DAESolution::setXVal");
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 			_xval[component][ind] = val;
 		}
@@ -286,7 +286,7 @@ namespace MML
 				throw IndexError("Index must be non-negative in DAESolution::setYVal");
 			if (component < 0 || component >= _algDim)
 				throw IndexError("Component index out of range in DAESolution::setYVal");
-			if (ind >= _totalSavedSteps)
+			while (ind >= _totalSavedSteps)
 				ExtendSavedSteps();
 			_yval[component][ind] = val;
 		}
-- 
2.43.0


From 661db59bce0fcb17bcacac25aac6299e9deec343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:55 +0000
Subject: [PATCH 185/188] fix: fixed-point and Lyapunov results start from
 defined values

---
 mml/systems/DynamicalSystemTypes.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mml/systems/DynamicalSystemTypes.h b/mml/systems/DynamicalSystemTypes.h
index 48e02b2..74063a8 100644
--- a/mml/systems/DynamicalSystemTypes.h
+++ b/mml/systems/DynamicalSystemTypes.h
@@ -76,22 +76,22 @@ namespace MML::Systems
 		Vector<Type> location;											 ///< Position in state space
 		std::vector<std::complex<Type>> eigenvalues; ///< Jacobian eigenvalues
 		Matrix<Type> jacobian;											 ///< Jacobian at fixed point
-		FixedPointType type;												 ///< Stability classification
-		bool isStable;															 ///< Overall stability
-		Type convergenceResidual;										 ///< ||f(x*)|| at convergence
-		int iterations;															 ///< Newton iterations used
+		FixedPointType type = FixedPointType::Unknown; ///< Stability classification
+		bool isStable = false;											 ///< Overall stability
+		Type convergenceResidual = Type(0);					 ///< ||f(x*)|| at convergence
+		int iterations = 0;													 ///< Newton iterations used
 	};
 
 	/// @brief Result of Lyapunov exponent computation
 	template<typename Type = Real>
 	struct LyapunovResult {
 		Vector<Type> exponents;			///< Lyapunov exponents (λ₁ ≥ λ₂ ≥ ... ≥ λₙ)
-		Type maxExponent;						///< Largest exponent (λ₁)
-		Type sum;										///< Sum of all exponents
-		Type kaplanYorkeDimension;	///< Kaplan-Yorke dimension
-		bool isChaotic;							///< True if λ₁ > 0
-		int numOrthonormalizations; ///< Number of QR steps performed
-		Type totalTime;							///< Total integration time
+		Type maxExponent = Type(0);	///< Largest exponent (λ₁)
+		Type sum = Type(0);					///< Sum of all exponents
+		Type kaplanYorkeDimension = Type(0); ///< Kaplan-Yorke dimension
+		bool isChaotic = false;			///< True if λ₁ > 0
+		int numOrthonormalizations = 0; ///< Number of QR steps performed
+		Type totalTime = Type(0);		///< Total integration time
 	};
 
 	/// @brief Result of bifurcation sweep
-- 
2.43.0


From ef90c3996a8104f3e918ca137a67b8da51e331e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:55 +0000
Subject: [PATCH 186/188] fix: a fixed-point search that ends in NaN is not a
 success

---
 mml/systems/DynamicalSystemAnalyzers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index e1f3698..220e24b 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -728,7 +728,7 @@ namespace MML::Systems
 				result.fixed_point = FixedPointFinder::Find(sys, initialGuess, tol, maxIter);
 				result.function_evaluations = result.fixed_point.iterations;
 
-				if (result.fixed_point.convergenceResidual >= tol) {
+				if (!(result.fixed_point.convergenceResidual < tol)) {
 					result.status = AlgorithmStatus::MaxIterationsExceeded;
 					result.error_message = "Newton iteration did not converge (residual="
 						+ std::to_string(result.fixed_point.convergenceResidual) + ")";
-- 
2.43.0


From 31b32e37889c4de4842a39cfe6d8962b696a6d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:18 +0000
Subject: [PATCH 187/188] fix: classify a fixed point reached by the last
 Newton step

---
 mml/systems/DynamicalSystemAnalyzers.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mml/systems/DynamicalSystemAnalyzers.h b/mml/systems/DynamicalSystemAnalyzers.h
index 220e24b..ba03740 100644
--- a/mml/systems/DynamicalSystemAnalyzers.h
+++ b/mml/systems/DynamicalSystemAnalyzers.h
@@ -92,6 +92,11 @@ namespace MML::Systems
 			result.convergenceResidual = f.NormL2();
 			result.iterations = maxIter;
 			result.type = FixedPointType::Unknown;
+			if (result.convergenceResidual < tol) {
+				// The last Newton step reached the fixed point - classify it like any other
+				sys.jacobian(0.0, x, result.jacobian);
+				ClassifyFixedPoint(result);
+			}
 			return result;
 		}
 
-- 
2.43.0


From 9c6cd818c013e6062b037e80c05247acffb97fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:47 +0000
Subject: [PATCH 188/188] fix: intervals that share only an excluded bound do
 not intersect

---
 mml/base/Intervals.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mml/base/Intervals.h b/mml/base/Intervals.h
index 9a7785f..4d6dae2 100644
--- a/mml/base/Intervals.h
+++ b/mml/base/Intervals.h
@@ -756,7 +756,12 @@ namespace MML {
 			// Check if any of our intervals intersect with 'other'
 			for (const auto& interval : _intervals) {
 				// Two intervals intersect if one contains a point from the other
-				if (interval->getLowerBound() <= other.getUpperBound() && interval->getUpperBound() >= other.getLowerBound())
+				Real lower = std::max(interval->getLowerBound(), other.getLowerBound());
+				Real upper = std::min(interval->getUpperBound(), other.getUpperBound());
+				if (lower < upper)
+					return true;
+				// A single common bound is a common point only if both include it
+				if (lower == upper && interval->contains(lower) && other.contains(lower))
 					return true;
 			}
 			return false;
-- 
2.43.0

