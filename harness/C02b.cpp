// C02 (second part): tridiagonal and symmetric matrices from lists
#include "common.h"
#include "base/Vector/Vector.h"
#include "base/Matrix/Matrix.h"
#include "base/Matrix/MatrixTriDiag.h"
#include "base/Matrix/MatrixSym.h"
LAW(from_lists, 1500, 15000) {
	double v[12]; for (auto& x : v) x = (double)s.i(-9, 9); int n = (int)s.i(1, 4); c.say([&](auto& o) { o << "dimension " << n; });
	TridiagonalMatrix<Real> t = n == 1 ? TridiagonalMatrix<Real>(1, {v[0]}) : n == 2 ? TridiagonalMatrix<Real>(2, {v[0], v[1], v[2], v[3]}) : n == 3 ? TridiagonalMatrix<Real>(3, {v[0], v[1], v[2], v[3], v[4], v[5], v[6]}) : TridiagonalMatrix<Real>(4, {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]});
	int k = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double w = std::abs(i - j) <= 1 ? v[k++] : 0; const auto& ct = t; CHECK(ct(i, j) == w, "row-wise list: element " << i << "," << j << " is " << fmt(ct(i, j)) << " instead of " << fmt(w)); } CHECK_THROWS(TridiagonalMatrix<Real>(3, {v[0], v[1], v[2]}), MatrixDimensionError, "short list");
	MatrixSym<Real> y = n == 1 ? MatrixSym<Real>(1, {v[0]}) : n == 2 ? MatrixSym<Real>(2, {v[0], v[1], v[2]}) : n == 3 ? MatrixSym<Real>(3, {v[0], v[1], v[2], v[3], v[4], v[5]}) : MatrixSym<Real>(4, {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]});
	k = 0; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { CHECK(y(i, j) == v[k] && y(j, i) == v[k] && y.at(i, j) == v[k], "symmetric list: element " << i << "," << j); k++; } CHECK_THROWS(MatrixSym<Real>(3, {v[0], v[1]}), MatrixDimensionError, "short list"); CHECK_THROWS(y.at(n, 0), MatrixAccessBoundsError, "at"); CHECK(!y.empty() && MatrixSym<Real>(0, {}).empty(), "empty");
	MatrixSym<Real> mv; mv = std::move(y); CHECK(mv.rows() == n && mv(0, 0) == v[0], "move assignment"); { MatrixSym<Complex> z(n); double f = 0; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { Complex q((double)s.i(-5, 5), (double)s.i(-5, 5)); z(i, j) = q; f += (i == j ? 1 : 2) * std::norm(q); } CHECK_NEAR(z.NormFrobenius(), std::sqrt(f), 1e-13 * std::sqrt(f), "Frobenius norm of a complex symmetric matrix"); } c.nontrivial();
}
