// C01 (second part): mixed real/complex arithmetic, comparison helpers, list constructors, iterators and checked access
#include "common.h"
#include "base/Vector/Vector.h"
#include "base/Vector/VectorN.h"
#include "base/Matrix/Matrix.h"
#include "base/Matrix/MatrixNM.h"
#include "base/BaseUtils.h"
#include "base/BaseUtils/MixedTypeOps.h"
#include "base/BaseUtils/ComparisonUtils.h"
typedef std::complex<double> CD;
static CD gc(Src& s) { return CD((double)s.i(-9, 9), (double)s.i(-9, 9)); }
template<class F> static Matrix<Complex> cm(int r, int c, F f) { Matrix<Complex> m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = f(i, j); return m; }
#define SAMEV(got, want, what) do { auto g_ = (got); CHECK(g_.size() == (int)(want).size(), what << ": size " << g_.size()); for (int i_ = 0; i_ < (int)g_.size(); i_++) CHECK(g_[i_] == (want)[i_], what << " element " << i_); } while (0)
#define SAMEM(got, R, C, f, what) do { auto g_ = (got); CHECK(g_.rows() == (R) && g_.cols() == (C), what << ": shape"); for (int i = 0; i < (R); i++) for (int j = 0; j < (C); j++) { CD w_ = (f); CHECK(g_(i, j) == w_, what << " at " << i << "," << j << ": " << g_(i, j) << " instead of " << w_); } } while (0)
LAW(mixed_ops, 4000, 40000) { // small integers: every sum and product is exact
	int n = (int)s.i(1, 5), m = (int)s.i(1, 5), k = (int)s.i(1, 5), dn = s.chance(1, 6) ? 1 : 0; c.say([&](auto& o) { o << n << "x" << m << " times " << m << "x" << k << (dn ? " mismatched" : ""); });
	Vector<Real> r(n), rm(m); Vector<Complex> z(n), zm(m); for (int i = 0; i < n; i++) { r[i] = (double)s.i(-9, 9); z[i] = gc(s); } for (int i = 0; i < m; i++) { rm[i] = (double)s.i(-9, 9); zm[i] = gc(s); } CD q = gc(s);
	Matrix<Real> A(n, m), B(m, k), A2(n, m); for (auto& x : A) x = (double)s.i(-9, 9); for (auto& x : A2) x = (double)s.i(-9, 9); for (auto& x : B) x = (double)s.i(-9, 9); Matrix<Complex> Z = cm(n, m, [&](int, int) { return gc(s); }), Y = cm(m, k, [&](int, int) { return gc(s); });
	std::vector<CD> w(n); for (int i = 0; i < n; i++) w[i] = z[i] + r[i]; SAMEV(Utils::AddVec(z, r), w, "AddVec(complex, real)"); SAMEV(Utils::AddVec(r, z), w, "AddVec(real, complex)"); for (int i = 0; i < n; i++) w[i] = z[i] - r[i]; SAMEV(Utils::SubVec(z, r), w, "SubVec(complex, real)"); for (int i = 0; i < n; i++) w[i] = r[i] - z[i]; SAMEV(Utils::SubVec(r, z), w, "SubVec(real, complex)"); for (int i = 0; i < n; i++) w[i] = q * r[i]; SAMEV(Utils::MulVec(q, r), w, "MulVec(complex, vector)"); SAMEV(Utils::MulVec(r, q), w, "MulVec(vector, complex)");
	SAMEM(Utils::AddMat(Z, A), n, m, Z(i, j) + A(i, j), "AddMat(complex, real)"); SAMEM(Utils::AddMat(A, Z), n, m, Z(i, j) + A(i, j), "AddMat(real, complex)"); SAMEM(Utils::SubMat(Z, A), n, m, Z(i, j) - A(i, j), "SubMat(complex, real)"); SAMEM(Utils::SubMat(A, Z), n, m, A(i, j) - Z(i, j), "SubMat(real, complex)"); SAMEM(Utils::MulMat(q, A), n, m, q * A(i, j), "MulMat(complex, matrix)"); SAMEM(Utils::MulMat(A, q), n, m, q * A(i, j), "MulMat(matrix, complex)");
	auto sum = [&](int N, auto f) { CD t = 0; for (int x = 0; x < N; x++) t += f(x); return t; };
	SAMEM(Utils::MulMat(Z, B), n, k, sum(m, [&](int x) { return Z(i, x) * B(x, j); }), "MulMat(complex, real)"); SAMEM(Utils::MulMat(A, Y), n, k, sum(m, [&](int x) { return A(i, x) * Y(x, j); }), "MulMat(real, complex)");
	for (int i = 0; i < n; i++) w[i] = sum(m, [&](int x) { return A(i, x) * zm[x]; }); SAMEV(Utils::MulMatVec(A, zm), w, "MulMatVec(real, complex)"); for (int i = 0; i < n; i++) w[i] = sum(m, [&](int x) { return Z(i, x) * rm[x]; }); SAMEV(Utils::MulMatVec(Z, rm), w, "MulMatVec(complex, real)");
	std::vector<CD> u(m); for (int j = 0; j < m; j++) u[j] = sum(n, [&](int x) { return z[x] * A(x, j); }); SAMEV(Utils::MulVecMat(z, A), u, "MulVecMat(complex, real)"); for (int j = 0; j < m; j++) u[j] = sum(n, [&](int x) { return r[x] * Z(x, j); }); SAMEV(Utils::MulVecMat(r, Z), u, "MulVecMat(real, complex)");
	if (dn) { Vector<Real> r1(n + 1); Vector<Complex> z1(n + 1), zk(m + 1); Vector<Real> rk(m + 1); Matrix<Real> A1(n + 1, m), A3(n, m + 1); Matrix<Complex> Z1(n + 1, m), Z3(n, m + 1);
		CHECK_THROWS(Utils::AddVec(z, r1), VectorDimensionError, "sizes"); CHECK_THROWS(Utils::AddVec(r1, z), VectorDimensionError, "sizes"); CHECK_THROWS(Utils::SubVec(z, r1), VectorDimensionError, "sizes"); CHECK_THROWS(Utils::SubVec(r1, z), VectorDimensionError, "sizes"); CHECK_THROWS(Utils::AddMat(Z, A1), MatrixDimensionError, "shapes"); CHECK_THROWS(Utils::AddMat(A3, Z), MatrixDimensionError, "shapes"); CHECK_THROWS(Utils::SubMat(Z, A3), MatrixDimensionError, "shapes"); CHECK_THROWS(Utils::SubMat(A1, Z), MatrixDimensionError, "shapes"); CHECK_THROWS(Utils::MulMat(Z3, B), MatrixDimensionError, "shapes"); CHECK_THROWS(Utils::MulMat(A3, Y), MatrixDimensionError, "shapes"); CHECK_THROWS(Utils::MulMatVec(A, zk), MatrixDimensionError, "shapes"); CHECK_THROWS(Utils::MulMatVec(Z, rk), MatrixDimensionError, "shapes"); CHECK_THROWS(Utils::MulVecMat(z1, A), MatrixDimensionError, "shapes"); CHECK_THROWS(Utils::MulVecMat(r1, Z), MatrixDimensionError, "shapes"); }
	if (n != m || m != k) c.nontrivial();
}
LAW(comparisons, 4000, 40000) {
	double eps = std::pow(10, -(double)s.i(1, 12)); int n = (int)s.i(1, 5); Vector<Complex> a(n), b(n); bool cart = true, abs = true; bool near = false; for (int i = 0; i < n; i++) { a[i] = gc(s); double f = s.pick({0., 0.1, 0.6, 0.9, 1.5, 3.}), g = s.pick({0., 0., 0.1, 0.6, 0.9, 1.5}); CD d(f * eps * s.pick({1., -1.}), g * eps * s.pick({1., -1.})); b[i] = a[i] + d; d = b[i] - a[i]; if (std::fabs(std::fabs(d.real()) - eps) < 1e-3 * eps || std::fabs(std::fabs(d.imag()) - eps) < 1e-3 * eps || std::fabs(std::abs(d) - eps) < 1e-3 * eps) near = true; if (std::fabs(d.real()) > eps || std::fabs(d.imag()) > eps) cart = false; if (std::abs(d) > eps) abs = false; }
	DISCARD_IF(near); c.say([&](auto& o) { o << "eps " << fmt(eps) << " n " << n; }); CHECK(Utils::AreEqual(a, b, eps) == cart && Utils::AreEqual(b, a, eps) == cart, "AreEqual of complex vectors"); CHECK(Utils::AreEqualAbs(a, b, eps) == abs && Utils::AreEqualAbs(b, a, eps) == abs, "AreEqualAbs of complex vectors");
	for (int i = 0; i < n; i++) { CD d = b[i] - a[i]; CHECK(Utils::AreEqual(a[i], b[i], eps) == (std::fabs(d.real()) <= eps && std::fabs(d.imag()) <= eps), "AreEqual of complex numbers"); CHECK(Utils::AreEqualAbs(a[i], b[i], eps) == (std::abs(d) <= eps), "AreEqualAbs of complex numbers"); }
	Vector<Complex> l(n + 1); CHECK(!Utils::AreEqual(a, l, eps) && !Utils::AreEqualAbs(l, a, eps), "vectors of different sizes"); Vector<Real> x(n), y(n); for (int i = 0; i < n; i++) { x[i] = a[i].real(); y[i] = b[i].real(); } bool e = true; for (int i = 0; i < n; i++) if (std::fabs(x[i] - y[i]) > eps) e = false; CHECK(Utils::AreEqual(x, y, eps) == e, "AreEqual of real vectors"); c.nontrivial();
}
LAW(lists_and_iterators, 3000, 30000) {
	double v[9]; for (auto& x : v) x = s.uni(-1e6, 1e6); c.say([&](auto& o) { o << "first " << fmt(v[0]); }); int k = (int)s.i(0, 4);
	VectorN<Real, 4> f(v[0]); for (int i = 0; i < 4; i++) CHECK(f[i] == v[0] && f.at(i) == v[0], "filled"); std::vector<Real> sv(v, v + k); VectorN<Real, 4> g(sv); for (int i = 0; i < 4; i++) CHECK(g[i] == (i < k ? v[i] : 0), "from a shorter list"); VectorN<Real, 4> h(v); for (int i = 0; i < 4; i++) CHECK(h[i] == v[i], "from an array"); CHECK_THROWS((VectorN<Real, 4>(std::vector<Real>(v, v + 5))), VectorDimensionError, "too long a list"); CHECK_THROWS((VectorN<Real, 2>{v[0], v[1], v[2]}), VectorDimensionError, "too long a list");
	{ const auto& ch = h; int i = 0; for (Real x : ch) CHECK(x == v[i++], "iteration"); CHECK(i == 4 && ch.end() - ch.begin() == 4 && ch.cend() - ch.cbegin() == 4 && ch.data()[2] == v[2], "range"); for (auto& x : h) x = -x; for (i = 0; i < 4; i++) CHECK(h[i] == -v[i], "assignment through the iterator"); h.data()[1] = v[8]; CHECK(ch[1] == v[8] && ch.at(1) == v[8], "data"); CHECK_THROWS(ch.at(4), VectorDimensionError, "out of range"); CHECK_THROWS(h.at(-1), VectorDimensionError, "out of range"); }
	MatrixNM<Real, 2, 3> m1{v[0], v[1], v[2], v[3], v[4]}; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) CHECK(m1(i, j) == (i * 3 + j < 5 ? v[i * 3 + j] : 0), "matrix from a short list"); MatrixNM<Real, 2, 3> m2{{v[0], v[1]}, {v[2], v[3], v[4]}}; CHECK(m2(0, 0) == v[0] && m2(0, 1) == v[1] && m2(0, 2) == 0 && m2(1, 0) == v[2] && m2(1, 1) == v[3] && m2(1, 2) == v[4], "matrix from rows of different lengths"); MatrixNM<Real, 3, 2> m3{{v[0], v[1]}}; CHECK(m3(0, 0) == v[0] && m3(0, 1) == v[1] && m3(1, 0) == 0 && m3(2, 1) == 0, "matrix from fewer rows"); { const auto& cm3 = m3; CHECK(cm3.at(0, 1) == v[1], "at"); CHECK_THROWS(cm3.at(3, 0), MatrixAccessBoundsError, "out of range"); CHECK_THROWS(cm3.at(0, 2), MatrixAccessBoundsError, "out of range"); }
	int r = (int)s.i(1, 3); Matrix<Real> M(r, 2, std::initializer_list<Real>{v[0], v[1], v[2], v[3], v[4], v[5]}, false); for (int i = 0; i < r; i++) for (int j = 0; j < 2; j++) CHECK(M(i, j) == v[i * 2 + j], "matrix from a list"); CHECK_THROWS(Matrix<Real>(2, 2, std::initializer_list<Real>{v[0], v[1], v[2]}), MatrixDimensionError, "short list in strict mode"); { Matrix<Real> P(2, 2, std::initializer_list<Real>{v[0], v[1], v[2]}, false); CHECK(P(0, 0) == v[0] && P(0, 1) == v[1] && P(1, 0) == v[2] && P(1, 1) == 0, "short list"); }
	const auto& C = M; { int i = 0; for (Real x : C) CHECK(x == v[i++], "iteration"); CHECK(i == 2 * r && C.cend() - C.cbegin() == 2 * r, "range"); for (int a = 0; a < r; a++) { int j = 0; for (Real x : C.row(a)) CHECK(x == v[a * 2 + j++], "row iteration"); CHECK(j == 2, "row length"); } for (int j = 0; j < 2; j++) { int a = 0; for (Real x : M.col(j)) CHECK(x == v[(a++) * 2 + j], "column iteration"); CHECK(a == r, "column length"); } for (auto& x : M.row(r - 1)) x = v[7]; CHECK(C(r - 1, 0) == v[7] && C.at(r - 1, 1) == v[7], "assignment through a row"); for (auto& x : M.col(1)) x = v[8]; for (int a = 0; a < r; a++) CHECK(C(a, 1) == v[8] && C(a, 0) == (a == r - 1 ? v[7] : v[a * 2]), "assignment through a column"); CHECK_THROWS(C.row(r), MatrixAccessBoundsError, "row"); CHECK_THROWS(M.row(-1), MatrixAccessBoundsError, "row"); CHECK_THROWS(M.col(2), MatrixAccessBoundsError, "column"); CHECK_THROWS(C.at(0, 2), MatrixAccessBoundsError, "at"); CHECK_THROWS(M.at(r, 0), MatrixAccessBoundsError, "at"); }
	{ auto bl = C.block(0, 1, r, 1); for (int i = 0; i < r; i++) CHECK(bl(i, 0) == v[8], "view of a column"); auto b2 = M.block(r - 1, 0, 1, 2); b2(0, 0) = v[6]; CHECK(C(r - 1, 0) == v[6], "write through a view"); }
	Vector<Real> w(std::vector<Real>(v, v + 9)); const auto& cw = w; CHECK(cw.front() == v[0] && cw.back() == v[8] && cw.at(3) == v[3] && !cw.empty() && cw.cend() - cw.cbegin() == 9, "vector access"); w.front() = v[1]; w.back() = v[2]; CHECK(cw[0] == v[1] && cw[8] == v[2], "assignment to the ends"); CHECK_THROWS(cw.at(9), VectorDimensionError, "out of range"); CHECK_THROWS(w.at(-1), VectorDimensionError, "out of range"); c.nontrivial();
}
