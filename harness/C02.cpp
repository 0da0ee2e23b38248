// C02 structured matrices versus the dense matrix they stand for
#include "common.h"
#include "base/Matrix/MatrixSym.h"
#include "base/Matrix/MatrixTriDiag.h"
#include "base/Matrix/MatrixBandDiag.h"
#include "base/Matrix/Matrix3D.h"

static void sameT(const Matrix<Real>& m, const Tab& t, const char* what) { CHECK(m.rows() == (int)t.size() && (t.empty() || m.cols() == (int)t[0].size()), what << " shape"); for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) CHECK(m(i, j) == t[i][j], what << ": element (" << i << "," << j << ") is " << m(i, j) << " expected " << t[i][j]); }
template<class M> void sameS(const M& m, const Tab& t, const char* what) { int n = t.size(); CHECK(m.rows() == n && m.cols() == n, what << " dim " << m.rows()); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK(m(i, j) == t[i][j], what << ": element (" << i << "," << j << ") is " << m(i, j) << " expected " << t[i][j]); }
static std::vector<double> mv(const Tab& t, const std::vector<double>& v) { std::vector<double> r(t.size(), 0.0); for (size_t i = 0; i < t.size(); i++) for (size_t j = 0; j < v.size(); j++) r[i] += t[i][j] * v[j]; return r; }
static void sameV(const Vector<Real>& v, const std::vector<double>& r, const char* what) { CHECK(v.size() == (int)r.size(), what << " size"); for (int i = 0; i < v.size(); i++) CHECK(v[i] == r[i], what << ": element " << i << " is " << v[i] << " expected " << r[i]); }
static Tab comb(const Tab& a, const Tab& b, double x, double y) { return mkTab((int)a.size(), a.empty() ? 0 : (int)a[0].size(), [&](int i, int j) { return x * a[i][j] + y * b[i][j]; }); }
static Tab genSym(Src& s, int n, int k = 9) { Tab t = genInt(s, n, n, k); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) t[i][j] = t[j][i]; return t; }
static MatrixSym<Real> mkSym(const Tab& t) { MatrixSym<Real> m((int)t.size()); for (int i = 0; i < (int)t.size(); i++) for (int j = i; j < (int)t.size(); j++) m(i, j) = t[i][j]; return m; }

LAW(sym_algebra, 3000, 30000) {
	int n = s.size(1, 9), p = s.size(1, 5); Tab a = genSym(s, n), b = genSym(s, n), d = genInt(s, n, p); double k = (double)s.i(-4, 4); std::vector<double> v = genIntV(s, n); c.nontrivial(n > 1 && a != b); c.say([&](auto& o) { o << "A=" << str(a) << " B=" << str(b) << " D=" << str(d) << " k=" << k << " v=" << str(v); });
	MatrixSym<Real> A = mkSym(a), B = mkSym(b); Tab z = comb(a, a, 0, 0);
	sameS(A, a, "written"); sameT(A.GetAsMatrix(), a, "GetAsMatrix"); sameS(A + B, comb(a, b, 1, 1), "A+B"); sameS(A - B, comb(a, b, 1, -1), "A-B"); sameS(-A, comb(a, b, -1, 0), "-A"); sameS(A * k, comb(a, z, k, 0), "A*k"); sameS(k * A, comb(a, z, k, 0), "k*A"); sameS((A * 4.0) / 2.0, comb(a, z, 2, 0), "A/k");
	sameT(A * B, mulT(a, b), "A*B"); sameT(A * toMat(d), mulT(a, d), "A*D"); sameV(A * toVec(v), mv(a, v), "A*v"); sameV(toVec(v) * A, mv(a, v), "v*A"); sameS(A, a, "operand unchanged");
	{ MatrixSym<Real> q(A); q += B; sameS(q, comb(a, b, 1, 1), "+="); q -= A; sameS(q, b, "-="); q *= k; sameS(q, comb(b, z, k, 0), "*="); q = A; q += q; q /= 2.0; sameS(q, a, "/="); q = A; double f = q(n - 1, 0); q *= q(n - 1, 0); sameS(q, comb(a, z, f, 0), "*= own element"); q = std::move(q); MatrixSym<Real> w(std::move(B)); sameS(w, b, "move"); CHECK(B.Dim() == 0, "moved-from"); B = w; sameS(B, b, "copy assign"); }
	{ Tab lo = genInt(s, n, n); Matrix<Real> M = toMat(lo); Tab l2 = lo, u2 = lo, f2 = lo; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { l2[i][j] = j <= i ? lo[i][j] : lo[j][i]; u2[i][j] = j >= i ? lo[i][j] : lo[j][i]; f2[i][j] = (lo[i][j] + lo[j][i]) / 2; } sameS(MatrixSym<Real>::FromLower(M), l2, "FromLower"); sameS(MatrixSym<Real>::FromUpper(M), u2, "FromUpper"); sameS(MatrixSym<Real>::FromFullMatrix(M), f2, "FromFullMatrix"); Matrix<Real> R(n, n + 1); CHECK_THROWS(MatrixSym<Real>::FromLower(R), MatrixDimensionError, ""); CHECK_THROWS(MatrixSym<Real>::FromUpper(R), MatrixDimensionError, ""); CHECK_THROWS(MatrixSym<Real>::FromFullMatrix(R), MatrixDimensionError, ""); }
	int i = (int)s.i(0, n - 1), j = (int)s.i(0, n - 1); sameV(A.VectorFromRow(i), a[i], "row"); sameV(A.VectorFromColumn(j), a[j], "column"); std::vector<double> dg; double tr = 0; LD fr = 0; double inf = 0; for (int x = 0; x < n; x++) { dg.push_back(a[x][x]); tr += a[x][x]; double q = 0; for (int y = 0; y < n; y++) { fr += (LD)a[x][y] * a[x][y]; q += std::fabs(a[x][y]); } inf = std::max(inf, q); } sameV(A.VectorFromDiagonal(), dg, "diagonal"); sameS(MatrixSym<Real>::GetDiagonalMatrix(toVec(dg)), mkTab(n, n, [&](int x, int y) { return x == y ? dg[x] : 0.0; }), "diagonal matrix"); sameS(MatrixSym<Real>::Identity(n), mkTab(n, n, [&](int x, int y) { return (double)(x == y); }), "identity");
	CHECK(A.Trace() == tr && A.NormInf() == inf && A.Norm1() == inf, "trace/norm: " << A.Trace() << " " << A.NormInf()); CHECK_NEAR(A.NormFrobenius(), std::sqrt(fr), 1e-13 * std::sqrt(fr), "Frobenius");
	CHECK(A.at(i, j) == a[i][j], "at"); CHECK_THROWS(A.at(n, j), MatrixAccessBoundsError, ""); CHECK_THROWS(A.at(i, -1), MatrixAccessBoundsError, ""); CHECK_THROWS(A.at(i, n), MatrixAccessBoundsError, ""); CHECK_THROWS(A.VectorFromRow(n), MatrixAccessBoundsError, ""); CHECK_THROWS(A.VectorFromColumn(-1), MatrixAccessBoundsError, "");
	MatrixSym<Real> X(n + 1); CHECK_THROWS(A + X, MatrixDimensionError, ""); CHECK_THROWS(A - X, MatrixDimensionError, ""); CHECK_THROWS(A += X, MatrixDimensionError, ""); CHECK_THROWS(A -= X, MatrixDimensionError, ""); CHECK_THROWS(A * X, MatrixDimensionError, ""); CHECK_THROWS(A * Matrix<Real>(n + 1, 2), MatrixDimensionError, ""); CHECK_THROWS(A * Vector<Real>(n + 1), MMLException, ""); CHECK_THROWS(Vector<Real>(n + 1) * A, MMLException, ""); sameS(A, a, "after rejected"); CHECK(!A.IsEqualTo(X), "dim mismatch equality");
	MatrixSym<Real> E(A); CHECK(E.IsEqualTo(A), "equal"); E(i, j) += 1; CHECK(!E.IsEqualTo(A) && !MatrixSym<Real>::AreEqual(A, E), "one differing element"); CHECK(E(j, i) == a[i][j] + 1, "mirror write");
	double kd = condInf(a); if (kd < 1e8) { Matrix<Real> I = A.GetInverse(); Tab pr = mulT(a, toTab(I)); for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) CHECK_NEAR(pr[x][y], (double)(x == y), 64 * n * n * EPS * kd + 1e-14, "inverse"); }
}
LAW(sym_history, 2500, 25000) {
	int n = s.size(1, 6); Tab t = genSym(s, n); MatrixSym<Real> A = mkSym(t); int steps = s.size(1, 12), rs = 0; c.say([&](auto& o) { o << str(t); });
	for (int st = 0; st < steps; st++) { n = t.size(); int op = (int)s.choice(7), i = n ? (int)s.i(0, n - 1) : 0, j = n ? (int)s.i(0, n - 1) : 0; double x = (double)s.i(-3, 3); c.say([&](auto& o) { o << "op" << op << "(" << i << "," << j << "," << x << ")"; });
		switch (op) { case 0: if (n) { A(i, j) = x; t[i][j] = t[j][i] = x; } break; case 1: if (n) { A.at(i, j) += x; t[i][j] += x; if (i != j) t[j][i] = t[i][j]; } break;
		case 2: case 3: { int m = s.size(1, 8); bool keep = op == 3; A.Resize(m, keep); rs++; if (m != n) { Tab q(m, std::vector<double>(m, 0.0)); if (keep) for (int a = 0; a < std::min(n, m); a++) for (int b = 0; b < std::min(n, m); b++) q[a][b] = t[a][b]; t = q; } break; }
		case 4: A.SetToValue(x); for (auto& r : t) for (auto& y : r) y = x; break; case 5: A.SetToZero(); for (auto& r : t) for (auto& y : r) y = 0; break; case 6: { MatrixSym<Real> q(A); A = q; break; } case 7: A += A; for (auto& r : t) for (auto& y : r) y += y; break; }
		for (auto& r : t) for (auto& y : r) if (std::fabs(y) > 1e6) { A.SetToZero(); for (auto& r2 : t) for (auto& y2 : r2) y2 = 0; }
		sameS(A, t, "after step"); CHECK(A.size() == t.size() * (t.size() + 1) / 2, "packed size"); }
	c.nontrivial(rs > 0 && steps > 3);
}
LAW(tridiag, 4000, 40000) {
	int n = s.size(3, 12); auto gen = [&] { Tab t(n, std::vector<double>(n, 0.0)); for (int i = 0; i < n; i++) for (int j = std::max(0, i - 1); j <= std::min(n - 1, i + 1); j++) t[i][j] = (double)s.i(-9, 9); return t; };
	auto mk = [&](const Tab& t) { Vector<Real> lo(n), di(n), up(n); for (int i = 0; i < n; i++) { di[i] = t[i][i]; if (i) lo[i] = t[i][i - 1]; if (i < n - 1) up[i] = t[i][i + 1]; } lo[0] = (double)s.i(-2, 2); up[n - 1] = (double)s.i(-2, 2); return TridiagonalMatrix<Real>(n, lo, di, up); };
	Tab a = gen(), b = gen(), z = comb(a, a, 0, 0); double k = (double)s.i(-4, 4); c.nontrivial(a != b && n > 3); c.say([&](auto& o) { o << str(a) << " B=" << str(b) << " k=" << k; }); TridiagonalMatrix<Real> A = mk(a), B = mk(b); const TridiagonalMatrix<Real>& cA = A;
	sameS(cA, a, "elements"); sameS((const TridiagonalMatrix<Real>&)(A + B), comb(a, b, 1, 1), "A+B"); sameS((const TridiagonalMatrix<Real>&)(A - B), comb(a, b, 1, -1), "A-B"); sameS((const TridiagonalMatrix<Real>&)(A * k), comb(a, z, k, 0), "A*k"); sameS((const TridiagonalMatrix<Real>&)(k * A), comb(a, z, k, 0), "k*A"); sameS((const TridiagonalMatrix<Real>&)((A * 4.0) / 2.0), comb(a, z, 2, 0), "A/k"); sameS((const TridiagonalMatrix<Real>&)A.GetTranspose(), trT(a), "transpose"); sameS(cA, a, "unchanged");
	int i = (int)s.i(0, n - 1), j = (int)s.i(0, n - 1); if (std::abs(i - j) <= 1) { double x = (double)s.i(-20, 20); TridiagonalMatrix<Real> C(A); C(i, j) = x; Tab t = a; t[i][j] = x; sameS((const TridiagonalMatrix<Real>&)C, t, "write"); CHECK(C.IsEqualTo(A) == (x == a[i][j]), "IsEqualTo after write"); } else { CHECK_THROWS(A(i, j) = 1.0, MatrixAccessBoundsError, "write outside the band"); sameS(cA, a, "after rejected write"); }
	TridiagonalMatrix<Real> A2 = mk(a); CHECK(A.IsEqualTo(A2), "equal matrices"); CHECK_THROWS((TridiagonalMatrix<Real>(n, Vector<Real>(n - 1), Vector<Real>(n), Vector<Real>(n))), MatrixDimensionError, ""); CHECK_THROWS((TridiagonalMatrix<Real>(n + 1, Vector<Real>(n), Vector<Real>(n), Vector<Real>(n))), MatrixDimensionError, ""); Vector<Real> w(n + 1); TridiagonalMatrix<Real> C(n + 1, w, w, w); CHECK_THROWS(A + C, MatrixDimensionError, ""); CHECK_THROWS(A - C, MatrixDimensionError, ""); CHECK(!A.IsEqualTo(C), "");
}
LAW(tridiag_solve, 2500, 25000) {
	int n = s.size(3, 25); Tab t(n, std::vector<double>(n, 0.0)); bool cols = s.b(); double sc = s.chance(1, 3) ? s.pwide(-3, 8) : 1;
	for (int i = 0; i < n; i++) { if (i) t[i][i - 1] = s.chance(1, 5) ? 0 : s.real(-5, 5); if (i < n - 1) t[i][i + 1] = s.chance(1, 5) ? 0 : s.real(-5, 5); }
	for (int i = 0; i < n; i++) { double q = 0; for (int j = 0; j < n; j++) if (j != i) q += std::fabs(cols ? t[j][i] : t[i][j]); t[i][i] = (q + s.uni(0.2, 3)) * (s.b() ? 1 : -1); }
	for (auto& r : t) for (auto& x : r) x *= sc; std::vector<double> x(n); for (auto& q : x) q = s.real(-10, 10); std::vector<LD> bl(n, 0); Vector<Real> b(n); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) bl[i] += (LD)t[i][j] * x[j]; b[i] = (double)bl[i]; }
	Vector<Real> lo(n), di(n), up(n); for (int i = 0; i < n; i++) { di[i] = t[i][i]; if (i) lo[i] = t[i][i - 1]; if (i < n - 1) up[i] = t[i][i + 1]; } lo[0] = s.real(-1, 1); up[n - 1] = s.real(-1, 1);
	c.nontrivial(n > 4); c.say([&](auto& o) { o << "lo=" << lo << " di=" << di << " up=" << up << " b=" << b; }); TridiagonalMatrix<Real> A(n, lo, di, up); Vector<Real> y = A.Solve(b); double kd = condInf(t), mx = maxAbs(x); CHECK(y.size() == n, "size");
	for (int i = 0; i < n; i++) CHECK_NEAR(y[i], x[i], 40.0 * n * EPS * kd * (mx + 1e-3), "solution " << i << " cond " << kd); Vector<Real> z(n); A.Solve(b, z); for (int i = 0; i < n; i++) CHECK(z[i] == y[i], "both Solve overloads"); Vector<Real> w(b); A.Solve(w, w); for (int i = 0; i < n; i++) CHECK(w[i] == y[i], "in-place solve"); Vector<Real> e; A.Solve(b, e); CHECK(e.size() == n, "solution vector is sized"); CHECK_THROWS(A.Solve(Vector<Real>(n - 1)), MMLException, "short right-hand side"); CHECK_THROWS(A.Solve(Vector<Real>(n + 1)), MMLException, "");
	lo[1] = up[0] = di[0] = 0; TridiagonalMatrix<Real> S(n, lo, di, up); CHECK_THROWS(S.Solve(b), SingularMatrixError, "zero first row");
}
LAW(band, 4000, 40000) {
	int n = s.size(1, 10), m1 = s.size(0, std::max(0, n - 1)), m2 = s.size(0, std::max(0, n - 1)); int w = m1 + m2 + 1; bool junk = s.b();
	auto gen = [&](Tab& t) { Matrix<Real> d(n, w); t = Tab(n, std::vector<double>(n, 0.0)); for (int i = 0; i < n; i++) for (int q = 0; q < w; q++) { int j = i + q - m1; double x = (double)s.i(-9, 9); if (j >= 0 && j < n) { d(i, q) = x; t[i][j] = x; } else if (junk) d(i, q) = x; } return BandDiagonalMatrix(n, m1, m2, d); };
	Tab a, b; BandDiagonalMatrix A = gen(a), B = gen(b); Tab z = comb(a, a, 0, 0); double k = (double)s.i(-4, 4); std::vector<double> v = genIntV(s, n); c.nontrivial(m1 != m2 && n > 2); c.label(m1 == m2 ? "m1==m2" : (m1 > m2 ? "m1>m2" : "m1<m2")); c.say([&](auto& o) { o << "n" << n << " m1=" << m1 << " m2=" << m2 << " A=" << str(a) << " B=" << str(b) << " k=" << k << " v=" << str(v) << " junk=" << junk; }); const BandDiagonalMatrix& cA = A;
	auto S = [&](const BandDiagonalMatrix& m, const Tab& t, const char* what) { sameS(m, t, what); }; S(A, a, "elements"); sameT(A.ToFullMatrix(), a, "ToFullMatrix"); S(A + B, comb(a, b, 1, 1), "A+B"); S(A - B, comb(a, b, 1, -1), "A-B"); S(-A, comb(a, b, -1, 0), "-A"); S(A * k, comb(a, z, k, 0), "A*k"); S(k * A, comb(a, z, k, 0), "k*A"); S((A * 4.0) / 2.0, comb(a, z, 2, 0), "A/k"); { BandDiagonalMatrix q(A); q += B; S(q, comb(a, b, 1, 1), "+="); q -= A; S(q, b, "-="); q *= k; S(q, comb(b, z, k, 0), "*="); q = A; q /= 2; q *= 2; S(q, a, "/="); }
	BandDiagonalMatrix T = A.Transpose(); S(T, trT(a), "transpose"); CHECK(T.GetLowerBandwidth() == m2 && T.GetUpperBandwidth() == m1, "transposed bandwidths"); sameV(A * toVec(v), mv(a, v), "A*v"); CHECK_THROWS(A * Vector<Real>(n + 1), MMLException, ""); 
	double tr = 0, inf = 0; LD fr = 0; std::vector<double> dg; bool sym = true; for (int i = 0; i < n; i++) { tr += a[i][i]; dg.push_back(a[i][i]); double q = 0; for (int j = 0; j < n; j++) { q += std::fabs(a[i][j]); fr += (LD)a[i][j] * a[i][j]; sym &= a[i][j] == a[j][i]; } inf = std::max(inf, q); } CHECK(A.Trace() == tr && A.NormInf() == inf, "trace / inf norm " << A.NormInf()); CHECK_NEAR(A.NormFrobenius(), std::sqrt(fr), 1e-13 * std::sqrt(fr), "Frobenius"); sameV(A.GetDiagonal(), dg, "diagonal"); if (m1 == m2) CHECK(A.IsSymmetric() == sym, "IsSymmetric"); CHECK(A.GetDimension() == n && A.GetLowerBandwidth() == m1 && A.GetUpperBandwidth() == m2, "shape");
	for (int d = -m2; d <= m1; d++) { std::vector<double> q; for (int i = 0; i < n; i++) if (i - d >= 0 && i - d < n) q.push_back(a[i][i - d]); if (std::abs(d) < n) sameV(A.GetDiagonal(d), q, "k-th diagonal"); } CHECK_THROWS(A.GetDiagonal(m1 + 1), IndexError, ""); CHECK_THROWS(A.GetDiagonal(-m2 - 1), IndexError, "");
	int i = (int)s.i(0, n - 1), j = (int)s.i(0, n - 1); bool in = i - j <= m1 && j - i <= m2; CHECK(A.IsInBand(i, j) == in, "IsInBand"); if (in) { BandDiagonalMatrix C(A); C(i, j) += 2; Tab t = a; t[i][j] += 2; S(C, t, "write"); CHECK(!C.IsEqualTo(A), "IsEqualTo"); } else { CHECK_THROWS(A(i, j) = 3, MatrixAccessBoundsError, "write outside band"); S(cA, a, "after rejected write"); }
	CHECK(A.IsEqualTo(A), "self equality"); CHECK_THROWS((BandDiagonalMatrix(n, m1, m2, Matrix<Real>(n, w + 1))), MatrixDimensionError, ""); CHECK_THROWS((BandDiagonalMatrix(n, m1, m2, Matrix<Real>(n + 1, w))), MatrixDimensionError, ""); BandDiagonalMatrix D(n, m1 + 1, m2, Matrix<Real>(n, w + 1)); CHECK_THROWS(A + D, MatrixDimensionError, ""); CHECK_THROWS(A - D, MatrixDimensionError, ""); CHECK_THROWS(A += D, MatrixDimensionError, ""); CHECK_THROWS(A -= D, MatrixDimensionError, ""); CHECK_THROWS(A / 0.0, MMLException, ""); CHECK_THROWS(A /= 0.0, MMLException, ""); S(A, a, "after rejected");
}
template<class T> void m3(Src& s, Case& c) {
	int a = s.size(1, 5), b = s.size(1, 5), d = s.size(1, 5); auto gv = [&] { return (T)s.i(-9, 9); }; std::vector<T> r((size_t)a * b * d), r2(r.size()); Matrix3D<T> A(a, b, d), B(a, b, d, T(0)); size_t q = 0; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < d; k++, q++) { CHECK(A(i, j, k) == T(0), "zero initialised"); r[q] = gv(); r2[q] = gv(); if (s.b()) A(i, j, k) = r[q]; else A[i][j][k] = r[q]; B.At(i, j, k) = r2[q]; }
	c.nontrivial(a != b && b != d && a > 1); c.say([&](auto& o) { o << a << "x" << b << "x" << d; for (auto& x : r) o << " " << x; });
	auto S = [&](const Matrix3D<T>& M, int x, int y, int z, const std::vector<T>& v, const char* what) { CHECK(M.dim1() == x && M.dim2() == y && M.dim3() == z && M.size() == x * y * z, what << " dims"); size_t q2 = 0; for (int i = 0; i < x; i++) for (int j = 0; j < y; j++) for (int k = 0; k < z; k++, q2++) { CHECK(M(i, j, k) == v[q2] && M[i][j][k] == v[q2] && M.At(i, j, k) == v[q2] && M.data()[q2] == v[q2], what << ": element (" << i << "," << j << "," << k << ") is " << M(i, j, k) << " expected " << v[q2]); } };
	auto mp = [&](auto f) { std::vector<T> o(r.size()); for (size_t k = 0; k < r.size(); k++) o[k] = f(r[k], r2[k]); return o; };
	S(A, a, b, d, r, "written"); T k = gv(); S(A + B, a, b, d, mp([](T x, T y) { return x + y; }), "A+B"); S(A - B, a, b, d, mp([](T x, T y) { return x - y; }), "A-B"); S(A * k, a, b, d, mp([&](T x, T) { return x * k; }), "A*k"); S(A + k, a, b, d, mp([&](T x, T) { return x + k; }), "A+k"); S((A * T(4)) / T(2), a, b, d, mp([](T x, T) { return x * T(2); }), "A/k");
	{ Matrix3D<T> C(A); S(C, a, b, d, r, "copy"); C(0, 0, 0) += T(1); CHECK(A(0, 0, 0) == r[0], "copies share storage"); CHECK(!(C == A) && C != A, "=="); C = A; CHECK(C == A, "assign"); C *= C(a - 1, b - 1, d - 1); S(C, a, b, d, mp([&](T x, T) { return x * r.back(); }), "*= own element"); C = A; C += C(0, 0, 0); S(C, a, b, d, mp([&](T x, T) { return x + r[0]; }), "+= own element"); Matrix3D<T> D(std::move(C)); CHECK(C.dim1() == 0 && C.isEmpty(), "moved-from"); C = std::move(D); C.Fill(k); S(C, a, b, d, mp([&](T, T) { return k; }), "Fill"); C.Apply([&](T x) { return x + T(1); }); S(C, a, b, d, mp([&](T, T) { return k + T(1); }), "Apply"); int a2 = s.size(1, 4), b2 = s.size(1, 4), d2 = s.size(1, 4); Matrix3D<T> E(A); E.Resize(a2, b2, d2); if (a2 != a || b2 != b || d2 != d) S(E, a2, b2, d2, std::vector<T>(a2 * b2 * d2, T(0)), "Resize"); E.Resize(a2, b2, d2, k); S(E, a2, b2, d2, std::vector<T>(a2 * b2 * d2, k), "Resize with value"); E = A; S(E, a, b, d, r, "assign after resize"); E.Resize(0, 1, 1); CHECK(E.isEmpty(), "Resize to zero"); }
	CHECK_THROWS(A.At(a, 0, 0), IndexError, ""); CHECK_THROWS(A.At(0, b, 0), IndexError, ""); CHECK_THROWS(A.At(0, 0, d), IndexError, ""); CHECK_THROWS(A.At(-1, 0, 0), IndexError, ""); CHECK_THROWS(A.At(0, -1, 0), IndexError, ""); CHECK_THROWS(A.At(0, 0, d), IndexError, ""); CHECK_THROWS((Matrix3D<T>(a, 0, d)), ArgumentError, ""); CHECK_THROWS((Matrix3D<T>(-a, b, d, k)), ArgumentError, ""); Matrix3D<T> X(a, b + 1, d); CHECK_THROWS(A + X, MatrixDimensionError, ""); CHECK_THROWS(A -= X, MatrixDimensionError, ""); CHECK(A != X, ""); S(A, a, b, d, r, "after rejected");
}
LAW(matrix3d_real, 2000, 20000) { m3<double>(s, c); }
LAW(matrix3d_int, 800, 8000) { m3<int>(s, c); }
