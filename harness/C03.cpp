// C03 direct solvers against exact integer systems, long-double residuals and structured singular matrices
#include "common.h"
#include "core/LinAlgEqSolvers/LinAlgDirect.h"
#include "core/LinAlgEqSolvers/LinAlgQR.h"

typedef std::complex<double> Cx;
struct Sys { Tab a; std::vector<double> b; double cond; int kind; };
static Tab genRegular(Src& s, int n, int& kind) {
	kind = (int)s.choice(6); Tab t;
	switch (kind) {
	case 0: t = genInt(s, n, n); break;
	case 1: { Tab u = genOrtho(s, n), v = genOrtho(s, n); for (int j = 0; j < n; j++) { double d = s.pwide(-3, 3); for (int i = 0; i < n; i++) u[i][j] *= d; } t = mulT(u, v); break; }
	case 2: { t = Tab(n, std::vector<double>(n, 0.0)); std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[s.choice(i)]); for (int i = 0; i < n; i++) t[i][p[i]] = s.nz(0.5, 8); break; }
	case 3: { bool up = s.b(); t = mkTab(n, n, [&](int i, int j) { return i == j ? s.nz(1, 6) : ((j > i) == up ? s.real(-2, 2) : 0.0); }); for (int k = 0; k < n; k++) std::swap(t[k], t[s.choice(n - 1)]); break; }
	case 4: t = genReal(s, n, n, -3, 3); for (int i = 0; i < n; i++) { double q = 0; for (int j = 0; j < n; j++) q += std::fabs(t[i][j]); t[i][i] = q + 1; } break;
	case 5: t = genReal(s, n, n); break;
	default: t = genInt(s, n, n, 3); for (int i = 0; i < n; i++) t[i][i] = 0; break;
	}
	return t;
}
static Sys genSys(Src& s, int nmax = 12) { Sys y; int n = s.size(1, nmax); y.a = genRegular(s, n, y.kind); y.cond = condInf(y.a); DISCARD_IF(!(y.cond < 1e9)); double sc = s.chance(1, 4) ? std::pow(2.0, (double)s.i(-60, 60)) : 1; for (auto& r : y.a) for (auto& x : r) x *= sc; y.b = genRealV(s, n); if (s.chance(1, 6)) for (auto& x : y.b) if (s.b()) x = 0; return y; }
static void describe(Case& c, const Sys& y) { c.nontrivial(y.a.size() > 2 && (y.cond > 3 || y.kind == 2)); c.label("kind" + std::to_string(y.kind)); c.say([&](auto& o) { o << "A=" << str(y.a) << " b=" << str(y.b) << " cond=" << y.cond; }); }
// scaled residual in long double; x must also be a small relative forward error
static void solved(const Tab& a, const std::vector<double>& b, const Vector<Real>& x, double cond, bool backward, const char* what) {
	int n = a.size(); CHECK(x.size() == n, what << ": size " << x.size()); double nx = 0, nb = maxAbs(b), na = normInf(a); for (int i = 0; i < n; i++) nx = std::max(nx, std::fabs(x[i]));
	for (int i = 0; i < n; i++) { LD r = b[i]; for (int j = 0; j < n; j++) r -= (LD)a[i][j] * x[j]; double lim = 60.0 * n * n * EPS * (backward ? na * nx + nb : (na * nx + nb) * std::max(1.0, cond)) + 1e-300; CHECK_NEAR((double)r, 0, lim, what << ": residual of row " << i << " cond " << cond); }
	std::vector<std::vector<LD>> iv; if (invLD(a, iv)) for (int i = 0; i < n; i++) { LD e = 0, g = 0; for (int j = 0; j < n; j++) e += iv[i][j] * b[j]; for (int j = 0; j < n; j++) g = std::max(g, std::fabs(iv[i][j])); CHECK_NEAR(x[i], (double)e, 100.0 * n * n * EPS * cond * (nx + (double)std::fabs(e)) + 1e-300, what << ": component " << i << " cond " << cond); }
}
static void isInverse(const Tab& a, const Matrix<Real>& I, double cond, const char* what) { int n = a.size(); CHECK(I.rows() == n && I.cols() == n, what); Tab p = mulT(a, toTab(I)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_NEAR(p[i][j], (double)(i == j), 100.0 * n * n * EPS * cond, what << " A*inv at " << i << "," << j << " cond " << cond); }
static LD detLD(const Tab& t) { int n = t.size(); std::vector<std::vector<LD>> a(n, std::vector<LD>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = t[i][j]; LD d = 1; for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i; if (a[p][k] == 0) return 0; if (p != k) { std::swap(a[p], a[k]); d = -d; } d *= a[k][k]; for (int i = k + 1; i < n; i++) { LD f = a[i][k] / a[k][k]; for (int j = k; j < n; j++) a[i][j] -= f * a[k][j]; } } return d; }
static void sameMat(const Matrix<Real>& m, const Tab& t, const char* what) { CHECK(m.rows() == (int)t.size(), what); for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) CHECK(m(i, j) == t[i][j], what << " changed at " << i << "," << j); }

LAW(gauss_jordan, 2500, 25000) {
	Sys y = genSys(s); describe(c, y); int n = y.a.size(); const Matrix<Real> A = toMat(y.a); Vector<Real> b = toVec(y.b);
	solved(y.a, y.b, GaussJordanSolver<Real>::SolveConst(A, b), y.cond, false, "SolveConst"); sameMat(A, y.a, "SolveConst input"); Matrix<Real> M(A); solved(y.a, y.b, GaussJordanSolver<Real>::Solve(M, b), y.cond, false, "Solve"); isInverse(y.a, M, y.cond, "inverse left in A"); for (int i = 0; i < n; i++) CHECK(b[i] == y.b[i], "b changed");
	Matrix<Real> M2(A); Vector<Real> v(b); GaussJordanSolver<Real>::SolveInPlace(M2, v); solved(y.a, y.b, v, y.cond, false, "SolveInPlace"); int m = s.size(1, 4); Tab B = genReal(s, n, m); Matrix<Real> M3(A), X = toMat(B); GaussJordanSolver<Real>::SolveInPlace(M3, X); for (int q = 0; q < m; q++) { std::vector<double> bq(n); for (int i = 0; i < n; i++) bq[i] = B[i][q]; solved(y.a, bq, X.VectorFromColumn(q), y.cond, false, "multiple right-hand sides"); }
	Vector<Real> w(n + 1); CHECK_THROWS(GaussJordanSolver<Real>::SolveConst(A, w), MatrixDimensionError, ""); CHECK_THROWS(GaussJordanSolver<Real>::SolveConst(Matrix<Real>(n, n + 1), b), MatrixDimensionError, ""); Matrix<Real> M4(A), Xb(n + 1, 1); CHECK_THROWS(GaussJordanSolver<Real>::SolveInPlace(M4, Xb), MatrixDimensionError, ""); sameMat(M4, y.a, "rejected call");
}
LAW(lu, 2500, 25000) {
	Sys y = genSys(s); describe(c, y); int n = y.a.size(); const Matrix<Real> A = toMat(y.a); Vector<Real> b = toVec(y.b); LUSolver<Real> lu(A); solved(y.a, y.b, lu.Solve(b), y.cond, true, "Solve"); sameMat(A, y.a, "input"); Vector<Real> x(b); CHECK(lu.Solve(x, x), "aliased solve"); solved(y.a, y.b, x, y.cond, true, "aliased Solve");
	LD d = detLD(y.a), hb = 1; for (auto& r : y.a) { LD q = 0; for (double t : r) q += (LD)t * t; hb *= std::sqrt(q); } CHECK_NEAR(lu.det(), (double)d, (double)(40.0 * n * n * EPS * y.cond * std::fabs(d)), "determinant"); Matrix<Real> I; lu.inverse(I); isInverse(y.a, I, y.cond, "inverse");
	int m = s.size(1, 4); Tab B = genReal(s, n, m); Matrix<Real> R = toMat(B), X(n, m); lu.Solve(R, X); for (int q = 0; q < m; q++) { std::vector<double> bq(n); for (int i = 0; i < n; i++) bq[i] = B[i][q]; solved(y.a, bq, X.VectorFromColumn(q), y.cond, true, "multiple right-hand sides"); } sameMat(R, B, "right-hand sides"); lu.Solve(R, R); for (int i = 0; i < n; i++) for (int q = 0; q < m; q++) CHECK(R(i, q) == X(i, q), "aliased matrix solve");
	Matrix<Real> W(A); { LUSolverInPlace<Real> ip(W); solved(y.a, y.b, ip.Solve(b), y.cond, true, "in-place"); Matrix<Real> R2 = toMat(B); Matrix<Real> X2 = ip.Solve(R2); for (int i = 0; i < n; i++) for (int q = 0; q < m; q++) CHECK_NEAR(X2(i, q), X(i, q), 100.0 * n * n * EPS * y.cond * (std::fabs(X(i, q)) + frob(toTab(X))), "in-place multi");
		// packed factors: L*U is a row permutation of A
		Tab L = mkTab(n, n, [&](int i, int j) { return i == j ? 1.0 : (j < i ? (double)W(i, j) : 0.0); }), U = mkTab(n, n, [&](int i, int j) { return j >= i ? (double)W(i, j) : 0.0; }); Tab P = mulT(L, U); std::vector<bool> used(n, false); double tol = 40.0 * n * n * EPS * (normInf(y.a) + 1e-300) * std::max(1.0, normInf(L)); for (int i = 0; i < n; i++) { bool f = false; for (int k = 0; k < n && !f; k++) if (!used[k]) { bool ok = true; for (int j = 0; j < n; j++) ok &= std::fabs(P[i][j] - y.a[k][j]) <= tol; if (ok) { used[k] = true; f = true; } } CHECK(f, "row " << i << " of L*U is no row of A"); } }
	Vector<Real> sh(n + 1), o(n); CHECK(!lu.Solve(sh, o) && !lu.Solve(b, sh), "size mismatch must be refused"); CHECK_THROWS(lu.Solve(sh), VectorDimensionError, ""); CHECK_THROWS(LUSolver<Real>(Matrix<Real>(n, n + 1)), MatrixDimensionError, ""); Matrix<Real> Rb(n + 1, m), Xb(n, m), Xc(n, m + 1); CHECK_THROWS(lu.Solve(Rb, Xb), MatrixDimensionError, ""); CHECK_THROWS(lu.Solve(X, Xc), MatrixDimensionError, "");
}
LAW(complex_solve, 1500, 15000) {
	int n = s.size(1, 8); std::vector<std::vector<Cx>> a(n, std::vector<Cx>(n)); for (auto& r : a) for (auto& x : r) x = Cx((double)s.i(-9, 9), (double)s.i(-9, 9)); std::vector<Cx> x(n); for (auto& q : x) q = Cx((double)s.i(-9, 9), (double)s.i(-9, 9));
	Tab e = mkTab(2 * n, 2 * n, [&](int i, int j) { const Cx& z = a[i % n][j % n]; return (i < n) == (j < n) ? z.real() : (i < n ? -z.imag() : z.imag()); }); double cd = condInf(e); DISCARD_IF(!(cd < 1e8)); Matrix<Cx> A(n, n); Vector<Cx> b(n); for (int i = 0; i < n; i++) { Cx q = 0; for (int j = 0; j < n; j++) { A(i, j) = a[i][j]; q += a[i][j] * x[j]; } b[i] = q; } c.nontrivial(n > 1); c.say([&](auto& o) { o << str(e); });
	double mx = 1; for (auto& q : x) mx = std::max(mx, std::abs(q)); double tol = 200.0 * n * n * EPS * cd * mx; auto ck = [&](const Vector<Cx>& y, const char* w) { CHECK(y.size() == n, w); for (int i = 0; i < n; i++) CHECK(std::abs(y[i] - x[i]) <= tol, w << " component " << i << ": " << y[i] << " expected " << x[i]); };
	LUSolver<Cx> lu(A); ck(lu.Solve(b), "LU"); ck(GaussJordanSolver<Cx>::SolveConst(A, b), "GJ"); Matrix<Cx> W(A); LUSolverInPlace<Cx> ip(W); ck(ip.Solve(b), "LU in place"); LD d2 = detLD(e); double ad = std::norm(lu.det()); CHECK_NEAR(ad, (double)d2, 400.0 * n * n * EPS * cd * (double)std::fabs(d2), "|det|^2 of the complex matrix"); Matrix<Cx> I; lu.inverse(I); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { Cx q = 0; for (int k = 0; k < n; k++) q += a[i][k] * I(k, j); CHECK(std::abs(q - Cx(i == j)) <= tol, "inverse"); }
	auto r = LUSolveDetailed<Cx>(A, b); CHECK(r.IsSuccess(), "status"); ck(r.solution, "detailed");
}
LAW(qr, 2500, 25000) {
	Sys y = genSys(s, 10); describe(c, y); int n = y.a.size(); Matrix<Real> A = toMat(y.a); Vector<Real> b = toVec(y.b); QRSolver<Real> qr(A); CHECK(!qr.IsSingular() && !qr.isSingular(), "regular matrix (cond " << y.cond << ") declared singular"); solved(y.a, y.b, qr.Solve(b), y.cond, true, "Solve"); Vector<Real> x(b); qr.Solve(x, x); solved(y.a, y.b, x, y.cond, true, "aliased Solve"); LD d = detLD(y.a); CHECK_NEAR(qr.det(), (double)d, (double)(60.0 * n * n * EPS * y.cond * std::fabs(d)), "determinant"); Matrix<Real> I; qr.inverse(I); isInverse(y.a, I, y.cond, "inverse"); CHECK_THROWS(qr.Solve(Vector<Real>(n + 1)), VectorDimensionError, "");
	solved(y.a, y.b, qr.LeastSquaresSolve(b), y.cond, true, "LeastSquaresSolve on a square system");
}
LAW(qr_tall, 2500, 25000) {
	int n = s.size(1, 6), m = n + s.size(0, 8); Tab a = s.b() ? genInt(s, m, n) : genReal(s, m, n); Tab g = mulT(trT(a), a); double cd = std::sqrt(condInf(g)); DISCARD_IF(!(cd < 1e6)); double sc = s.chance(1, 4) ? std::pow(2.0, (double)s.i(-60, 60)) : 1; for (auto& r : a) for (auto& x : r) x *= sc; std::vector<double> b = genRealV(s, m); c.nontrivial(m > n && n > 1); c.say([&](auto& o) { o << "A=" << str(a) << " b=" << str(b); }); QRSolver<Real> qr(toMat(a)); CHECK(qr.rows() == m && qr.cols() == n && !qr.IsSingular(), "shape/flag");
	Tab Q = toTab(qr.GetQ()), R = toTab(qr.GetR()); double na = frob(a); CHECK((int)Q.size() == m && (int)Q[0].size() == n && (int)R.size() == n, "factor shapes"); Tab P = mulT(Q, R), O = mulT(trT(Q), Q); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) CHECK_NEAR(P[i][j], a[i][j], 30.0 * m * EPS * na, "Q*R at " << i << "," << j); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { CHECK_NEAR(O[i][j], (double)(i == j), 30.0 * m * EPS, "Q'Q"); if (j < i) CHECK(R[i][j] == 0, "R not upper triangular"); }
	Vector<Real> x = qr.LeastSquaresSolve(toVec(b)); CHECK(x.size() == n, "size"); std::vector<LD> r(m); double nx = 0; for (int j = 0; j < n; j++) nx = std::max(nx, std::fabs(x[j])); for (int i = 0; i < m; i++) { r[i] = b[i]; for (int j = 0; j < n; j++) r[i] -= (LD)a[i][j] * x[j]; } for (int j = 0; j < n; j++) { LD q = 0; for (int i = 0; i < m; i++) q += a[i][j] * r[i]; CHECK_NEAR((double)q, 0, 100.0 * m * EPS * na * (na * nx + std::sqrt((double)m) * maxAbs(b)) * (1 + 0), "residual not orthogonal to column " << j); }
	Vector<Real> v = toVec(b), qt, back; qr.QtMultiply(v, qt); qr.QMultiply(qt, back); LD n1 = 0, n2 = 0; for (int i = 0; i < m; i++) { CHECK_NEAR(back[i], b[i], 30.0 * m * EPS * (1 + maxAbs(b)), "Q Q' b"); n1 += (LD)b[i] * b[i]; n2 += (LD)qt[i] * qt[i]; } CHECK_NEAR((double)n1, (double)n2, 60.0 * m * EPS * (double)n1, "Q' is not norm preserving"); for (int j = 0; j < n; j++) { LD q = 0; for (int i = 0; i < m; i++) q += (LD)Q[i][j] * b[i]; CHECK_NEAR(qt[j], (double)q, 60.0 * m * EPS * (1 + maxAbs(b)), "Q'b component"); } Vector<Real> al(v); qr.QtMultiply(al, al); for (int i = 0; i < m; i++) CHECK(al[i] == qt[i], "aliased Q'b");
	CHECK_THROWS(qr.LeastSquaresSolve(Vector<Real>(m + 1)), VectorDimensionError, ""); if (m > n) { CHECK_THROWS(qr.Solve(v), MatrixDimensionError, ""); CHECK_THROWS(qr.det(), MatrixDimensionError, ""); Matrix<Real> I; CHECK_THROWS(qr.inverse(I), MatrixDimensionError, ""); CHECK_THROWS(QRSolver<Real>(toMat(trT(a))), MatrixDimensionError, ""); }
}
LAW(cholesky, 2500, 25000) {
	int n = s.size(1, 10); Tab g = s.b() ? genInt(s, n, n, 4) : genReal(s, n, n, -3, 3); Tab a = mulT(trT(g), g); for (int i = 0; i < n; i++) a[i][i] += 1; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a[i][j] = a[j][i]; double cd = condInf(a), sc = s.chance(1, 4) ? std::pow(2.0, (double)s.i(-20, 20)) : 1; for (auto& r : a) for (auto& x : r) x *= sc; std::vector<double> b = genRealV(s, n); c.nontrivial(n > 2); c.say([&](auto& o) { o << "A=" << str(a) << " b=" << str(b); });
	const Matrix<Real> A = toMat(a); CholeskySolver<Real> ch(A); sameMat(A, a, "input"); solved(a, b, ch.Solve(toVec(b)), cd, true, "Solve"); Vector<Real> x = toVec(b); ch.Solve(x, x); solved(a, b, x, cd, true, "aliased"); Vector<Real> e; ch.Solve(toVec(b), e); CHECK(e.size() == n, ""); Tab L = toTab(ch.L()), P = mulT(L, trT(L)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { CHECK_NEAR(P[i][j], a[i][j], 30.0 * n * EPS * maxAbs(a), "L*L'"); if (j > i) CHECK(L[i][j] == 0, "L not lower"); if (i == j) CHECK(L[i][i] > 0, "diagonal sign"); } Matrix<Real> I; ch.inverse(I); isInverse(a, I, cd, "inverse"); CHECK_NEAR(ch.logdet(), (double)std::log(detLD(a)), 100.0 * n * n * EPS * (cd + 10), "logdet"); CHECK_THROWS(ch.Solve(Vector<Real>(n + 1)), VectorDimensionError, "");
	// not positive definite: flip the sign of one direction by lowering a diagonal element below its Schur bound
	Tab bad = a; int k = (int)s.i(0, n - 1); bad[k][k] = s.b() ? -bad[k][k] : 0.0; CHECK_THROWS(CholeskySolver<Real>(toMat(bad)), MMLException, "non-positive diagonal element " << k); if (n > 1) { int p = k, q = (k + 1) % n; Tab ind = a; double v = std::sqrt(a[p][p] * a[q][q]) * s.uni(1.1, 3); ind[p][q] = ind[q][p] = v; CHECK_THROWS(CholeskySolver<Real>(toMat(ind)), MMLException, "indefinite 2x2 minor"); Tab as = a; as[p][q] += 0.5 * (1 + std::fabs(as[p][q])); CHECK_THROWS(CholeskySolver<Real>(toMat(as)), MMLException, "asymmetric matrix"); } CHECK_THROWS(CholeskySolver<Real>(Matrix<Real>(n, n + 1)), MatrixDimensionError, "");
}
LAW(band, 2500, 25000) {
	int n = s.size(1, 14), m1 = s.size(0, n - 1), m2 = s.size(0, n - 1), w = m1 + m2 + 1; bool dom = s.b(); Matrix<Real> d(n, w); Tab a(n, std::vector<double>(n, 0.0)); for (int i = 0; i < n; i++) { double q = 0; for (int k = 0; k < w; k++) { int j = i + k - m1; double x = s.real(-6, 6); if (j >= 0 && j < n) { a[i][j] = x; if (j != i) q += std::fabs(x); } else d(i, k) = s.b() ? 99 : 0; } if (dom) a[i][i] = (q + 1) * (s.b() ? 1 : -1); }
	double sc = s.chance(1, 4) ? std::pow(2.0, (double)s.i(-60, 60)) : 1; for (auto& r : a) for (auto& x : r) x *= sc; for (int i = 0; i < n; i++) for (int k = 0; k < w; k++) { int j = i + k - m1; if (j >= 0 && j < n) d(i, k) = a[i][j]; } double cd = condInf(a); DISCARD_IF(!(cd < 1e9)); std::vector<double> b = genRealV(s, n); c.nontrivial(n > 3 && m1 + m2 > 0); c.label(m1 > m2 ? "m1>m2" : m1 < m2 ? "m1<m2" : "m1==m2"); c.say([&](auto& o) { o << "m1=" << m1 << " m2=" << m2 << " A=" << str(a) << " b=" << str(b); });
	BandDiagonalMatrix A(n, m1, m2, d); BandDiagonalSolver S(A); solved(a, b, S.Solve(toVec(b)), cd, true, "Solve"); Vector<Real> x = toVec(b); CHECK(S.Solve(x, x), ""); solved(a, b, x, cd, true, "aliased"); LD dt = detLD(a); CHECK_NEAR(S.Det(), (double)dt, (double)(60.0 * n * n * EPS * cd * std::fabs(dt)), "determinant"); int m = s.size(1, 3); Tab B = genReal(s, n, m); Matrix<Real> X = S.Solve(toMat(B)); for (int q = 0; q < m; q++) { std::vector<double> bq(n); for (int i = 0; i < n; i++) bq[i] = B[i][q]; solved(a, bq, X.VectorFromColumn(q), cd, true, "multi"); } Vector<Real> sh(n + 1), o(n); CHECK(!S.Solve(sh, o) && !S.Solve(toVec(b), sh), "size mismatch"); CHECK_THROWS(S.Solve(sh), VectorDimensionError, ""); CHECK_THROWS(S.Solve(Matrix<Real>(n + 1, 2)), MatrixDimensionError, ""); auto r = BandDiagonalSolveDetailed(A, toVec(b)); CHECK(r.IsSuccess(), ""); solved(a, b, r.solution, cd, true, "detailed");
	int z = (int)s.i(0, n - 1); for (int k = 0; k < w; k++) d(z, k) = 0; CHECK_THROWS(BandDiagonalSolver(BandDiagonalMatrix(n, m1, m2, d)), SingularMatrixError, "zero row " << z);
}
// singular by construction: zero row/column, or a row/column that is a power-of-two multiple of another
LAW(singular, 3000, 30000) {
	int n = s.size(1, 9), kind = (int)s.choice(n > 1 ? 3 : 1), p = (int)s.i(0, n - 1), q = n > 1 ? (p + 1 + (int)s.choice(n - 2)) % n : p; Tab a = s.b() ? genInt(s, n, n) : genReal(s, n, n, -100, 100); double f = std::pow(2.0, (double)s.i(-2, 2)) * (s.b() ? 1 : -1); for (int i = 0; i < n; i++) { if (kind == 0) a[p][i] = 0; if (kind == 1) a[i][p] = 0; if (kind == 2) a[q][i] = f * a[p][i]; if (kind == 3) a[i][q] = f * a[i][p]; } double sc = s.chance(1, 4) ? std::pow(2.0, (double)s.i(-60, 60)) : 1; for (auto& r : a) for (auto& x : r) x *= sc; Vector<Real> b = toVec(genRealV(s, n)); const Matrix<Real> A = toMat(a); c.nontrivial(n > 1); c.label("kind" + std::to_string(kind)); c.say([&](auto& o) { o << "A=" << str(a); });
	CHECK_THROWS(GaussJordanSolver<Real>::SolveConst(A, b), SingularMatrixError, "GJ"); CHECK_THROWS(LUSolver<Real>(A), SingularMatrixError, "LU"); Matrix<Real> W(A); CHECK_THROWS(LUSolverInPlace<Real>(W), SingularMatrixError, "LU in place"); QRSolver<Real> qr(A);
	// rounding noise in the vanishing diagonal element of R grows with the near-dependence of the other columns: detection is required when those are clearly independent
	auto clear = [](const Tab& r, const Tab& full) { int k = r.size(), js = 0; double low = INFINITY, second = INFINITY; std::vector<double> cn(k, 0.0); for (int j = 0; j < k; j++) { for (auto& row : full) cn[j] = std::max(cn[j], std::fabs(row[j])); double q = cn[j] == 0 ? 0 : std::fabs(r[j][j]) / cn[j]; if (q < low) { second = low; low = q; js = j; } else second = std::min(second, q); } if (cn[js] == 0) return true; if (!(second > 0.05)) return false; std::vector<double> x(js); double amp = 0; for (int i = js - 1; i >= 0; i--) { x[i] = r[i][js]; for (int j = i + 1; j < js; j++) x[i] -= r[i][j] * x[j]; x[i] /= r[i][i]; amp += std::fabs(x[i]) * cn[i] / cn[js]; } return amp < 5; };
	if (!clear(toTab(qr.GetR()), a)) { c.label("near-dependent"); return; } CHECK(qr.IsSingular(), "QR did not notice"); CHECK_THROWS(qr.Solve(b), SingularMatrixError, "QR"); CHECK(qr.det() == 0, "QR determinant"); Matrix<Real> I; CHECK_THROWS(qr.inverse(I), SingularMatrixError, "");
	Tab Q = toTab(qr.GetQ()), R = toTab(qr.GetR()), P = mulT(Q, R); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_NEAR(P[i][j], a[i][j], 30.0 * n * EPS * frob(a) + 1e-300, "Q*R of a singular matrix"); sameMat(A, a, "input"); int m = s.size(1, 5); Tab t = a; for (int k = 0; k < m; k++) { t.push_back(std::vector<double>(n)); for (auto& x : t.back()) x = sc * s.real(-5, 5); } if (kind == 1 || kind == 3) { for (int i = n; i < n + m; i++) { if (kind == 1) t[i][p] = 0; else t[i][q] = f * t[i][p]; } QRSolver<Real> qt(toMat(t)); if (!clear(toTab(qt.GetR()), t)) return; CHECK(qt.IsSingular(), "dependent columns of a tall matrix not noticed by QR: " << str(t)); CHECK_THROWS(qt.LeastSquaresSolve(Vector<Real>(n + m)), SingularMatrixError, ""); }
	LinearSolverConfig cv; cv.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto g = GaussJordanSolveDetailed<Real>(A, b, cv), l = LUSolveDetailed<Real>(A, b, cv); CHECK(g.status == AlgorithmStatus::SingularMatrix && l.status == AlgorithmStatus::SingularMatrix, "status"); LinearSolverConfig pr; pr.exception_policy = EvaluationExceptionPolicy::Propagate; CHECK_THROWS(LUSolveDetailed<Real>(A, b, pr), SingularMatrixError, ""); CHECK_THROWS(GaussJordanSolveDetailed<Real>(A, b, pr), SingularMatrixError, "");
}
LAW(detailed, 1500, 15000) {
	Sys y = genSys(s, 8); describe(c, y); int n = y.a.size(); Matrix<Real> A = toMat(y.a); Vector<Real> b = toVec(y.b); LinearSolverConfig cv; cv.exception_policy = s.b() ? EvaluationExceptionPolicy::ConvertToStatus : EvaluationExceptionPolicy::Propagate; cv.estimate_error = true; auto ck = [&](const LinearSolverResult<Real>& r, const char* w) { CHECK(r.IsSuccess() && r.error_message.empty(), w); solved(y.a, y.b, r.solution, y.cond, false, w); LD q = 0; for (int i = 0; i < n; i++) { LD e = -y.b[i]; for (int j = 0; j < n; j++) e += (LD)y.a[i][j] * r.solution[j]; q += e * e; } double mx = 0; for (int i = 0; i < n; i++) mx = std::max(mx, std::fabs(r.solution[i])); CHECK_NEAR(r.residual_norm, (double)std::sqrt(q), 20.0 * n * n * EPS * (normInf(y.a) * mx + maxAbs(y.b)) + 1e-300, w << " residual_norm"); };
	ck(GaussJordanSolveDetailed<Real>(A, b, cv), "GJ"); ck(LUSolveDetailed<Real>(A, b, cv), "LU"); cv.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto r = LUSolveDetailed<Real>(A, Vector<Real>(n + 1), cv); CHECK(r.status == AlgorithmStatus::InvalidInput, "dimension mismatch status"); CHECK(GaussJordanSolveDetailed<Real>(A, Vector<Real>(n + 1), cv).status == AlgorithmStatus::InvalidInput, ""); CHECK(!CholeskySolveDetailed<Real>(Matrix<Real>(n, n), b, cv).IsSuccess(), "zero matrix is not positive definite");
}
