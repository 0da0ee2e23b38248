// C04 singular value decomposition: factor identities, singular values of constructed matrices, definitions of derived quantities
#include "common.h"
#include "core/LinAlgEqSolvers/LinAlgSVD.h"

struct Inst { int m, n, r; Tab a; std::vector<double> d; bool known; };
// kind 0/1: U diag(d) V' with given rank; 2: exact integer product of rank r; 3: raw integers; 4: bidiagonal/sparse; 5: raw reals
static Inst gen(Src& s) {
	Inst q; q.m = s.size(1, 9); q.n = s.size(1, 9); int k = std::min(q.m, q.n), kind = (int)s.choice(5); q.r = k; q.known = false;
	if (kind <= 1) { Tab u = genOrtho(s, q.m), v = genOrtho(s, q.n); q.r = (int)s.i(0, k); if (s.chance(1, 2)) q.r = k; q.d.assign(q.n, 0.0); for (int j = 0; j < q.r; j++) q.d[j] = kind == 0 ? s.pwide(-4, 4) : s.pick({1.0, 1.0, 2.0, 1000.0}); std::sort(q.d.begin(), q.d.end(), std::greater<double>()); q.a = mkTab(q.m, q.n, [&](int i, int j) { LD t = 0; for (int x = 0; x < q.r; x++) t += (LD)u[i][x] * q.d[x] * v[j][x]; return (double)t; }); q.known = true; }
	else if (kind == 2) { int r = (int)s.i(0, k); Tab x = genInt(s, q.m, std::max(r, 1), 4), y = genInt(s, std::max(r, 1), q.n, 4); q.a = mulT(x, y); if (r == 0) for (auto& w : q.a) for (auto& z : w) z = 0; q.r = rankInt(q.a); }
	else if (kind == 3) { q.a = genInt(s, q.m, q.n, s.b() ? 1 : 9); q.r = rankInt(q.a); }
	else if (kind == 4) { q.a = Tab(q.m, std::vector<double>(q.n, 0.0)); for (int i = 0; i < q.m; i++) for (int j = 0; j < q.n; j++) if (s.chance(1, 3)) q.a[i][j] = (double)s.i(-5, 5); q.r = rankInt(q.a); }
	else { q.a = genReal(s, q.m, q.n); q.r = -1; }
	double sc = s.chance(1, 5) ? std::pow(2.0, (double)s.i(-80, 80)) : 1; if (sc != 1) { for (auto& r : q.a) for (auto& x : r) x *= sc; for (auto& x : q.d) x *= sc; }
	return q;
}
static void describe(Case& c, const Inst& q) { c.nontrivial(q.m > 1 && q.n > 1 && maxAbs(q.a) > 0); c.label(q.m < q.n ? "wide" : q.m == q.n ? "square" : "tall"); if (q.r >= 0 && q.r < std::min(q.m, q.n)) c.label("rank-deficient"); c.say([&](auto& o) { o << q.m << "x" << q.n << " rank " << q.r << " A=" << str(q.a); }); }

LAW(factors, 3000, 30000) {
	Inst q = gen(s); describe(c, q); int m = q.m, n = q.n; Matrix<Real> A = toMat(q.a); SVDecompositionSolver<Real> sv(A); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) CHECK(A(i, j) == q.a[i][j], "input changed"); Tab U = toTab(sv.getU()), V = toTab(sv.getV()); Vector<Real> w = sv.getW(); CHECK((int)U.size() == m && (int)U[0].size() == n && (int)V.size() == n && w.size() == n, "shapes");
	double na = frob(q.a), tol = 40.0 * (m + n) * EPS; for (int j = 0; j < n; j++) { CHECK(w[j] >= 0, "negative singular value " << w[j]); if (j) CHECK(w[j] <= w[j - 1], "singular values not sorted at " << j); } for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { LD t = 0; for (int k = 0; k < n; k++) t += (LD)U[i][k] * w[k] * V[j][k]; CHECK_NEAR((double)t, q.a[i][j], tol * na, "U W V' at " << i << "," << j); }
	Tab vv = mulT(trT(V), V), uu = mulT(trT(U), U); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { CHECK_NEAR(vv[i][j], (double)(i == j), tol, "V not orthogonal at " << i << "," << j); bool sig = w[i] > 1e-10 * w[0] && w[j] > 1e-10 * w[0]; if (m >= n || sig) CHECK_NEAR(uu[i][j], (double)(i == j), tol * (m >= n ? 1 : 1), "columns of U not orthonormal at " << i << "," << j); }
	LD fr = 0; for (int j = 0; j < n; j++) fr += (LD)w[j] * w[j]; CHECK_NEAR((double)std::sqrt(fr), na, tol * na, "sum of squared singular values"); if (q.known) for (int j = 0; j < n; j++) CHECK_NEAR(w[j], q.d[j], tol * na, "singular value " << j); double ic = sv.inv_condition(); CHECK_NEAR(ic, w[0] > 0 ? w[n - 1] / w[0] : 0.0, 1e-15, "inv_condition");
	if (m >= 2 && n >= 2) { Tab t = trT(q.a); SVDecompositionSolver<Real> st(toMat(t)); Vector<Real> w2 = st.getW(); for (int j = 0; j < std::min(m, n); j++) CHECK_NEAR(w[j], w2[j], tol * na, "singular values of the transpose"); }
}
LAW(rank_and_spaces, 3000, 30000) {
	Inst q = gen(s); DISCARD_IF(q.r < 0); describe(c, q); int m = q.m, n = q.n; SVDecompositionSolver<Real> sv(toMat(q.a)); Vector<Real> w = sv.getW(); if (q.r > 0 && !q.known) { double gap = w[q.r - 1] / w[0]; DISCARD_IF(gap < 1e-8); }
	double th = !q.known && s.b() ? -1.0 : 1e-10 * w[0]; CHECK(sv.Rank(th) == q.r, "rank " << sv.Rank(th) << " of a matrix of rank " << q.r << " threshold " << th); CHECK(sv.Nullity(th) == n - q.r, "nullity"); double tol = 60.0 * (m + n) * EPS; double na = frob(q.a); Matrix<Real> N = sv.Nullspace(th), R = sv.Range(th);
	if (q.r < n) { CHECK(N.rows() == n && N.cols() == n - q.r, "null space shape"); Tab t = toTab(N), p = mulT(q.a, t), g = mulT(trT(t), t); for (auto& r : p) for (double x : r) CHECK_NEAR(x, 0, tol * na, "A times null vector"); for (int i = 0; i < n - q.r; i++) for (int j = 0; j < n - q.r; j++) CHECK_NEAR(g[i][j], (double)(i == j), tol, "null space basis"); }
	if (q.r > 0) { CHECK(R.rows() == m && R.cols() == q.r, "range shape"); Tab t = toTab(R), g = mulT(trT(t), t), pr = mulT(t, mulT(trT(t), q.a)); double lo = w[0] / w[q.r - 1]; for (int i = 0; i < q.r; i++) for (int j = 0; j < q.r; j++) CHECK_NEAR(g[i][j], (double)(i == j), tol, "range basis"); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) CHECK_NEAR(pr[i][j], q.a[i][j], tol * na, "projection on the range"); (void)lo; }
	if (w[0] > 0) { double big = s.chance(1, 5) ? 0.0 : w[0] * (s.b() ? s.uni(0.0, 1.5) : std::pow(10.0, s.uni(-18.0, 0.0))); int cnt = 0; for (int j = 0; j < n; j++) cnt += w[j] > big; CHECK(sv.Rank(big) == cnt && sv.Nullity(big) == n - cnt, "explicit threshold"); }
}
LAW(least_squares, 3000, 30000) {
	Inst q = gen(s); describe(c, q); int m = q.m, n = q.n; std::vector<double> b = genRealV(s, m); c.say([&](auto& o) { o << "b=" << str(b); }); SVDecompositionSolver<Real> sv(toMat(q.a)); Vector<Real> w = sv.getW(); double th = 1e-10 * w[0]; if (q.r < 0) q.r = sv.Rank(th); if (q.r > 0) { double g = w[q.r - 1] / w[0]; DISCARD_IF(g < 1e-7 || (q.r < n && w[q.r] > 1e-12 * w[0])); th = s.b() && q.r == std::min(m, n) && m >= n ? -1.0 : th; }
	Vector<Real> x = sv.Solve(toVec(b), th); CHECK(x.size() == n, "size"); double na = frob(q.a), nx = 0, nb = 0; for (int j = 0; j < n; j++) nx += x[j] * x[j]; nx = std::sqrt(nx); for (double t : b) nb += t * t; nb = std::sqrt(nb); double kap = q.r > 0 ? w[0] / w[q.r - 1] : 1, tol = 100.0 * (m + n) * EPS;
	std::vector<LD> r(m); for (int i = 0; i < m; i++) { r[i] = b[i]; for (int j = 0; j < n; j++) r[i] -= (LD)q.a[i][j] * x[j]; } for (int j = 0; j < n; j++) { LD t = 0; for (int i = 0; i < m; i++) t += q.a[i][j] * r[i]; CHECK_NEAR((double)t, 0, tol * na * (na * nx + nb) * 4, "normal equation " << j); }
	if (q.r < n) { Tab N = toTab(sv.Nullspace(1e-10 * w[0])); for (int k = 0; k < n - q.r; k++) { LD t = 0; for (int j = 0; j < n; j++) t += (LD)N[j][k] * x[j]; CHECK_NEAR((double)t, 0, tol * kap * (nx + 1e-300), "solution is not of minimum norm"); } }
	int p = s.size(1, 3); Tab B = genReal(s, m, p); Matrix<Real> X(n, p); sv.Solve(toMat(B), X, th); for (int k = 0; k < p; k++) { std::vector<double> bk(m); for (int i = 0; i < m; i++) bk[i] = B[i][k]; Vector<Real> y = sv.Solve(toVec(bk), th); for (int j = 0; j < n; j++) CHECK(X(j, k) == y[j], "matrix right-hand side column " << k); }
	Vector<Real> y; sv.Solve(toVec(b), y, th); for (int j = 0; j < n; j++) CHECK(y[j] == x[j], "output vector overload"); if (m == n) { Vector<Real> z = toVec(b); sv.Solve(z, z, th); for (int j = 0; j < n; j++) CHECK(z[j] == x[j], "aliased"); } CHECK_THROWS(sv.Solve(Vector<Real>(m + 1)), VectorDimensionError, ""); Matrix<Real> Xb(n + 1, p); CHECK_THROWS(sv.Solve(toMat(B), Xb), MatrixDimensionError, ""); CHECK_THROWS(SVDecompositionSolver<Real>(Matrix<Real>()), MatrixDimensionError, "");
}
