// C06 eigenvalue solvers: residuals, completeness through the characteristic polynomial on a circle, similarity of reduction steps
#include "common.h"
#include "algorithms/EigenSystemSolvers.h"
typedef std::complex<LD> CL;

static Tab genSymm(Src& s, int n, std::vector<double>& d) {
	d.clear(); int kind = (int)s.choice(5); Tab a;
	if (kind <= 1) { Tab u = genOrtho(s, n); d.resize(n); for (auto& x : d) x = kind == 0 ? s.wide(-4, 3) : s.pick({0.0, 1.0, 1.0, -1.0, 3.0, 3.0 + 1e-9}); std::sort(d.begin(), d.end()); a = mkTab(n, n, [&](int i, int j) { LD t = 0; for (int k = 0; k < n; k++) t += (LD)u[i][k] * d[k] * u[j][k]; return (double)t; }); }
	else if (kind == 2) a = genInt(s, n, n, s.b() ? 1 : 9); else if (kind == 3) { a = Tab(n, std::vector<double>(n, 0.0)); for (int i = 0; i < n; i++) { a[i][i] = s.real(-5, 5); if (i) a[i][i - 1] = a[i - 1][i] = s.chance(1, 4) ? 0 : s.real(-5, 5); } } else if (kind == 4) { a = Tab(n, std::vector<double>(n, 0.0)); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) if (s.chance(1, 3)) a[i][j] = (double)s.i(-4, 4); } else a = genReal(s, n, n);
	for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a[j][i] = a[i][j];
	if (s.chance(1, 5)) { double sc = std::pow(2.0, (double)s.i(-10, 40)); for (auto& r : a) for (auto& x : r) x *= sc; for (auto& x : d) x *= sc; } return a;
}
template<class R> void symOk(const R& r, const Tab& a, const std::vector<double>& d, double tol, const char* w) {
	int n = a.size(); double na = frob(a), lim = 8.0 * n * (tol * std::max(1.0, na) + 40 * EPS * n * na); CHECK(r.eigenvalues.size() == n && r.eigenvectors.rows() == n && r.eigenvectors.cols() == n, w << " sizes"); Tab V = toTab(r.eigenvectors), vv = mulT(trT(V), V); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_NEAR(vv[i][j], (double)(i == j), 200.0 * n * EPS * 10, w << ": eigenvectors not orthonormal at " << i << "," << j); for (int j = 0; j + 1 < n; j++) CHECK(r.eigenvalues[j] <= r.eigenvalues[j + 1], w << ": eigenvalues not ascending at " << j); if (!r.converged) return;
	for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { LD t = -(LD)r.eigenvalues[j] * V[i][j]; for (int k = 0; k < n; k++) t += (LD)a[i][k] * V[k][j]; CHECK_NEAR((double)t, 0, lim, w << ": A v - lambda v, pair " << j); } if (!d.empty()) for (int j = 0; j < n; j++) CHECK_NEAR(r.eigenvalues[j], d[j], lim, w << ": eigenvalue " << j); LD tr = 0; for (int i = 0; i < n; i++) tr += (LD)a[i][i] - r.eigenvalues[i]; CHECK_NEAR((double)tr, 0, lim * n, w << ": trace");
}
LAW(symmetric, 1500, 15000) {
	int n = s.size(1, 10); std::vector<double> d; Tab a = genSymm(s, n, d); double tol = s.b() ? 1e-10 : s.pwide(-13, -6); c.nontrivial(n > 2); c.say([&](auto& o) { o << "A=" << str(a) << " tol=" << tol; }); MatrixSym<Real> S(n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) S(i, j) = a[i][j]; auto j1 = SymmMatEigenSolverJacobi::Solve(S, tol), j2 = SymmMatEigenSolverJacobi::Solve(toMat(a), tol); auto q1 = SymmMatEigenSolverQR::Solve(S, tol), q2 = SymmMatEigenSolverQR::Solve(toMat(a), tol); CHECK(j1.converged && j2.converged && q1.converged && q2.converged, "a symmetric matrix of order " << n << " must converge within the default limits: " << j1.converged << j2.converged << q1.converged << q2.converged); symOk(j1, a, d, tol, "Jacobi"); symOk(j2, a, d, tol, "Jacobi(Matrix)"); symOk(q1, a, d, tol, "QR"); symOk(q2, a, d, tol, "QR(Matrix)"); CHECK(j1.residual <= tol, "Jacobi residual");
	Tab ns = a; if (n > 1) { int i = (int)s.i(0, n - 1), j = (i + 1) % n; double e = s.real(-2, 2); ns[i][j] += e; ns[j][i] -= e; auto k = SymmMatEigenSolverJacobi::Solve(toMat(ns), tol); auto k2 = SymmMatEigenSolverQR::Solve(toMat(ns), tol); Tab av = mkTab(n, n, [&](int x, int y) { return 0.5 * (ns[x][y] + ns[y][x]); }); symOk(k, av, {}, tol, "symmetric part"); symOk(k2, av, {}, tol, "symmetric part (QR)"); } CHECK_THROWS(SymmMatEigenSolverJacobi::Solve(Matrix<Real>(n + 1, n)), MatrixDimensionError, ""); CHECK_THROWS(SymmMatEigenSolverQR::Solve(Matrix<Real>(n, n + 1)), MatrixDimensionError, ""); CHECK_THROWS(EigenSolver::Solve(Matrix<Real>(n + 1, n)), MatrixDimensionError, "");
}
LAW(symmetric_limits, 1500, 15000) {
	int n = s.size(2, 9); std::vector<double> d; Tab a = genSymm(s, n, d); double tol = s.pwide(-13, -3); int it = s.size(1, 12); c.nontrivial(n > 3); c.say([&](auto& o) { o << "A=" << str(a) << " tol=" << tol << " it=" << it; }); EigenSolverConfig cf; cf.tolerance = tol; cf.max_iterations = it; auto j = SymmMatEigenSolverJacobi::Solve(toMat(a), cf); auto q = SymmMatEigenSolverQR::Solve(toMat(a), cf); c.label(j.converged ? "J" : "j"); c.label(q.converged ? "Q" : "q"); symOk(j, a, d, tol, "Jacobi"); symOk(q, a, d, tol, "QR"); CHECK(j.iterations <= it && q.iterations <= it, "iteration count"); CHECK((j.status == AlgorithmStatus::Success) == j.converged && (q.status == AlgorithmStatus::Success) == q.converged, "status"); CHECK(j.converged == (j.residual <= tol), "Jacobi flag against residual");
	// residual = norm of the off-diagonal part of V'AV
	Tab V = toTab(j.eigenvectors), t = mulT(trT(V), mulT(a, V)); LD f = 0; for (int x = 0; x < n; x++) for (int y = x + 1; y < n; y++) f += (LD)t[x][y] * t[x][y]; CHECK_NEAR((double)std::sqrt(f), j.residual, 1e-13 * n * n * frob(a) + n * 1e-15, "Jacobi residual is not the off-diagonal norm");
}
static CL detC(const Tab& a, CL mu) { int n = a.size(); std::vector<std::vector<CL>> m(n, std::vector<CL>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = CL(a[i][j]) - (i == j ? mu : CL(0)); CL d = 1; for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (std::abs(m[i][k]) > std::abs(m[p][k])) p = i; if (std::abs(m[p][k]) == 0) return 0; if (p != k) { std::swap(m[p], m[k]); d = -d; } d *= m[k][k]; for (int i = k + 1; i < n; i++) { CL f = m[i][k] / m[k][k]; for (int j = k; j < n; j++) m[i][j] -= f * m[k][j]; } } return d; }
static Tab genGen(Src& s, int n, std::string& lab) {
	switch (s.choice(8)) {
	case 0: lab = "int"; return genInt(s, n, n, s.b() ? 1 : 9);
	case 1: lab = "real"; return genReal(s, n, n);
	case 2: { lab = "normal"; Tab u = genOrtho(s, n), b(n, std::vector<double>(n, 0.0)); for (int i = 0; i < n;) { if (i + 1 < n && s.b()) { double x = (double)s.i(-3, 3), y = s.nz(0.25, 4); b[i][i] = b[i + 1][i + 1] = x; b[i][i + 1] = y; b[i + 1][i] = -y; i += 2; } else { b[i][i] = (double)s.i(-3, 3); i++; } } return mulT(u, mulT(b, trT(u))); }
	case 3: { lab = "unimodular"; Tab b(n, std::vector<double>(n, 0.0)); for (int i = 0; i < n;) { if (i + 1 < n && s.b()) { double x = (double)s.i(-3, 3), y = (double)s.i(1, 4); b[i][i] = b[i + 1][i + 1] = x; b[i][i + 1] = y; b[i + 1][i] = -y; i += 2; } else { b[i][i] = (double)s.i(-3, 3); if (i && s.chance(1, 3)) b[i - 1][i] = 1; i++; } } for (int k = 0; k < 3; k++) { int p = (int)s.choice(n - 1), q = (int)s.choice(n - 1); if (p == q) continue; double f = (double)s.i(-1, 1); for (int j = 0; j < n; j++) b[p][j] += f * b[q][j]; for (int i = 0; i < n; i++) b[i][q] -= f * b[i][p]; } return b; }
	case 4: { lab = "companion"; Tab b(n, std::vector<double>(n, 0.0)); for (int i = 0; i + 1 < n; i++) b[i + 1][i] = 1; for (int i = 0; i < n; i++) b[i][n - 1] = (double)s.i(-5, 5); return b; }
	case 5: { lab = "permutation"; Tab b(n, std::vector<double>(n, 0.0)); std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = (i + 1) % n; if (s.b()) for (int i = n - 1; i > 0; i--) std::swap(p[i], p[s.choice(i)]); double f = s.nz(0.5, 3); for (int i = 0; i < n; i++) b[i][p[i]] = f; return b; }
	case 6: { lab = "jordan"; Tab b(n, std::vector<double>(n, 0.0)); double l = (double)s.i(-2, 2); for (int i = 0; i < n; i++) { b[i][i] = l; if (i + 1 < n) b[i][i + 1] = s.b() ? 1 : 0; } if (s.b()) b = trT(b); return b; }
	case 7: { lab = "triangular"; Tab b = genInt(s, n, n, 5); bool up = s.b(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (up ? j < i : j > i) b[i][j] = 0; return b; }
	default: { lab = "skew/symmetric"; Tab b = genInt(s, n, n, 5); double g = s.b() ? -1 : 1; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) b[j][i] = i == j && g < 0 ? 0 : g * b[i][j]; if (g < 0) for (int i = 0; i < n; i++) b[i][i] = 0; return b; }
	}
}
static void pairsOk(const EigenSolver::Result& r, const Tab& a, double lim, const char* w) {
	int n = a.size(); CHECK((int)r.eigenvalues.size() == n && (int)r.isComplexPair.size() == n && r.eigenvectors.rows() == n, w << ": " << r.eigenvalues.size() << " eigenvalues for order " << n); double worst = 0;
	for (int i = 0; i < n; i++) { auto& e = r.eigenvalues[i]; bool cp = r.isComplexPair[i]; CHECK(cp == (e.imag != 0), w << ": pair flag of eigenvalue " << i << " imag " << e.imag); if (cp) { CHECK(i + 1 < n && r.isComplexPair[i + 1] && r.eigenvalues[i + 1].real == e.real && r.eigenvalues[i + 1].imag == -e.imag && e.imag > 0, w << ": conjugate pair at " << i); } CL l(e.real, e.imag); LD q = 0, nv = 0; for (int x = 0; x < n; x++) { CL v(r.eigenvectors(x, i), cp ? r.eigenvectors(x, i + 1) : 0.0); nv += std::norm(v); CL t = -l * v; for (int y = 0; y < n; y++) t += (LD)a[x][y] * CL(r.eigenvectors(y, i), cp ? r.eigenvectors(y, i + 1) : 0.0); q += std::norm(t); } CHECK_NEAR((double)nv, 1, 1e-10, w << ": eigenvector " << i << " is not normalised"); double rs = (double)std::sqrt(q); worst = std::max(worst, rs); CHECK(rs <= lim, w << ": |A v - lambda v| = " << rs << " for eigenvalue " << e.real << "+" << e.imag << "i"); if (cp) i++; }
	CHECK_NEAR(r.maxResidual, worst, 1e-12 * (frob(a) + 1), w << ": reported maxResidual");
}
static void spectrumOk(const std::vector<EigenSolver::ComplexEigenvalue>& ev, const Tab& a, double rel, const char* w) { int n = a.size(); double R = 1.5 * std::max(frob(a), 1e-3); for (int k = 0; k < 2 * n + 1; k++) { LD th = 2 * 3.14159265358979323846L * k / (2 * n + 1) + 0.3L; CL mu(R * std::cos(th), R * std::sin(th)), p = 1; for (auto& e : ev) p *= CL(e.real, e.imag) - mu; CL d = detC(a, mu); CHECK(std::abs(p - d) <= rel * std::abs(d), w << ": product of (lambda - mu) = (" << (double)p.real() << "," << (double)p.imag() << ") but det(A - mu I) = (" << (double)d.real() << "," << (double)d.imag() << "): the eigenvalues are not the spectrum of A"); } }
LAW(general, 2500, 25000) {
	int n = s.size(1, 9); std::string lab; Tab a = genGen(s, n, lab); c.nontrivial(n > 2); c.label(lab); c.say([&](auto& o) { o << lab << " A=" << str(a); }); Matrix<Real> A = toMat(a); double na = frob(a), tol = 1e-10; auto r = EigenSolver::Solve(A); CHECK(r.converged, "no convergence within the default limit, order " << n); pairsOk(r, a, 100.0 * n * tol * std::max(1.0, na), "general"); spectrumOk(r.eigenvalues, a, 200.0 * n * tol * std::max(1.0, 1 / std::max(na, 1e-3)), "general"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK(A(i, j) == a[i][j], "input changed");
	if (lab == "skew/symmetric" || lab == "normal") { bool sy = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sy &= a[i][j] == a[j][i]; if (sy) { auto q = SymmMatEigenSolverJacobi::Solve(A); std::vector<double> x; for (auto& e : r.eigenvalues) { CHECK(std::fabs(e.imag) <= 1e-6 * (1 + na), "complex eigenvalue of a symmetric matrix"); x.push_back(e.real); } std::sort(x.begin(), x.end()); for (int i = 0; i < n; i++) CHECK_NEAR(x[i], q.eigenvalues[i], 1e-8 * (1 + na), "general against symmetric solver"); } }
}
LAW(general_limits, 1500, 15000) {
	int n = s.size(2, 8); std::string lab; Tab a = genGen(s, n, lab); double tol = s.pwide(-12, -4), na = frob(a); int it = s.size(1, 25); c.nontrivial(n > 2); c.label(lab); c.say([&](auto& o) { o << lab << " tol=" << tol << " it=" << it << " A=" << str(a); }); EigenSolverConfig cf; cf.tolerance = tol; cf.max_iterations = it; auto r = EigenSolver::Solve(toMat(a), cf); c.label(r.converged ? "converged" : "limit"); CHECK((r.status == AlgorithmStatus::Success) == r.converged && r.error_message.empty() == r.converged, "status"); CHECK(r.iterations <= it + 1, "iterations " << r.iterations << " limit " << it); if (r.converged) { pairsOk(r, a, 300.0 * n * (tol + 1e-13) * std::max(1.0, na), "limited"); spectrumOk(r.eigenvalues, a, 500.0 * n * (tol + 1e-13) * std::max(1.0, 1 / std::max(na, 1e-3)), "limited"); }
}
static void similar(const Tab& a, const Matrix<Real>& H, const Matrix<Real>& Q, double lim, const char* w) { int n = a.size(); Tab q = toTab(Q), h = toTab(H), o = mulT(trT(q), q), b = mulT(q, mulT(h, trT(q))); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { CHECK_NEAR(o[i][j], (double)(i == j), 100.0 * n * EPS, w << ": Q not orthogonal"); CHECK_NEAR(b[i][j], a[i][j], lim, w << ": Q H Q' differs from the matrix at " << i << "," << j); if (i > j + 1) CHECK_NEAR(h[i][j], 0, lim, w << ": not Hessenberg at " << i << "," << j); } }
LAW(reductions, 2000, 20000) {
	int n = s.size(1, 9); std::string lab; Tab a = genGen(s, n, lab); c.nontrivial(n > 2); c.say([&](auto& o) { o << "A=" << str(a); }); double lim = 100.0 * n * EPS * frob(a) + 1e-28; auto h = EigenSolverHelpers::ReduceToHessenberg(toMat(a)); similar(a, h.H, h.Q, lim, "Hessenberg"); Tab t = toTab(h.H); for (int i = 0; i < n; i++) for (int j = 0; j + 1 < i; j++) t[i][j] = 0; auto q = EigenSolverHelpers::SingleQRStep(toMat(t)); similar(t, q.H, q.Q, lim, "QR step"); Real sh = s.real(-5, 5); auto q2 = EigenSolverHelpers::SingleQRStep(toMat(t), true, &sh); similar(t, q2.H, q2.Q, lim * (1 + std::fabs(sh)) + 1e-13, "shifted QR step");
	if (n >= 3) { int hi = n - 1 - (int)s.choice(n - 3), lo = (int)s.choice(hi - 2); Tab u = t; if (lo > 0) u[lo][lo - 1] = 0; if (hi + 1 < n) u[hi + 1][hi] = 0; auto f = EigenSolverHelpers::FrancisDoubleShift(toMat(u), lo, hi); similar(u, f.H, f.Q, lim * 4, "Francis step"); CHECK_NEAR(f.sigma1_real + f.sigma2_real, u[hi][hi] + u[hi - 1][hi - 1], 1e-13 * (1 + frob(a)), "shifts"); }
	double p = s.real(-9, 9), qq = s.real(-9, 9), r = s.real(-9, 9), d = s.real(-9, 9); auto e = EigenSolverHelpers::Eigenvalues2x2(p, qq, r, d); CHECK_NEAR(e.real1 + e.real2, p + d, 1e-13 * 40, "2x2 trace"); CHECK(e.imag1 == -e.imag2 && e.isComplex == (e.imag1 != 0), "2x2 flags"); double det = e.isComplex ? e.real1 * e.real1 + e.imag1 * e.imag1 : e.real1 * e.real2; CHECK_NEAR(det, p * d - qq * r, 1e-12 * 200, "2x2 determinant");
}
