// C05 stationary iterative solvers: truthful reports, reference iterates, guaranteed convergence
#include "common.h"
#include "core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h"

static double resid(const Tab& a, const std::vector<double>& b, const Vector<Real>& x) { LD q = 0, nb = 0; for (size_t i = 0; i < a.size(); i++) { LD r = -b[i]; for (size_t j = 0; j < b.size(); j++) r += (LD)a[i][j] * x[(int)j]; q += r * r; nb += (LD)b[i] * b[i]; } return (double)(std::sqrt(q) / (nb == 0 ? 1 : std::sqrt(nb))); }
static double rtol(const Tab& a, const std::vector<double>& b, const Vector<Real>& x) { double m = 0, nb = 0; for (double t : b) nb += t * t; nb = nb == 0 ? 1 : std::sqrt(nb); for (int i = 0; i < x.size(); i++) m = std::max(m, std::fabs(x[i])); return 8.0 * a.size() * EPS * (normInf(a) * m * std::sqrt((double)a.size()) + nb) / nb; }
struct Sys { Tab a; std::vector<double> b, x0; int cls; double q; };   // cls 0: strictly diagonally dominant, 1: symmetric positive definite, 2: anything with non-zero diagonal
static Sys gen(Src& s, int cls) {
	Sys y; y.cls = cls; int n = s.size(1, 8); y.q = 0;
	if (cls == 0) { y.a = genReal(s, n, n, -5, 5); double th = s.uni(0.05, 0.8); for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) if (j != i) t += std::fabs(y.a[i][j]); y.a[i][i] = std::max(t / th, 0.5) * (s.b() ? 1 : -1); y.q = std::max(y.q, t / std::fabs(y.a[i][i])); } }
	else if (cls == 1) { Tab u = genOrtho(s, n); std::vector<double> d(n); for (auto& t : d) t = s.uni(1, 30); y.a = mkTab(n, n, [&](int i, int j) { LD t = 0; for (int k = 0; k < n; k++) t += (LD)u[i][k] * d[k] * u[j][k]; return (double)t; }); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) y.a[i][j] = y.a[j][i]; }
	else { y.a = genInt(s, n, n, 5); for (int i = 0; i < n; i++) if (y.a[i][i] == 0) y.a[i][i] = 1; }
	if (cls < 2 && s.chance(1, 4)) { double sc = std::pow(2.0, (double)s.i(-20, 40)); for (auto& r : y.a) for (auto& x : r) x *= sc; }
	y.b = genRealV(s, n); if (s.chance(1, 8)) y.b.assign(n, 0.0); if (s.b()) y.x0 = genRealV(s, n, -20, 20);
	if (s.chance(1, 3)) { double sc = std::pow(2.0, (double)s.i(-60, 40)); for (auto& x : y.b) x *= sc; for (auto& x : y.x0) x *= sc; } return y;
}
static void describe(Case& c, const Sys& y, double tol, int it) { c.nontrivial(y.a.size() > 2); c.label("class" + std::to_string(y.cls)); c.say([&](auto& o) { o << "A=" << str(y.a) << " b=" << str(y.b) << " x0=" << str(y.x0) << " tol=" << tol << " maxIter=" << it; }); }
// method 0 Jacobi, 1 Gauss-Seidel, 2 SOR
static IterativeSolverResult run(int me, const Sys& y, double om, double tol, int it) { Matrix<Real> A = toMat(y.a); Vector<Real> b = toVec(y.b), x0 = toVec(y.x0); IterativeSolverResult r; if (me == 0) r = JacobiSolver::Solve(A, b, x0, tol, it); else if (me == 1) r = GaussSeidelSolver::Solve(A, b, x0, tol, it); else r = SORSolver::Solve(A, b, om, x0, tol, it); for (int i = 0; i < A.rows(); i++) { CHECK(b[i] == y.b[i], "b changed"); for (int j = 0; j < A.cols(); j++) CHECK(A(i, j) == y.a[i][j], "A changed"); } for (int i = 0; i < x0.size(); i++) CHECK(x0[i] == y.x0[i], "x0 changed"); return r; }
static void truthful(const IterativeSolverResult& r, const Sys& y, double tol, int it, const char* w) {
	CHECK(r.solution.size() == (int)y.b.size(), w << " size"); bool fin = true; for (int i = 0; i < r.solution.size(); i++) fin &= std::isfinite(r.solution[i]) && std::fabs(r.solution[i]) < 1e150; CHECK(r.iterations >= (it > 0 ? 1 : 0) && r.iterations <= it, w << ": " << r.iterations << " iterations reported with a limit of " << it);
	if (fin) { double e = resid(y.a, y.b, r.solution); CHECK_NEAR(r.residual, e, rtol(y.a, y.b, r.solution), w << ": reported residual"); CHECK(r.converged == (r.residual < tol) || it == 0, w << ": converged=" << r.converged << " with residual " << r.residual << " and tolerance " << tol); } else CHECK(!r.converged, w << ": a diverged iterate is reported as converged"); if (!r.converged) CHECK(r.iterations == it, w << ": stopped early without convergence");
}
static std::vector<LD> refStep(int me, const Sys& y, double om, int it) { int n = y.b.size(); std::vector<LD> x(n, 0); if (!y.x0.empty()) for (int i = 0; i < n; i++) x[i] = y.x0[i]; for (int k = 0; k < it; k++) { std::vector<LD> o = x; for (int i = 0; i < n; i++) { LD t = y.b[i]; for (int j = 0; j < n; j++) if (j != i) t -= (LD)y.a[i][j] * (me == 0 ? o[j] : x[j]); t /= y.a[i][i]; x[i] = me == 2 ? (1 - (LD)om) * o[i] + (LD)om * t : t; } } return x; }

LAW(iterates, 2500, 25000) {
	int cls = (int)s.choice(2); Sys y = gen(s, cls); int it = s.size(0, 6), me = (int)s.choice(2); double om = s.uni(0.05, 1.95); describe(c, y, 0, it); c.say([&](auto& o) { o << "method " << me << " omega " << om; }); IterativeSolverResult r = run(me, y, om, 1e-300, it); if (r.converged) { CHECK(r.residual == 0, "converged below 1e-300 with residual " << r.residual); return; } auto x = refStep(me, y, om, it); LD mx = 1; for (int k = 0; k <= it; k++) for (LD t : refStep(me, y, om, k)) mx = std::max(mx, std::fabs(t)); double g = 1; for (size_t i = 0; i < y.a.size(); i++) { double t = 0; for (double v : y.a[i]) t += std::fabs(v); g = std::max(g, t / std::fabs(y.a[i][i])); } DISCARD_IF(mx > 1e6); for (int i = 0; i < r.solution.size(); i++) CHECK_NEAR(r.solution[i], (double)x[i], 20.0 * EPS * (it + 1) * y.b.size() * (double)mx * std::pow(2 * g, it), "component " << i << " after " << it << " iterations of method " << me); truthful(r, y, 1e-300, it, "limit");
}
LAW(reports, 2500, 25000) {
	int cls = (int)s.choice(2); Sys y = gen(s, cls); int it = s.size(0, 200), me = (int)s.choice(2); double om = s.uni(0.05, 1.95), tol = s.pwide(-13, 1); describe(c, y, tol, it); IterativeSolverResult r = run(me, y, om, tol, it); truthful(r, y, tol, it, me == 0 ? "Jacobi" : me == 1 ? "Gauss-Seidel" : "SOR"); c.label(r.converged ? "converged" : "limit");
	IterativeSolverConfig cf(tol, it); cf.omega = om; Matrix<Real> A = toMat(y.a); Vector<Real> b = toVec(y.b), x0 = toVec(y.x0); IterativeSolverResult k = me == 0 ? JacobiSolver::Solve(A, b, cf, x0) : me == 1 ? GaussSeidelSolver::Solve(A, b, cf, x0) : SORSolver::Solve(A, b, cf, x0); CHECK(k.converged == r.converged && k.iterations == r.iterations, "config overload differs"); for (int i = 0; i < b.size(); i++) CHECK(k.solution[i] == r.solution[i] || (k.solution[i] != k.solution[i] && r.solution[i] != r.solution[i]), "config overload differs"); CHECK((k.status == AlgorithmStatus::Success) == k.converged && k.error_message.empty() == k.converged, "status of config overload"); if (!k.converged) CHECK(k.status == AlgorithmStatus::MaxIterationsExceeded, ""); if (me == 2) CHECK(k.omega_used == om, "omega_used");
	if (me == 2) { Sys z = y; IterativeSolverResult g = run(1, z, 1, tol, it), h = run(2, z, 1.0, tol, it); CHECK(g.iterations == h.iterations && g.converged == h.converged, "SOR with omega 1 is Gauss-Seidel"); }
	bool th = false; Vector<Real> v; try { v = me == 0 ? JacobiSolver::SolveSimple(A, b, tol, it) : me == 1 ? GaussSeidelSolver::SolveSimple(A, b, tol, it) : SORSolver::SolveSimple(A, b, om, tol, it); } catch (const ConvergenceError&) { th = true; } Sys z = y; z.x0.clear(); IterativeSolverResult r0 = run(me, z, om, tol, it); CHECK(th == !r0.converged, "SolveSimple must throw exactly when not converged"); if (!th) for (int i = 0; i < b.size(); i++) CHECK(v[i] == r0.solution[i], "SolveSimple");
}
LAW(guaranteed, 2500, 25000) {
	int cls = s.b() ? 1 : 0; Sys y = gen(s, cls); int me = cls == 1 ? 1 + (int)s.choice(1) : (int)s.choice(2); double om = cls == 1 ? s.uni(0.1, 1.9) : s.uni(0.1, 1.0), tol = s.pwide(-11, -2); int it = 60000; describe(c, y, tol, it); double cd = condInf(y.a); if (cls == 0) DISCARD_IF(cd > 1e4); IterativeSolverResult r = run(me, y, om, tol, it); CHECK(r.converged, "method " << me << " omega " << om << " did not converge, residual " << r.residual); truthful(r, y, tol, it, "guaranteed"); std::vector<std::vector<LD>> iv; CHECK(invLD(y.a, iv), ""); double nb = 0; for (double t : y.b) nb += t * t; nb = nb == 0 ? 1 : std::sqrt(nb); for (size_t i = 0; i < y.b.size(); i++) { LD e = 0, rowsq = 0; for (size_t j = 0; j < y.b.size(); j++) { e += iv[i][j] * y.b[j]; rowsq += iv[i][j] * iv[i][j]; } CHECK_NEAR(r.solution[(int)i], (double)e, tol * nb * (double)std::sqrt(rowsq) * 1.01 + 1e-12 * cd * (double)std::fabs(e), "solution component " << i); }
	if (cls == 0 && me == 0) { double q = y.q; int bound = q < 1e-9 ? 3 : (int)(std::log(std::min(1.0, tol * nb / (4.0 * y.b.size() * normInf(y.a) * (maxAbs(y.x0) + cd * nb / normInf(y.a))))) / std::log(q)) + 10; CHECK(r.iterations <= bound, "Jacobi took " << r.iterations << " iterations with contraction factor " << q); }
	double w = SORSolver::EstimateOptimalOmega(toMat(y.a), toVec(y.b), 5, 10); CHECK(w >= 1 && w <= 1.95 + 1e-12, "estimated omega " << w); if (cls == 1) { IterativeSolverResult o = SORSolver::SolveOptimal(toMat(y.a), toVec(y.b), toVec(y.x0), tol, it); truthful(o, y, tol, it, "SolveOptimal"); CHECK(o.converged, "SolveOptimal"); }
}
LAW(rejects, 600, 6000) {
	Sys y = gen(s, 0); int n = y.b.size(), k = (int)s.i(0, n - 1); c.nontrivial(n > 1); c.say([&](auto& o) { o << n << " " << k << " " << str(y.a); }); Tab z = y.a; z[k][k] = 0; Matrix<Real> Z = toMat(z), A = toMat(y.a), R(n, n + 1); Vector<Real> b = toVec(y.b), w(n + 1); double om = s.pick({0.0, -0.5, 2.0, 2.5}); CHECK_THROWS(JacobiSolver::Solve(Z, b), SingularMatrixError, ""); CHECK_THROWS(GaussSeidelSolver::Solve(Z, b), SingularMatrixError, ""); CHECK_THROWS(SORSolver::Solve(Z, b, 1.1), SingularMatrixError, ""); CHECK_THROWS(SORSolver::Solve(A, b, om), NumericalMethodError, "omega " << om); CHECK_THROWS(JacobiSolver::Solve(A, w), MatrixDimensionError, ""); CHECK_THROWS(GaussSeidelSolver::Solve(A, w), MatrixDimensionError, ""); CHECK_THROWS(SORSolver::Solve(A, w, 1.0), MatrixDimensionError, ""); CHECK_THROWS(JacobiSolver::Solve(R, b), MatrixDimensionError, ""); CHECK_THROWS(GaussSeidelSolver::Solve(R, b), MatrixDimensionError, ""); CHECK_THROWS(SORSolver::Solve(R, b, 1.0), MatrixDimensionError, "");
}
