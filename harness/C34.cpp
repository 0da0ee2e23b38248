// C34: implicit ODE methods on stiff systems with known solutions, index-1 DAE solvers
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "interfaces/IODESystem.h"
#include "base/ODESystem.h"
#include "base/ODESystemSolution.h"
#include "algorithms/ODESolvers/ODESolverStiff.h"
#include "algorithms/DAESolvers.h"
// smooth target functions: sum of a constant, a slope and a sinusoid
struct Fn { double c, m, a, w, p; LD v(LD t, int d = 0) const { LD s = d % 4 == 0 ? sinl(w * t + p) : d % 4 == 1 ? cosl(w * t + p) : d % 4 == 2 ? -sinl(w * t + p) : -cosl(w * t + p); return (d == 0 ? c + m * t : d == 1 ? m : 0) + a * powl(w, d) * s; } double mx(int d) const { return std::fabs(a) * std::pow(w, d) + (d == 0 ? std::fabs(c) + 10 * std::fabs(m) : d == 1 ? std::fabs(m) : 0); } };
static Fn fn(Src& s) { return { s.uni(-1, 1), s.b() ? 0 : s.uni(-1, 1), s.uni(-1.5, 1.5), s.uni(0.2, 2), s.uni(-3, 3) }; }
// y' = Q (-L (z - phi - k (z-phi)^3) + phi'), y = Q z : contractive, exact solution Q phi (plus decaying modes when linear)
struct Sys { int n; std::vector<double> lam, c0, kap; std::vector<Fn> ph; std::vector<std::vector<LD>> Q, R; LD cond; double T0; std::string d; LD z(int i, LD t) const { return ph[i].v(t - T0) + c0[i] * expl(-lam[i] * (t - T0)); } LD y(int i, LD t) const { LD r = 0; for (int j = 0; j < n; j++) r += Q[i][j] * z(j, t); return r; }
	void F(Real t, const Vector<Real>& y, Vector<Real>& f) const { std::vector<LD> g(n); for (int j = 0; j < n; j++) { LD zz = 0; for (int k = 0; k < n; k++) zz += R[j][k] * y[k]; LD e = zz - ph[j].v((LD)t - T0); g[j] = -lam[j] * (e + kap[j] * e * e * e) + ph[j].v((LD)t - T0, 1); } for (int i = 0; i < n; i++) { LD r = 0; for (int j = 0; j < n; j++) r += Q[i][j] * g[j]; f[i] = (double)r; } }
	void J(Real t, const Vector<Real>& y, Vector<Real>& f, Matrix<Real>& M) const { F(t, y, f); std::vector<LD> g(n); for (int j = 0; j < n; j++) { LD zz = 0; for (int k = 0; k < n; k++) zz += R[j][k] * y[k]; LD e = zz - ph[j].v((LD)t - T0); g[j] = -lam[j] * (1 + 3 * kap[j] * e * e); } for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) { LD r = 0; for (int j = 0; j < n; j++) r += Q[i][j] * g[j] * R[j][k]; M(i, k) = (double)r; } } };
static void rot(Src& s, int n, std::vector<std::vector<LD>>& Q, std::vector<std::vector<LD>>& R) { Q.assign(n, std::vector<LD>(n, 0)); for (int i = 0; i < n; i++) Q[i][i] = 1; for (int k = 0; k < n; k++) { int a = (int)s.i(0, n - 1), b = (int)s.i(0, n - 1); if (a == b) continue; LD th = s.uni(-3, 3), cc = cosl(th), ss = sinl(th); for (int j = 0; j < n; j++) { LD x = Q[a][j], y = Q[b][j]; Q[a][j] = cc * x - ss * y; Q[b][j] = ss * x + cc * y; } } R.assign(n, std::vector<LD>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R[i][j] = Q[j][i]; }
static Sys sys(Src& s, double lmax, bool nl) { Sys S; S.n = (int)s.i(1, 4); S.T0 = s.b() ? 0 : s.uni(-5, 5); rot(s, S.n, S.Q, S.R); for (int i = 0; i < S.n; i++) { S.lam.push_back(std::pow(10.0, s.uni(-1, std::log10(lmax)))); S.ph.push_back(fn(s)); S.kap.push_back(nl && s.b() ? s.uni(0, 2) : 0); S.c0.push_back(0); } S.d = "n=" + std::to_string(S.n) + " T0=" + fmt(S.T0) + " lambda"; for (double l : S.lam) S.d += " " + fmt(l); return S; }
struct LinTest { double lam, x0; };

// every saved step satisfies the method's implicit equation; error within the order's bound at any stiffness
LAW(stiff_multistep, 1500, 15000) { int M = (int)s.i(0, 1); Sys S = sys(s, 1e7, true); double T = s.uni(0.5, 4), h = s.chance(1, 3) ? T / (int)s.i(2, 200) : T / s.uni(2, 200); bool cfg = s.b(); c.say([&](auto& o) { o << (M ? "BDF2 " : "BackwardEuler ") << S.d << " T=" << fmt(T) << " h=" << fmt(h) << " cfg=" << cfg; }); double lx = *std::max_element(S.lam.begin(), S.lam.end()); c.nontrivial(lx * h > 2); c.label(M ? "BDF2" : "BackwardEuler");
	// transient modes that the steps resolve
	for (int i = 0; i < S.n; i++) if (S.kap[i] == 0 && S.lam[i] * h < 0.2) S.c0[i] = 0.7; int n = S.n; ODESystemWithJacobianFromStdFunc ode(n, [&](Real t, const Vector<Real>& y, Vector<Real>& f) { S.F(t, y, f); }, [&](const Real t, const Vector<Real>& y, Vector<Real>& f, Matrix<Real>& J) { S.J(t, y, f, J); }); Vector<Real> y0(n); for (int i = 0; i < n; i++) y0[i] = (double)S.y(i, S.T0); double T1 = S.T0 + T, tol = 1e-9 + 1e-14 * lx * h * 20; int rc = 0; ODESystemSolution sol(S.T0, T1, n, 1); if (cfg) { StiffSolverConfig C; C.step_size = h; C.newton_tol = tol; C.max_newton_iter = 30; auto r = M ? SolveBDF2(ode, S.T0, y0, T1, C) : SolveBackwardEuler(ode, S.T0, y0, T1, C); CHECK(r.status == AlgorithmStatus::Success, "status: " << r.error_message); CHECK(r.total_steps == r.solution.size() - 1, "total steps " << r.total_steps); sol = r.solution; } else sol = M ? SolveBDF2(ode, S.T0, y0, T1, h, 30, tol) : SolveBackwardEuler(ode, S.T0, y0, T1, h, 30, tol); (void)rc;
	int N = sol.size(); CHECK(sol.getTValue(0) == S.T0, "start"); CHECK(std::fabs(sol.getTValue(N - 1) - T1) < 1e-9 * h + 1e-13 * (1 + std::fabs(T1)), "the solution ends at " << fmt(sol.getTValue(N - 1)) << " instead of " << fmt(T1)); LD err2 = 0, mx = 0; for (int i = 0; i < n; i++) mx = std::max(mx, (LD)(M ? S.ph[i].mx(3) + S.ph[i].mx(2) + fabsl(S.c0[i]) * powl(S.lam[i], 3) + fabsl(S.c0[i]) * powl(S.lam[i], 2) : S.ph[i].mx(2) + fabsl(S.c0[i]) * powl(S.lam[i], 2))); LD bound = (M ? 3 * h * h : h) * mx * T * n + N * (LD)tol * 3 * n; Vector<Real> f(n); for (int k = 0; k < N; k++) { double t = sol.getTValue(k); if (k) { double hk = t - sol.getTValue(k - 1); CHECK(hk > 0 && hk <= h * (1 + 1e-9), "step " << hk << " with step size " << h); Vector<Real> y(n), p(n), q(n); for (int i = 0; i < n; i++) { y[i] = sol.getXValue(k, i); p[i] = sol.getXValue(k - 1, i); if (k > 1) q[i] = sol.getXValue(k - 2, i); } S.F(t, y, f); LD r = 0, sc = 0; for (int i = 0; i < n; i++) { LD e = M && k > 1 ? (LD)y[i] - (4 * (LD)p[i] - q[i]) / 3 - 2 * (LD)hk * f[i] / 3 : (LD)y[i] - p[i] - (LD)hk * f[i]; r += e * e; sc = std::max(sc, fabsl(f[i])); } CHECK(sqrtl(r) < tol * 1.01L + 1e-14L * (1 + fabsl(t)) * (sc + lx * 10) * 10, "the implicit equation is not satisfied at step " << k << ": residual " << (double)sqrtl(r)); } for (int i = 0; i < n; i++) { LD e = fabsl(sol.getXValue(k, i) - S.y(i, t)); err2 = std::max(err2, e); } } CHECK(err2 <= bound, "error " << (double)err2 << " above the bound " << (double)bound << " of the method's order"); }

LAW(rosenbrock, 150, 1500) { Sys S = sys(s, 1e6, true); for (int i = 0; i < S.n; i++) if (s.chance(1, 3)) { S.c0[i] = S.kap[i] == 0 ? s.uni(-1, 1) : 0; } double T = s.uni(0.5, 4), tol = std::pow(10.0, s.uni(-7, -3)), h0 = T * std::pow(10.0, s.uni(-4, -0.5)); bool cfg = s.b(); c.say([&](auto& o) { o << S.d << " T=" << fmt(T) << " tol=" << fmt(tol) << " h0=" << fmt(h0); }); int n = S.n; double lx = *std::max_element(S.lam.begin(), S.lam.end()); ODESystemWithJacobianFromStdFunc ode(n, [&](Real t, const Vector<Real>& y, Vector<Real>& f) { S.F(t, y, f); }, [&](const Real t, const Vector<Real>& y, Vector<Real>& f, Matrix<Real>& J) { S.J(t, y, f, J); }); Vector<Real> y0(n); for (int i = 0; i < n; i++) y0[i] = (double)S.y(i, S.T0); double T1 = S.T0 + T; ODESystemSolution sol(S.T0, T1, n, 1); Rosenbrock23Solver ros(ode, tol, tol); if (cfg) { StiffSolverConfig C; C.step_size = h0; C.tolerance = tol; auto r = ros.Solve(y0, S.T0, T1, C); CHECK(r.status == AlgorithmStatus::Success, "status: " << r.error_message); sol = r.solution; } else sol = ros.Solve(S.T0, y0, T1, h0);
	int N = sol.size(); c.nontrivial(N > 10 && lx * T / N > 2); CHECK(sol.getTValue(0) == S.T0 && std::fabs(sol.getTValue(N - 1) - T1) < 1e-12 * (1 + std::fabs(T1)), "interval not covered"); LD sc = 0, err = 0; for (int i = 0; i < n; i++) sc += S.ph[i].mx(0) + fabsl(S.c0[i]); for (int k = 0; k < N; k++) { if (k) CHECK(sol.getTValue(k) > sol.getTValue(k - 1), "times not increasing"); for (int i = 0; i < n; i++) err = std::max(err, fabsl(sol.getXValue(k, i) - S.y(i, sol.getTValue(k)))); } LD bound = tol * (1 + sc) * (N + 3) * 3 * n; CHECK(err <= bound, "error " << (double)err << " with tolerance " << tol << " after " << N << " steps"); CHECK(N < 100 + (2 * T + 6 * n) * (1 + (double)sc) * 8 / std::sqrt(tol), "explicit-like step count " << N); }

// the stability function of each method on the test equation, written as an index-1 system x' = -a x + b y, 0 = y - c x
struct Dae : IODESystemDAEWithJacobian { int nx, ny; double T0; std::vector<std::vector<LD>> A, B, C, D; std::vector<Fn> X, Y; double kap; mutable int bad = 0; int getDiffDim() const override { return nx; } int getAlgDim() const override { return ny; }
	LD sig(LD y) const { return y + kap * y * y * y; } LD dsig(LD y) const { return 1 + 3 * kap * y * y; }
	void diffEqs(Real t, const Vector<Real>& x, const Vector<Real>& y, Vector<Real>& f) const override { LD u = (LD)t - T0; for (int i = 0; i < nx; i++) { LD r = X[i].v(u, 1); for (int j = 0; j < nx; j++) r += A[i][j] * (x[j] - X[j].v(u)); for (int j = 0; j < ny; j++) r += B[i][j] * (y[j] - Y[j].v(u)); f[i] = (double)r; } }
	void algConstraints(Real t, const Vector<Real>& x, const Vector<Real>& y, Vector<Real>& g) const override { LD u = (LD)t - T0; for (int i = 0; i < ny; i++) { LD r = 0; for (int j = 0; j < nx; j++) r += C[i][j] * (x[j] - X[j].v(u)); for (int j = 0; j < ny; j++) r += D[i][j] * (sig(y[j]) - sig(Y[j].v(u))); g[i] = (double)r; } }
	void jacobian_fx(Real, const Vector<Real>&, const Vector<Real>&, Matrix<Real>& M) const override { for (int i = 0; i < nx; i++) for (int j = 0; j < nx; j++) M(i, j) = (double)A[i][j]; }
	void jacobian_fy(Real, const Vector<Real>&, const Vector<Real>&, Matrix<Real>& M) const override { for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) M(i, j) = (double)B[i][j]; }
	void jacobian_gx(Real, const Vector<Real>&, const Vector<Real>&, Matrix<Real>& M) const override { for (int i = 0; i < ny; i++) for (int j = 0; j < nx; j++) M(i, j) = (double)C[i][j]; }
	void jacobian_gy(Real, const Vector<Real>&, const Vector<Real>& y, Matrix<Real>& M) const override { for (int i = 0; i < ny; i++) for (int j = 0; j < ny; j++) M(i, j) = (double)(D[i][j] * dsig(y[j])); } };
static const char* DN[5] = { "BackwardEuler", "BDF2", "BDF4", "RODAS", "RadauIIA" };
static DAESolverResult dae(int k, IODESystemDAEWithJacobian& S, double t0, const Vector<Real>& x, const Vector<Real>& y, double t1, const DAESolverConfig& C) { switch (k) { case 0: return SolveDAEBackwardEuler(S, t0, x, y, t1, C); case 1: return SolveDAEBDF2(S, t0, x, y, t1, C); case 2: return SolveDAEBDF4(S, t0, x, y, t1, C); case 3: return SolveDAERODAS(S, t0, x, y, t1, C); default: return SolveDAERadauIIA(S, t0, x, y, t1, C); } }
LAW(dae_order, 1200, 12000) { int M = (int)s.i(0, 4); Dae S; S.nx = (int)s.i(1, 3); S.ny = (int)s.i(1, 3); S.T0 = s.b() ? 0 : s.uni(-4, 4); S.kap = s.b() ? 0 : s.uni(0, 1); std::vector<std::vector<LD>> Q, R; rot(s, S.nx, Q, R); std::vector<double> lam; double lmax = s.b() ? 2 : 1e4; for (int i = 0; i < S.nx; i++) lam.push_back(s.chance(1, 6) ? -s.uni(0, 0.3) : std::pow(10.0, s.uni(-1, std::log10(lmax)))); auto mat = [&](int r, int q, double m) { std::vector<std::vector<LD>> A(r, std::vector<LD>(q)); for (auto& row : A) for (auto& v : row) v = s.uni(-m, m); return A; }; S.B = mat(S.nx, S.ny, 1); S.C = mat(S.ny, S.nx, 1); S.D = mat(S.ny, S.ny, 0.3); for (int i = 0; i < S.ny; i++) S.D[i][i] += s.b() ? 1.2 : -1.2; for (int i = 0; i < S.nx; i++) S.X.push_back(fn(s)); for (int i = 0; i < S.ny; i++) S.Y.push_back(fn(s)); if (S.kap) for (auto& f : S.Y) { f.m = 0; f.c *= 0.5; } S.A.assign(S.nx, std::vector<LD>(S.nx, 0)); for (int i = 0; i < S.nx; i++) for (int j = 0; j < S.nx; j++) for (int k = 0; k < S.nx; k++) S.A[i][j] -= Q[i][k] * lam[k] * R[k][j]; if (S.kap == 0) { // effective matrix A - B D^-1 C has the chosen spectrum: add B D^-1 C
		std::vector<std::vector<LD>> E = S.D, W = S.C; for (int p = 0; p < S.ny; p++) { int b = p; for (int i = p; i < S.ny; i++) if (fabsl(E[i][p]) > fabsl(E[b][p])) b = i; std::swap(E[p], E[b]); std::swap(W[p], W[b]); for (int i = 0; i < S.ny; i++) if (i != p) { LD m = E[i][p] / E[p][p]; for (int j = 0; j < S.ny; j++) E[i][j] -= m * E[p][j]; for (int j = 0; j < S.nx; j++) W[i][j] -= m * W[p][j]; } } for (int p = 0; p < S.ny; p++) for (int j = 0; j < S.nx; j++) { W[p][j] /= E[p][p]; for (int i = 0; i < S.nx; i++) S.A[i][j] += S.B[i][p] * W[p][j]; } } else { for (auto& r : S.B) for (auto& v : r) v *= 0.2; }
	double T = s.uni(0.4, 3), h = s.chance(1, 3) ? T / (int)s.i(1, 60) : T / s.uni(1, 60), T1 = S.T0 + T; DISCARD_IF(S.kap && h > 0.1); DAESolverConfig C; C.step_size = h; C.newton_tol = 1e-11 * (1 + h * lmax * 1e-3); C.max_newton_iter = 40; c.say([&](auto& o) { o << DN[M] << " nx=" << S.nx << " ny=" << S.ny << " kap=" << fmt(S.kap) << " T0=" << fmt(S.T0) << " T=" << fmt(T) << " h=" << fmt(h) << " lambda"; for (double l : lam) o << " " << fmt(l); }); c.label(DN[M]); c.nontrivial(T / h > 5); Vector<Real> x0(S.nx), y0(S.ny); for (int i = 0; i < S.nx; i++) x0[i] = (double)S.X[i].v(0); for (int i = 0; i < S.ny; i++) y0[i] = (double)S.Y[i].v(0);
	CHECK(VerifyConsistentIC(S, S.T0, x0, y0), "consistent initial values rejected"); Vector<Real> yp = y0; for (int i = 0; i < S.ny; i++) yp[i] += s.uni(-0.3, 0.3); CHECK(ComputeConsistentIC(S, S.T0, x0, yp, 30, 1e-12), "no consistent initial values found"); for (int i = 0; i < S.ny; i++) CHECK_NEAR((LD)yp[i], (LD)y0[i], 1e-10L, "consistent initial value " << i);
	auto r = dae(M, S, S.T0, x0, y0, T1, C); CHECK(r.status == AlgorithmStatus::Success, "status: " << r.error_message); auto& sol = r.solution; int N = sol.size(); CHECK(r.total_steps == N - 1, "total steps " << r.total_steps << " with " << N << " points"); CHECK(sol.getTValue(0) == S.T0 && std::fabs(sol.getTValue(N - 1) - T1) < 1e-9 * h + 1e-13 * (1 + std::fabs(T1)), "the solution ends at " << fmt(sol.getTValue(N - 1)) << " instead of " << fmt(T1)); LD ex = 0, ey = 0, gm = 0; Vector<Real> x(S.nx), y(S.ny), g(S.ny); for (int k = 0; k < N; k++) { double t = sol.getTValue(k); if (k) { double hk = t - sol.getTValue(k - 1); CHECK(hk > 0 && hk <= h * (1 + 1e-9), "step " << hk << " at " << k << " with step size " << h); } for (int i = 0; i < S.nx; i++) { x[i] = sol.getXValue(k, i); ex = std::max(ex, fabsl(x[i] - S.X[i].v((LD)t - S.T0))); } for (int i = 0; i < S.ny; i++) { y[i] = sol.getYValue(k, i); ey = std::max(ey, fabsl(y[i] - S.Y[i].v((LD)t - S.T0))); } S.algConstraints(t, x, y, g); gm = std::max(gm, (LD)g.NormL2()); } CHECK(r.max_constraint_violation <= gm * (1 + 1e-9) + 1e-15 && gm <= r.max_constraint_violation + 1e-11, "reported constraint violation " << r.max_constraint_violation << ", actual " << (double)gm);
	int p = M == 0 ? 1 : M == 1 ? 2 : M == 2 ? 4 : M == 3 ? 2 : 3; LD mx = 0; for (auto& f : S.X) mx = std::max<LD>(mx, f.mx(p + 1) + f.mx(p)); for (auto& f : S.Y) mx = std::max<LD>(mx, f.mx(p + 1) + f.mx(p) + (S.kap ? 3 : 0)); LD K = (M == 1 ? 3 : M == 2 ? 6 : M == 3 ? 4 : 1) * 4.0L * S.nx * S.ny, bx = K * powl(h, p) * mx * (T + h) + 1e-9L * (1 + h * lmax * 1e-3); LD stiff = M == 3 ? 1 + (S.kap ? 20 : 5) : 1; if (M != 3) CHECK(gm < 2 * C.newton_tol + 1e-13, "constraint violated by " << (double)gm); if (M == 3) { if (lmax > 10) bx += K * h * h * mx * 20; CHECK(gm < bx * 20, "constraint violated by " << (double)gm << " with h=" << h); } CHECK(ex <= bx * stiff, "differential error " << (double)ex << " above the bound " << (double)bx << " of order " << p); CHECK(ey <= bx * 12 * stiff, "algebraic error " << (double)ey << " above the bound " << (double)(bx * 12)); }

LAW(stability_function, 800, 8000) { int M = (int)s.i(0, 4); double lam = std::pow(10.0, s.uni(-1, 6)), b = s.uni(-1, 1) * lam, d = s.b() ? -s.uni(0.4, 3) : s.uni(0.4, 3), cc = s.uni(-1, 1); if (s.chance(1, 3)) d = s.uni(0.5, 2); Dae S; S.nx = S.ny = 1; S.T0 = 0; S.kap = 0; Fn z{ 0, 0, 0, 1, 0 }; S.X = { z }; S.Y = { z }; S.B = { { (LD)b } }; S.C = { { (LD)cc } }; S.D = { { (LD)d } }; S.A = { { -(LD)lam + (LD)b * cc / d } }; double h = std::pow(10.0, s.uni(-3, -0.5)); int N = (int)s.i(4, 20); double x0 = s.uni(0.5, 2); c.say([&](auto& o) { o << DN[M] << " lambda=" << fmt(lam) << " h=" << fmt(h) << " N=" << N << " b=" << fmt(b) << " c=" << fmt(cc) << " d=" << fmt(d); }); c.nontrivial(lam * h > 2); c.label(DN[M]); Vector<Real> x(1), y(1); x[0] = x0; y[0] = -cc * x0 / d; DAESolverConfig C; C.step_size = h; C.newton_tol = 1e-12 + 1e-15 * h * lam * 40; C.max_newton_iter = 30; auto r = dae(M, S, 0, x, y, N * h, C); CHECK(r.status == AlgorithmStatus::Success, "status: " << r.error_message); CHECK(r.solution.size() == N + 1, r.solution.size() << " points"); LD q = (LD)lam * h; std::vector<LD> w{ x0 }; auto rad = [&](LD v) { return v * (1 - 2 * q / 5 + q * q / 20) / (1 + 3 * q / 5 + 3 * q * q / 20 + q * q * q / 60); }; for (int k = 1; k <= N; k++) { LD p = w.back(); switch (M) { case 0: w.push_back(p / (1 + q)); break; case 1: w.push_back(k == 1 ? p / (1 + q) : (4 * p - w[k - 2]) / 3 / (1 + 2 * q / 3)); break; case 2: w.push_back(k <= 3 ? rad(p) : (48 * p - 36 * w[k - 2] + 16 * w[k - 3] - 3 * w[k - 4]) / (25 + 12 * q)); break; case 3: w.push_back(p * (1 - q / 2) / (1 + q / 2)); break; default: w.push_back(rad(p)); } } LD tol = N * 4e-12L + 1e-14L * q; for (int k = 0; k <= N; k++) { CHECK_NEAR((LD)r.solution.getXValue(k, 0), w[k], tol * 4, DN[M] << " on the test equation, step " << k); CHECK(std::fabs(r.solution.getXValue(k, 0)) <= 1.2 * x0 + 1e-9, "unstable"); } }

LAW(failure_reported, 150, 1500) { int M = (int)s.i(0, 4); double lam = s.uni(1, 100), h = s.uni(0.003, 0.03); int N = (int)s.i(6, 60), lim = (int)s.i(1, N); c.say([&](auto& o) { o << DN[M] << " lambda=" << fmt(lam) << " h=" << fmt(h) << " N=" << N << " max_steps=" << lim; }); c.nontrivial(true); Dae S; S.nx = S.ny = 1; S.T0 = 0; S.kap = 0.5; S.X = { fn(s) }; S.Y = { fn(s) }; S.X[0].a += 2; S.A = { { -(LD)lam } }; S.B = { { 0.3L } }; S.C = { { 0.5L } }; S.D = { { 1.0L } }; Vector<Real> x(1), y(1); x[0] = (double)S.X[0].v(0); y[0] = (double)S.Y[0].v(0); DAESolverConfig C; C.step_size = h; C.max_steps = lim; auto r = dae(M, S, 0, x, y, N * h, C); CHECK(r.status != AlgorithmStatus::Success && !r.error_message.empty(), "truncated solution (" << r.solution.size() << " of " << N + 1 << " points) reported as a success"); C.max_steps = 100000; auto ok = dae(M, S, 0, x, y, N * h, C); CHECK(ok.status == AlgorithmStatus::Success && ok.solution.size() == N + 1, "run without a step limit"); if (M != 3) { C.max_newton_iter = 1; C.newton_tol = 1e-14; auto q = dae(M, S, 0, x, y, N * h, C); CHECK(q.status != AlgorithmStatus::Success && !q.error_message.empty(), "Newton without convergence reported as a success"); }
	ODESystemWithJacobianFromStdFunc ode(1, [&](Real t, const Vector<Real>& y, Vector<Real>& f) { f[0] = -lam * (y[0] - std::cos(t)); }, [&](const Real t, const Vector<Real>& y, Vector<Real>& f, Matrix<Real>& J) { f[0] = -lam * (y[0] - std::cos(t)); J(0, 0) = -lam; }); Vector<Real> y0(1); y0[0] = 2; CHECK_THROWS(SolveBackwardEuler(ode, 0, y0, 1, h, 1, 1e-12), std::exception, "backward Euler without convergence"); CHECK_THROWS(SolveBDF2(ode, 0, y0, 1, h, 1, 1e-12), std::exception, "BDF2 without convergence"); StiffSolverConfig K; K.step_size = h; K.max_newton_iter = 1; K.newton_tol = 1e-12; auto a = SolveBackwardEuler(ode, 0, y0, 1, K); auto b = SolveBDF2(ode, 0, y0, 1, K); CHECK(a.status != AlgorithmStatus::Success && !a.error_message.empty() && b.status != AlgorithmStatus::Success && !b.error_message.empty(), "failure not in the result"); ODESystemWithJacobianFromStdFunc bl(1, [](Real, const Vector<Real>& y, Vector<Real>& f) { f[0] = y[0] * y[0]; }, [](const Real, const Vector<Real>& y, Vector<Real>& f, Matrix<Real>& J) { f[0] = y[0] * y[0]; J(0, 0) = 2 * y[0]; }); y0[0] = s.uni(0.5, 3); Rosenbrock23Solver ros(bl, 1e-5, 1e-5); bool thrown = false; try { auto so = ros.Solve(0, y0, 1 / y0[0] + s.uni(0.1, 1), 0.01); thrown = !std::isfinite(so.getXValuesAtEnd()[0]); } catch (const std::exception&) { thrown = true; } CHECK(thrown, "integration across a singularity not reported"); }
