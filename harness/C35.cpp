// C35: shooting on manufactured two-point problems; unsolvable ones must be reported
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "interfaces/IODESystem.h"
#include "base/ODESystem.h"
#include "base/ODESystemSolution.h"
#include "algorithms/ODESolvers/BVPShootingMethod.h"
struct Fn { double c, m, a, w, p; LD v(LD t, int d = 0) const { LD q = w * t + p, s = d % 4 == 0 ? sinl(q) : d % 4 == 1 ? cosl(q) : d % 4 == 2 ? -sinl(q) : -cosl(q); return (d == 0 ? c + m * t : d == 1 ? m : 0) + a * powl(w, d) * s; } };
static Fn fn(Src& s) { return { s.uni(-2, 2), s.uni(-1, 1), s.uni(-1.5, 1.5), s.uni(0.2, 2), s.uni(-3, 3) }; }
using Mat = std::vector<std::vector<LD>>;
// flow matrix of x' = A x over time T, by squaring
static Mat mul(const Mat& A, const Mat& B) { int n = (int)A.size(); Mat C(n, std::vector<LD>(n, 0)); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) for (int j = 0; j < n; j++) C[i][j] += A[i][k] * B[k][j]; return C; }
static Mat expm(Mat A, LD T) { int n = (int)A.size(); for (auto& r : A) for (auto& v : r) v *= T / 1024; Mat E(n, std::vector<LD>(n, 0)), P = E; for (int i = 0; i < n; i++) E[i][i] = P[i][i] = 1; for (int k = 1; k < 20; k++) { P = mul(P, A); for (auto& r : P) for (auto& v : r) v /= k; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) E[i][j] += P[i][j]; } for (int k = 0; k < 10; k++) E = mul(E, E); return E; }
static LD mx(const Mat& A) { LD m = 0; for (auto& r : A) for (LD v : r) m = std::max(m, fabsl(v)); return m; }

LAW(linear_1d, 600, 6000) { double p = s.uni(-2, 2), q = s.uni(-9, 3), T = s.uni(0.3, 3), T0 = s.b() ? 0 : s.uni(-3, 3); if (s.chance(1, 8)) p = q = 0; Fn Y = fn(s); int si = (int)s.i(0, 1), ti = (int)s.i(0, 1), N = (int)s.i(150, 500); double g1 = s.uni(-50, 50), g2 = g1 + s.nz(-20, 20); if (s.chance(1, 4)) { g1 *= 1000; g2 = g1 + s.uni(0.5, 1000); } DISCARD_IF(std::fabs(g1 - g2) < 0.1); double tol = std::pow(10.0, s.uni(-11, -6)); bool pos = si == 1 && ti == 0 && s.b(); c.say([&](auto& o) { o << "p=" << fmt(p) << " q=" << fmt(q) << " T0=" << fmt(T0) << " T=" << fmt(T) << " N=" << N << " unknown " << si << " target " << ti << " guesses " << fmt(g1) << "," << fmt(g2) << " tol=" << fmt(tol); }); Mat E = expm({ { 0, 1 }, { q, p } }, T); LD sl = E[ti][si], amp = mx(E); DISCARD_IF(fabsl(sl) < 0.05L * amp); c.nontrivial(true); ODESystemFromStdFunc sys(2, [&](Real t, const Vector<Real>& y, Vector<Real>& f) { LD u = (LD)t - T0; f[0] = y[1]; f[1] = (double)(p * (y[1] - Y.v(u, 1)) + q * (y[0] - Y.v(u)) + Y.v(u, 2)); }); Vector<Real> ic(2); ic[0] = (double)Y.v(0); ic[1] = (double)Y.v(0, 1); LD s0 = ic[si]; ic[si] = 777; double tv = (double)Y.v(T, ti); BVPShootingSolver<RungeKutta4_StepCalculator> S(sys, N, tol); auto r = pos ? S.solvePositionBVP(T0, T0 + T, ic[0], tv, g1, g2) : S.solve1D(T0, T0 + T, ic, si, ti, tv, g1, g2);
	CHECK(r.converged && r.success() && r.status == AlgorithmStatus::Success, "linear problem not solved: " << r.failureDetails); CHECK(ic[si] == 777, "initial condition modified"); LD h = (LD)T / N, K = 1 + fabsl(p) + sqrtl(fabsl(q)), disc = powl(h * (K + Y.w), 4) * 3 * (T + 1) * amp * (6 + fabsl(s0) + fabsl(g1) * 1e-9L); LD ts = tol + disc / fabsl(sl) + 1e-13L * (1 + fabsl(g1)); CHECK(r.shootingParams.size() == 1, "one parameter"); CHECK_NEAR((LD)r.shootingParams[0], s0, ts * 3, "shooting parameter"); int n = r.solution.size(); LD end = r.solution.getXValue(n - 1, ti) - tv; CHECK(r.solution.getXValue(0, 1 - si) == ic[1 - si] && r.solution.getXValue(0, si) == r.shootingParams[0], "trajectory does not start from the found initial state"); CHECK(std::fabs(r.solution.getTValue(n - 1) - (T0 + T)) < 1e-12 * (1 + std::fabs(T0) + T) && r.solution.getTValue(0) == T0, "trajectory does not cover the interval"); CHECK_NEAR((LD)r.residual, fabsl(end), 1e-14L * (1 + fabsl(tv)), "residual"); CHECK(fabsl(end) <= tol * 2 * (fabsl(sl) + 1) + 1e-12L * (1 + fabsl(tv)) * amp, "boundary condition missed by " << (double)end); for (int k = 0; k < n; k++) for (int i = 0; i < 2; i++) CHECK_NEAR((LD)r.solution.getXValue(k, i), Y.v((LD)r.solution.getTValue(k) - T0, i), (disc + (ts * 3 + 1e-12L) * amp), "trajectory component " << i << " at point " << k); }

LAW(linear_nd, 500, 5000) { int n = (int)s.i(2, 5), k = (int)s.i(1, std::min(3, n)); double T = s.uni(0.3, 2), T0 = s.b() ? 0 : s.uni(-3, 3); Mat A(n, std::vector<LD>(n)); for (auto& r : A) for (auto& v : r) v = s.uni(-1.5, 1.5); std::vector<Fn> X; for (int i = 0; i < n; i++) X.push_back(fn(s)); auto choose = [&]() { std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i; for (int i = 0; i < n; i++) std::swap(v[i], v[(int)s.i(i, n - 1)]); v.resize(k); return v; }; ShootingConfig C; C.unknownIndices = choose(); C.targetIndices = choose(); double far = s.chance(1, 3) ? 1e4 : 5; for (int j = 0; j < k; j++) { C.unknownGuesses.push_back(s.uni(-far, far)); C.targetValues.push_back((double)X[C.targetIndices[j]].v(T)); } int N = (int)s.i(150, 400); c.say([&](auto& o) { o << "n=" << n << " k=" << k << " T=" << fmt(T) << " N=" << N << " unknown"; for (int i : C.unknownIndices) o << " " << i; o << " targets"; for (int i : C.targetIndices) o << " " << i; o << " guesses"; for (double g : C.unknownGuesses) o << " " << fmt(g); }); Mat E = expm(A, T); LD amp = mx(E); // conditioning of the sensitivity block
	Mat B(k, std::vector<LD>(k)); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) B[i][j] = E[C.targetIndices[i]][C.unknownIndices[j]]; LD det = 1; { Mat G = B; for (int p = 0; p < k; p++) { int b = p; for (int i = p; i < k; i++) if (fabsl(G[i][p]) > fabsl(G[b][p])) b = i; std::swap(G[p], G[b]); det *= G[p][p]; if (G[p][p] == 0) break; for (int i = p + 1; i < k; i++) { LD m = G[i][p] / G[p][p]; for (int j = p; j < k; j++) G[i][j] -= m * G[p][j]; } } } DISCARD_IF(fabsl(det) < 0.03L * powl(amp, k)); LD cond = powl(amp, k - 1) / fabsl(det) * k * k; c.nontrivial(k >= 2);
	ODESystemFromStdFunc sys(n, [&](Real t, const Vector<Real>& y, Vector<Real>& f) { LD u = (LD)t - T0; for (int i = 0; i < n; i++) { LD r = X[i].v(u, 1); for (int j = 0; j < n; j++) r += A[i][j] * (y[j] - X[j].v(u)); f[i] = (double)r; } }); Vector<Real> ic(n); for (int i = 0; i < n; i++) ic[i] = (double)X[i].v(0); Vector<Real> tr = ic; for (int i : C.unknownIndices) ic[i] = -555; double tol = 1e-9 * (1 + (double)amp); BVPSolverConfig cfg(tol, 50); cfg.num_integration_steps = N; BVPShootingSolverND<RungeKutta4_StepCalculator> S(sys, cfg); auto r = S.solve(T0, T0 + T, ic, C); CHECK(r.converged && r.success() && r.status == AlgorithmStatus::Success, "linear problem not solved: " << r.failureDetails); LD w = 0; for (auto& f : X) w = std::max<LD>(w, f.w); LD h = (LD)T / N, disc = powl(h * (2 * n + w), 4) * 3 * (T + 1) * amp * n * 6, ts = (tol + disc) * cond * 2 + 1e-9L; for (int j = 0; j < k; j++) CHECK_NEAR((LD)r.shootingParams[j], (LD)tr[C.unknownIndices[j]], ts, "shooting parameter " << j); int m = r.solution.size(); LD rn = 0; for (int j = 0; j < k; j++) { LD e = r.solution.getXValue(m - 1, C.targetIndices[j]) - C.targetValues[j]; rn += e * e; CHECK_NEAR((LD)r.residuals[j], e, 1e-13L * amp, "residual " << j); } CHECK(sqrtl(rn) < tol * 1.01L, "boundary conditions missed by " << (double)sqrtl(rn) << " with tolerance " << tol); CHECK_NEAR((LD)r.residualNorm, sqrtl(rn), 1e-13L * amp, "residual norm"); for (int i = 0; i < n; i++) { bool unk = std::find(C.unknownIndices.begin(), C.unknownIndices.end(), i) != C.unknownIndices.end(); if (!unk) CHECK(r.solution.getXValue(0, i) == ic[i], "known initial value " << i << " not kept"); } for (int q = 0; q < m; q += std::max(1, m / 20)) for (int i = 0; i < n; i++) CHECK_NEAR((LD)r.solution.getXValue(q, i), X[i].v((LD)r.solution.getTValue(q) - T0), disc + ts * std::max<LD>(1, mx(expm(A, (LD)r.solution.getTValue(q) - T0))) * k * 2, "trajectory component " << i << " at point " << q); }

LAW(nonlinear, 400, 4000) { double k = s.uni(-3, 3), T = s.uni(0.3, 1.5); Fn Y = fn(s); int N = (int)s.i(150, 400); int kind = (int)s.i(0, 2); bool nd = s.b(); double g = (double)Y.v(0, 1) + s.uni(-4, 4); int lim = s.chance(1, 3) ? (int)s.i(1, 4) : 50; c.say([&](auto& o) { o << (nd ? "ND" : "1D") << " kind=" << kind << " k=" << fmt(k) << " T=" << fmt(T) << " guess " << fmt(g) << " limit " << lim; }); ODESystemFromStdFunc sys(2, [&](Real t, const Vector<Real>& y, Vector<Real>& f) { f[0] = y[1]; LD d = kind == 0 ? sinl((LD)y[0]) - sinl(Y.v(t)) : kind == 1 ? atanl((LD)y[0]) - atanl(Y.v(t)) + 0.3L * (sinl((LD)y[1]) - sinl(Y.v(t, 1))) : tanhl((LD)y[0] - Y.v(t)); f[1] = (double)(k * d + Y.v(t, 2)); }); Vector<Real> ic(2); ic[0] = (double)Y.v(0); ic[1] = 0; double tv = (double)Y.v(T), tol = 1e-9; bool conv; ODESystemSolution sol(0, T, 2, 1); LD res; AlgorithmStatus st; std::string det; if (nd) { ShootingConfig C; C.unknownIndices = { 1 }; C.unknownGuesses = { g }; C.targetIndices = { 0 }; C.targetValues = { tv }; BVPShootingSolverND<RungeKutta4_StepCalculator> S(sys, N, tol, lim); auto r = S.solve(0, T, ic, C); conv = r.converged; sol = r.solution; res = r.residualNorm; st = r.status; det = r.failureDetails; CHECK(r.iterations <= lim, "iteration limit"); CHECK(r.success() == conv && (r.failureReason == BVPFailureReason::None) == conv, "failure reason"); } else { BVPShootingSolver<RungeKutta4_StepCalculator> S(sys, N, tol); auto r = S.solvePositionBVP(0, T, ic[0], tv, g, g + s.uni(0.5, 2)); conv = r.converged; sol = r.solution; res = r.residual; st = r.status; det = r.failureDetails; } c.nontrivial(conv); c.label(conv ? "converged" : "reported"); CHECK(conv == (st == AlgorithmStatus::Success), "status does not match convergence"); if (!conv) { CHECK(!det.empty(), "failure without details"); return; } int n = sol.size(); LD end = sol.getXValue(n - 1, 0) - tv; CHECK(fabsl(end) < 1e-8L, "converged, but the boundary condition is missed by " << (double)end); CHECK_NEAR(res, fabsl(end), 1e-12L, "residual"); CHECK(sol.getXValue(0, 0) == ic[0], "initial condition"); // the trajectory solves the equation: compare with a finer integration
	ODESystemFixedStepSolver fine(sys, StepCalculators::RK4_Basic); Vector<Real> x0(2); x0[0] = ic[0]; x0[1] = sol.getXValue(0, 1); auto f = fine.integrate(x0, 0, T, 2 * N); for (int q = 0; q < n; q += std::max(1, n / 15)) { double t = sol.getTValue(q); int k2 = 2 * q; CHECK_NEAR(f.getTValue(k2), t, 1e-10, "grid"); for (int i = 0; i < 2; i++) CHECK_NEAR(sol.getXValue(q, i), f.getXValue(k2, i), 2e-5 * std::pow(150.0 / N, 3), "returned trajectory does not solve the equation (component " << i << ")"); } }

LAW(failure_reported, 300, 3000) { double a = s.uni(-2, 2), T = s.uni(0.2, 2), off = s.nz(-5, 5), g1 = s.uni(-5, 5), g2 = g1 + s.uni(0.5, 3); DISCARD_IF(std::fabs(off) < 0.1); c.say([&](auto& o) { o << "decoupled target, a=" << fmt(a) << " T=" << fmt(T) << " offset " << fmt(off); }); c.nontrivial(true); ODESystemFromStdFunc sys(2, [&](Real, const Vector<Real>& y, Vector<Real>& f) { f[0] = a * y[0]; f[1] = y[1] * 0.5 + y[0]; }); Vector<Real> ic(2); ic[0] = 1; ic[1] = 0; double tv = std::exp(a * T) + off; BVPShootingSolver<RungeKutta4_StepCalculator> S(sys, 50); auto r = S.solve1D(0, T, ic, 1, 0, tv, g1, g2); CHECK(!r.converged && !r.success() && r.failureReason != BVPFailureReason::None && r.status != AlgorithmStatus::Success, "unreachable target reported as converged"); ShootingConfig C; C.unknownIndices = { 1 }; C.unknownGuesses = { g1 }; C.targetIndices = { 0 }; C.targetValues = { tv }; BVPShootingSolverND<RungeKutta4_StepCalculator> D(sys, 50); auto q = D.solve(0, T, ic, C); CHECK(!q.converged && q.failureReason == BVPFailureReason::SingularJacobian && q.status != AlgorithmStatus::Success, "singular sensitivity not reported"); C.targetValues.push_back(1); auto w = D.solve(0, T, ic, C); CHECK(!w.converged && w.failureReason == BVPFailureReason::InvalidConfiguration && w.status != AlgorithmStatus::Success, "invalid configuration not reported"); }
