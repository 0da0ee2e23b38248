// C31: fixed-step ODE methods: order conditions on random rooted trees (exact polynomial solutions), linear systems, convergence under halving
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "interfaces/IODESystem.h"
#include "base/ODESystem.h"
#include "base/ODESystemSolution.h"
#include "algorithms/ODESolvers/ODEStepCalculators.h"
#include "algorithms/ODESolvers/ODESolverFixedStep.h"
struct Meth { const char* name; IODESystemStepCalculator* c; int p, pe; bool second; };
static std::vector<Meth> methods() { typedef StepCalculators S; return { { "Euler", &S::EulerStepCalc, 1, 0, false }, { "EulerCromer", &S::EulerCromerStepCalc, 2, 1, false }, { "Midpoint", &S::MidpointStepCalc, 2, 0, false }, { "RK4", &S::RK4_Basic, 4, 0, false }, { "CashKarp5", &S::RK5_CashKarp, 5, 4, false }, { "DormandPrince5", &S::DormandPrince5StepCalc, 5, 4, false }, { "DormandPrince8", &S::DormandPrince8StepCalc, 8, 7, false }, { "VelocityVerlet", &S::VelocityVerletStepCalc, 2, 0, true }, { "Leapfrog", &S::LeapfrogStepCalc, 2, 0, true } }; }
static Meth rk(Src& s) { static auto m = methods(); return m[s.i(0, 6)]; }
static Meth any(Src& s) { static auto m = methods(); return m[s.i(0, 8)]; }
static std::string vs(const Vector<Real>& v) { std::string r = "("; for (int i = 0; i < v.size(); i++) r += (i ? "," : "") + fmt(v[i]); return r + ")"; }
typedef std::vector<std::vector<int>> Tree;

// y_i' = k_i (t-t0)^m_i prod_j (y_j - a_j), j < i: solution is a monomial of degree "order of the tree"; exact up to the order of the method
LAW(order_conditions, 4000, 60000) { Meth M = rk(s); int n = (int)s.i(1, 8); struct Nd { std::vector<int> ch; int m; double k, a; int ord; LD coef; }; std::vector<Nd> nd; std::string desc;
	for (int i = 0; i < n; i++) { Nd d; d.m = s.chance(1, 3) ? (int)s.i(0, 3) : 0; d.ord = 1 + d.m; d.k = s.uni(0.5, 2) * (s.b() ? 1 : -1); d.a = s.chance(1, 3) ? s.uni(-2, 2) : 0; d.coef = 1; int nc = i ? (int)s.i(0, 3) : 0; for (int j = 0; j < nc; j++) { int ch = (int)s.i(0, i - 1); if (d.ord + nd[ch].ord <= M.p + 1) { d.ch.push_back(ch); d.ord += nd[ch].ord; d.coef *= nd[ch].coef; } } d.coef *= d.k / d.ord; desc += "[k" + fmt(d.k) + " a" + fmt(d.a) + " m" + std::to_string(d.m) + " ch"; for (int x : d.ch) desc += " " + std::to_string(x); desc += "] "; nd.push_back(d); }
	double t0 = s.chance(1, 2) ? 0 : s.uni(-5, 5), h = s.pick({0.25, 0.5, 1.0, 2.0}) * (s.chance(1, 4) ? -1 : 1); int mo = 0; for (auto& d : nd) if (d.ord <= M.p) mo = std::max(mo, d.ord); c.say([&](auto& o) { o << M.name << " t0=" << fmt(t0) << " h=" << fmt(h) << " " << desc; }); c.nontrivial(mo >= std::min(M.p, 3)); c.label(M.name); c.label("order" + std::to_string(mo));
	ODESystemFromStdFunc sys(n, [&](Real t, const Vector<Real>& y, Vector<Real>& f) { for (int i = 0; i < n; i++) { double v = nd[i].k; for (int q = 0; q < nd[i].m; q++) v *= (t - t0); for (int ch : nd[i].ch) v *= (y[ch] - nd[ch].a); f[i] = v; } });
	Vector<Real> y(n), f(n), out(n), err(n); for (int i = 0; i < n; i++) y[i] = nd[i].a; Vector<Real> y0 = y; sys.derivs(t0, y, f); Vector<Real> f0 = f; M.c->calcStep(sys, t0, y, f, h, out, err); for (int i = 0; i < n; i++) CHECK(y[i] == y0[i] && f[i] == f0[i], "start state modified");
	LD sc = 1; for (auto& d : nd) sc = std::max({ sc, fabsl(d.coef * powl(h, d.ord)), (LD)fabs(d.a) }); LD tol = 2e-13L * sc * (1 + fabsl(t0)) * 8;
	for (int i = 0; i < n; i++) { if (nd[i].ord <= M.p) CHECK_NEAR((LD)out[i], nd[i].a + nd[i].coef * powl(h, nd[i].ord), tol, "component " << i << " (tree of order " << nd[i].ord << ") not integrated exactly by a method of order " << M.p); if (M.pe && nd[i].ord <= M.pe) CHECK_NEAR((LD)err[i], 0, tol, "embedded error estimate of component " << i << " (order " << nd[i].ord << ") not zero although both formulas are exact"); } 
	// the complete solver, one and several steps, on the part of the system of quadrature type (exact for any number of steps)
	ODESystemFixedStepSolver sol(sys, *M.c); auto S = sol.integrate(y, t0, t0 + h, 1); CHECK(S.size() == 2 && S.getNumSteps() == 1, "points"); if (t0 == 0) for (int i = 0; i < n; i++) CHECK(S.getXValue(1, i) == out[i] && S.getXValue(0, i) == y[i], "solver differs from a single step"); }

// the estimate is informative: for trees one order above the embedded formula it is not identically zero
LAW(polynomials, 2500, 30000) { Meth M = any(s); int d = M.second ? 2 : M.p; int n = 2 * (int)s.i(1, 2); std::vector<std::vector<double>> co(n); for (int i = 0; i < n; i++) { co[i].resize(d + 1); for (auto& v : co[i]) v = s.uni(-2, 2); } if (M.second) for (int i = 0; i < n / 2; i++) { co[n / 2 + i].assign({ co[i][1], 2 * co[i][2], 0 }); } double a = s.uni(-3, 3), b = a + s.uni(0.2, 3) * (s.chance(1, 4) ? -1 : 1); int N = (int)s.i(1, 40); c.say([&](auto& o) { o << M.name << " [" << fmt(a) << "," << fmt(b) << "] N=" << N; }); c.nontrivial(N >= 2); c.label(M.name);
	auto val = [&](int i, LD t) { LD v = 0; for (int k = d; k >= 0; k--) v = v * (t - a) + co[i][k]; return v; }; auto der = [&](int i, double t) { double v = 0; for (int k = d; k >= 1; k--) v = v * (t - a) + k * co[i][k]; return v; }; double lo = std::min(a, b), hi = std::max(a, b), bad = 0; ODESystemFromStdFunc sys(n, [&](Real t, const Vector<Real>&, Vector<Real>& f) { if (t < lo - 1e-12 || t > hi + 1e-12) bad = t; for (int i = 0; i < n; i++) f[i] = der(i, t); }); Vector<Real> y(n); for (int i = 0; i < n; i++) y[i] = co[i][0]; Vector<Real> y0 = y; auto S = ODESystemFixedStepSolver(sys, *M.c).integrate(y, a, b, N);
	CHECK(bad == 0, "derivative evaluated outside the interval at t=" << fmt(bad)); CHECK(S.size() == N + 1 && S.getNumSteps() == N && S.getSysDim() == n && S.getT1() == a && S.getT2() == b && !S.isEmpty(), "solution shape " << S.size()); for (int i = 0; i < n; i++) CHECK(y[i] == y0[i], "initial state modified"); LD m = 1; for (int i = 0; i < n; i++) for (int k = 0; k <= d; k++) m = std::max(m, fabsl(co[i][k]) * powl(fabsl((LD)b - a), k));
	for (int k = 0; k <= N; k++) { LD t = a + ((LD)b - a) * k / N; CHECK_NEAR((LD)S.getTValue(k), t, 1e-15L * (N + 2) * (fabsl(a) + fabsl(b)), "time of point " << k); for (int i = 0; i < n; i++) CHECK_NEAR((LD)S.getXValue(k, i), val(i, t), 1e-13L * m * (N + 5) * 4, "polynomial of degree " << d << " not exact at point " << k); }
	Vector<Real> e = S.getXValuesAtEnd(); for (int i = 0; i < n; i++) { CHECK(e[i] == S.getXValue(N, i), "end values"); Vector<Real> r = S.getXValues(i); CHECK(r.size() >= N + 1, "component row"); for (int k = 0; k <= N; k++) CHECK(r[k] == S.getXValue(k, i), "component row"); } CHECK_THROWS(S.getTValue(N + 1), IndexError, "index"); CHECK_THROWS(S.getXValue(0, n), IndexError, "component"); CHECK_THROWS(S.getXValue(-1, 0), IndexError, "index"); CHECK_THROWS(S.getXValues(n), IndexError, "component");
	if (N >= 3 && b > a) { int i = (int)s.i(0, n - 1); auto L = S.getSolAsLinInterp(i); int k = (int)s.i(0, N); CHECK_NEAR((LD)L(S.getTValue(k)), (LD)S.getXValue(k, i), 1e-12L * m, "linear interpolation at a node"); auto Sp = S.getSolAsSplineInterp(i); CHECK_NEAR((LD)Sp(S.getTValue(k)), (LD)S.getXValue(k, i), 1e-11L * m, "spline interpolation at a node"); double u = a + (b - a) * s.uni(0.01, 0.99); if (d >= 1) { auto P = S.getSolAsPolyInterp(i, std::min(d, N)); if (N >= d) CHECK_NEAR((LD)P(u), val(i, u), 1e-9L * m * powl(N, 1), "polynomial interpolation of a polynomial"); } auto C2 = S.getSolAsParamCurve2D(0, n - 1); auto p0 = C2(a), p1 = C2(b); CHECK_NEAR((LD)p0[0], (LD)S.getXValue(0, 0), 1e-9L * m, "parametric curve start"); CHECK_NEAR((LD)p1[1], (LD)S.getXValue(N, n - 1), 1e-9L * m, "parametric curve end"); } }

// linear systems: superposition, equivalence of one step to the truncated exponential, shift in time
LAW(linear, 2500, 30000) { Meth M = any(s); int hd = (int)s.i(1, 3), n = M.second ? 2 * hd : (int)s.i(1, 5); std::vector<std::vector<double>> A(n, std::vector<double>(n, 0.0)); if (M.second) { for (int i = 0; i < hd; i++) { A[i][hd + i] = 1; for (int j = 0; j < hd; j++) A[hd + i][j] = s.uni(-2, 2); } } else for (auto& r : A) for (auto& v : r) v = s.chance(1, 4) ? 0 : s.uni(-1, 1); int N = (int)s.i(1, 20); double T = s.uni(0.1, 2), t0 = s.uni(-3, 3); auto F = [&](Real, const Vector<Real>& y, Vector<Real>& f) { for (int i = 0; i < n; i++) { f[i] = 0; for (int j = 0; j < n; j++) f[i] += A[i][j] * y[j]; } }; ODESystemFromStdFunc sys(n, F); ODESystemFixedStepSolver so(sys, *M.c); Vector<Real> u(n), v(n), w(n); double al = s.uni(-2, 2), be = s.uni(-2, 2); for (int i = 0; i < n; i++) { u[i] = s.uni(-1, 1); v[i] = s.uni(-1, 1); w[i] = al * u[i] + be * v[i]; } c.say([&](auto& o) { o << M.name << " n=" << n << " N=" << N << " T=" << fmt(T) << " u=" << vs(u); }); c.nontrivial(N >= 2 && n >= 2); c.label(M.name);
	auto U = so.integrate(u, t0, t0 + T, N), V = so.integrate(v, t0, t0 + T, N), W = so.integrate(w, t0, t0 + T, N), U2 = so.integrate(u, 0, T, N); LD m = expl(n * 2 * T) * 10; for (int k = 0; k <= N; k++) for (int i = 0; i < n; i++) { CHECK_NEAR((LD)W.getXValue(k, i), al * (LD)U.getXValue(k, i) + be * (LD)V.getXValue(k, i), 1e-14L * m, "superposition at point " << k); CHECK_NEAR((LD)U2.getXValue(k, i), (LD)U.getXValue(k, i), 1e-14L * m, "autonomous system depends on the start time"); }
	// forward over the grid equals repeated one-step calls
	{ Vector<Real> x = u, f(n), o2(n), er(n); for (int k = 1; k <= N; k++) { sys.derivs(0, x, f); M.c->calcStep(sys, 0, x, f, T / N, o2, er); x = o2; for (int i = 0; i < n; i++) CHECK_NEAR((LD)x[i], (LD)U2.getXValue(k, i), 1e-14L * m, "solver is not a sequence of its steps"); } }
	if (M.second) { auto B = so.integrate(U2.getXValuesAtEnd(), T, 0, N); for (int i = 0; i < n; i++) CHECK_NEAR((LD)B.getXValue(N, i), (LD)u[i], 1e-13L * m * m, "time-reversible method does not return to the start"); }
	else { LD x[5], t[5], nx[5]; for (int i = 0; i < n; i++) x[i] = t[i] = u[i]; double h = T / N; for (int k = 1; k <= M.p; k++) { for (int i = 0; i < n; i++) { nx[i] = 0; for (int j = 0; j < n; j++) nx[i] += A[i][j] * t[j]; nx[i] *= (LD)h / k; } for (int i = 0; i < n; i++) { t[i] = nx[i]; x[i] += t[i]; } } LD nm = 0; for (auto& r : A) { LD q = 0; for (double z : r) q += fabsl(z); nm = std::max(nm, q); } LD zz = nm * h; LD rem = powl(zz, M.p + 1) * 0.2L * expl(zz) + 1e-14L; if (M.p <= 4) rem = 1e-13L * (1 + zz * zz * zz * zz); for (int i = 0; i < n; i++) CHECK_NEAR((LD)U2.getXValue(1, i), x[i], rem, "one step differs from the truncated exponential"); } }

// non-linear problems with known solutions: error shrinks as h^p
LAW(convergence, 500, 6000) { Meth M = any(s); int kind = M.second ? (int)s.i(4, 5) : (int)s.i(0, 6); double a = s.uni(0.5, 1.5), b = s.uni(0.3, 1.2), ph = s.uni(-1, 1); int n = kind <= 3 ? 1 : 2; std::function<void(Real, const Vector<Real>&, Vector<Real>&)> F; std::function<LD(int, LD)> X;
	switch (kind) { case 0: F = [=](Real, const Vector<Real>& y, Vector<Real>& f) { f[0] = a * y[0] * (1 - y[0]); }; X = [=](int, LD t) { return 1 / (1 + expl(-a * t + ph)); }; break;
	case 1: F = [=](Real t, const Vector<Real>& y, Vector<Real>& f) { f[0] = b * std::cos(a * t + ph) * y[0]; }; X = [=](int, LD t) { return expl(b / a * sinl(a * t + ph)); }; break;
	case 2: F = [=](Real t, const Vector<Real>& y, Vector<Real>& f) { f[0] = -2 * a * t * y[0] * y[0]; }; X = [=](int, LD t) { return 1 / (b + 0.5L + a * t * t); }; break;
	case 3: F = [=](Real t, const Vector<Real>& y, Vector<Real>& f) { f[0] = -a * (y[0] - std::sin(t + ph)) + std::cos(t + ph); }; X = [=](int, LD t) { return sinl(t + ph) + b * expl(-a * t); }; break;
	case 4: F = [=](Real, const Vector<Real>& y, Vector<Real>& f) { f[0] = y[1]; f[1] = -a * a * y[0]; }; X = [=](int i, LD t) { return i ? -a * sinl(a * t + ph) : cosl(a * t + ph); }; break;
	case 5: F = [=](Real t, const Vector<Real>& y, Vector<Real>& f) { f[0] = y[1]; f[1] = -y[0] * y[0] * y[0] * 2 * a * a; (void)t; }; X = [=](int i, LD t) { return i ? -a / ((a * t + 1 + b) * (a * t + 1 + b)) : 1 / (a * t + 1 + b); }; F = [=](Real, const Vector<Real>& y, Vector<Real>& f) { f[0] = y[1]; f[1] = 2 * a * a * y[0] * y[0] * y[0]; }; break;
	default: F = [=](Real, const Vector<Real>& y, Vector<Real>& f) { f[0] = y[0] * y[1]; f[1] = -y[1] * y[1]; }; X = [=](int i, LD t) { return i ? 1 / (t + 1 + b) : (t + 1 + b) * a; }; break; }
	c.say([&](auto& o) { o << M.name << " problem " << kind << " a=" << fmt(a) << " b=" << fmt(b) << " ph=" << fmt(ph); }); c.label(M.name); ODESystemFromStdFunc sys(n, F); ODESystemFixedStepSolver so(sys, *M.c); Vector<Real> y(n); for (int i = 0; i < n; i++) y[i] = (double)X(i, 0); double T = s.uni(1, 2.5); std::vector<LD> e; int N0 = M.p >= 8 ? 3 : M.p == 5 ? 6 : M.p == 4 ? 8 : 16; for (int r = 0; r < 5; r++) { int N = N0 << r; auto S = so.integrate(y, 0, T, N); LD m = 0; for (int k = 0; k <= N; k += 1 << r) for (int i = 0; i < n; i++) m = std::max(m, fabsl((LD)S.getXValue(k, i) - X(i, (LD)T * k / N))); e.push_back(m); }
	LD floor = 2e-13L; bool usable = e[1] > floor * 20; c.nontrivial(usable); auto ok = [&](int r) { return e[r] <= floor || e[r] <= e[r - 1] * powl(2, -M.p) * 1.6L; }; // two consecutive failures: not converging at the stated order
	for (int r = 1; r + 1 < 5; r++) CHECK(ok(r) || ok(r + 1) || (r + 2 < 5 && ok(r + 2)), M.name << ": errors " << (double)e[0] << " " << (double)e[1] << " " << (double)e[2] << " " << (double)e[3] << " " << (double)e[4] << " do not fall as h^" << M.p); CHECK(e[4] < 0.1L, "error " << (double)e[4] << " with the finest step"); }

// storage of solutions
LAW(solution_storage, 2000, 20000) { int dim = (int)s.i(1, 4), cap = (int)s.i(0, 6); ODESystemSolution S(0, 1, dim, cap); std::map<int, std::pair<double, std::vector<double>>> ref; int ops = (int)s.size(1, 20), cnt = 0; c.say([&](auto& o) { o << "dim " << dim << " capacity " << cap << " ops " << ops; }); bool far = false; for (int o = 0; o < ops; o++) { int k = (int)s.i(0, 4); int ind = s.chance(1, 6) ? cnt + (int)s.i(0, 40) : s.b() ? cnt : (int)s.i(0, std::max(0, cnt)); double v = s.uni(-5, 5); if (ind >= cap) far = true; auto& r = ref[ind]; if (r.second.empty()) { r.second.assign(dim, NAN); r.first = NAN; }
		if (k == 0) { S.setTVal(ind, v); r.first = v; } else if (k == 1) { int q = (int)s.i(0, dim - 1); S.setXVal(ind, q, v); r.second[q] = v; } else { Vector<Real> y(dim); for (int i = 0; i < dim; i++) y[i] = v + i; S.fillValues(ind, v, y); r.first = v; for (int i = 0; i < dim; i++) r.second[i] = v + i; } cnt = std::max(cnt, ind + 1); CHECK(S.size() == cnt && S.getNumSteps() == cnt - 1 && S.capacity() >= cnt, "count " << S.size() << " instead of " << cnt); if (s.chance(1, 6)) S.reserve(cnt + (int)s.i(0, 10)); } c.nontrivial(far);
	auto verify = [&]() { for (auto& kv : ref) { if (!std::isnan(kv.second.first)) CHECK(S.getTValue(kv.first) == kv.second.first, "time " << kv.first); for (int i = 0; i < dim; i++) if (!std::isnan(kv.second.second[i])) CHECK(S.getXValue(kv.first, i) == kv.second.second[i], "value " << kv.first << "," << i); } }; verify(); S.setFinalSize(cnt - 1); CHECK(S.size() == cnt && S.getTValues().size() == cnt && S.getXValues(0).size() == cnt && S.getXValues().cols() == cnt && S.getXValues().rows() == dim, "final size"); verify(); CHECK_THROWS(S.setTVal(-1, 0), IndexError, "negative"); CHECK_THROWS(S.setXVal(0, dim, 0), IndexError, "component"); Vector<Real> bad(dim + 1); CHECK_THROWS(S.fillValues(0, 0, bad), ArgumentError, "dimension"); ODESystemSolution E(0, 1, dim, 3); CHECK(E.isEmpty() && E.getNumSteps() == 0, "empty"); CHECK_THROWS(E.getXValuesAtEnd(), IndexError, "empty"); }
