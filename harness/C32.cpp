// C32: adaptive steppers and integrators: order conditions per step, error against the tolerance, output grid, reported failure
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "interfaces/IODESystem.h"
#include "base/ODESystem.h"
#include "base/ODESystemSolution.h"
#include "algorithms/ODESolvers/ODESteppers.h"
#include "algorithms/ODESolvers/ODESolverAdaptive.h"
static const char* NM[5] = { "DormandPrince5", "CashKarp", "DormandPrince8", "BulirschStoer", "BulirschStoerRational" };
static std::unique_ptr<IAdaptiveStepper> mk(int k, const IODESystem& s) { switch (k) { case 0: return std::make_unique<DormandPrince5_Stepper>(s); case 1: return std::make_unique<CashKarp_Stepper>(s); case 2: return std::make_unique<DormandPrince8_Stepper>(s); case 3: return std::make_unique<BulirschStoer_Stepper>(s); default: return std::make_unique<BulirschStoerRational_Stepper>(s); } }
struct Nd { std::vector<int> ch; int m; double k, a; int ord; };
LAW(order_conditions, 3000, 40000) { int M = (int)s.i(0, 2), p = M == 2 ? 8 : 5, pe = M == 2 ? 7 : 4; int n = (int)s.i(1, 8); std::vector<Nd> nd; std::string desc; for (int i = 0; i < n; i++) { Nd d; d.m = s.chance(1, 3) ? (int)s.i(0, 3) : 0; d.ord = 1 + d.m; d.k = s.uni(0.5, 2) * (s.b() ? 1 : -1); d.a = s.uni(0.5, 2) * (s.b() ? 1 : -1); int nc = i ? (int)s.i(0, 3) : 0; for (int j = 0; j < nc; j++) { int ch = (int)s.i(0, i - 1); if (d.ord + nd[ch].ord <= p) { d.ch.push_back(ch); d.ord += nd[ch].ord; } } desc += "[k" + fmt(d.k) + " a" + fmt(d.a) + " m" + std::to_string(d.m) + " ch"; for (int x : d.ch) desc += " " + std::to_string(x); desc += "] "; nd.push_back(d); }
	double t0 = s.b() ? 0 : s.uni(-5, 5), h1 = s.pick({0.25, 0.5, 1.0}), h2 = s.pick({0.25, 0.5, 1.0}); int mo = 0; for (auto& d : nd) mo = std::max(mo, d.ord); c.say([&](auto& o) { o << NM[M] << " t0=" << fmt(t0) << " h=" << fmt(h1) << "," << fmt(h2) << " " << desc; }); c.nontrivial(mo >= 4); c.label(NM[M]);
	std::vector<LD> coef(n); for (int i = 0; i < n; i++) { coef[i] = nd[i].k / nd[i].ord; for (int ch : nd[i].ch) coef[i] *= coef[ch]; } int calls = 0; ODESystemFromStdFunc sys(n, [&](Real t, const Vector<Real>& y, Vector<Real>& f) { calls++; for (int i = 0; i < n; i++) { double v = nd[i].k; for (int q = 0; q < nd[i].m; q++) v *= (t - t0); for (int ch : nd[i].ch) v *= (y[ch] - nd[ch].a); f[i] = v; } });
	auto st = mk(M, sys); CHECK(st->order() == p, "order"); Vector<Real> x(n), f(n); for (int i = 0; i < n; i++) x[i] = nd[i].a; sys.derivs(t0, x, f); Vector<Real> xo = x; double t = t0; auto val = [&](int i, LD tt) { return nd[i].a + coef[i] * powl(tt - t0, nd[i].ord); }; for (int k = 0; k < 2; k++) { double h = k ? h2 : h1; calls = 0; auto r = st->doStep(t, x, f, h, 1e9); CHECK(r.accepted && r.hDone == h && r.hNext > h, "step with a huge tolerance not accepted as requested"); CHECK(r.funcEvals >= calls - 1 && r.funcEvals <= calls + 1, "function evaluations " << r.funcEvals << " counted, " << calls << " made"); LD sc = 1; for (int i = 0; i < n; i++) sc = std::max({ sc, fabsl(val(i, t + h)), fabsl((LD)f[i]) }); LD tol = 1e-12L * sc * (1 + fabsl(t0)); for (int i = 0; i < n; i++) CHECK_NEAR((LD)x[i], val(i, (LD)t + h), tol, "step " << k + 1 << ", component " << i << " of order " << nd[i].ord); if (mo <= pe) CHECK(r.errMax * 1e9 <= 1e-11 * (double)sc * (1 + std::fabs(t0)), "error estimate " << r.errMax * 1e9 << " although both formulas are exact");
		Vector<Real> fd(n); sys.derivs(t + h, x, fd); for (int i = 0; i < n; i++) { CHECK_NEAR((LD)f[i], (LD)fd[i], 20 * tol, "derivative handed to the next step is not the derivative at the accepted state"); CHECK_NEAR((LD)st->getFinalDeriv()[i], (LD)fd[i], 20 * tol, "final derivative"); } Vector<Real> b = st->interpolate(t), e = st->interpolate(t + h); double u = t + h * s.unit(); Vector<Real> md = st->interpolate(u); for (int i = 0; i < n; i++) { CHECK_NEAR((LD)b[i], (LD)xo[i], tol, "dense output at the start of the step"); CHECK_NEAR((LD)e[i], (LD)x[i], tol, "dense output at the end of the step"); if (nd[i].ord <= 3) CHECK_NEAR((LD)md[i], val(i, u), 20 * tol, "dense output of a cubic"); } t += h; xo = x; } }

struct Prob { int n; std::function<void(Real, const Vector<Real>&, Vector<Real>&)> F; std::function<LD(int, LD)> X; double m4, scale, amp; std::string d; };
static Prob prob(Src& s, double T) { Prob P; int k = (int)s.i(0, 6); double a = s.uni(0.3, 2.5), b = s.uni(0.2, 1.5), ph = s.uni(-2, 2); P.d = "problem " + std::to_string(k) + " a=" + fmt(a) + " b=" + fmt(b) + " ph=" + fmt(ph); P.n = k == 1 || k == 4 ? 2 : k == 6 ? 3 : 1; P.amp = 1;
	switch (k) { case 0: P.F = [=](Real, const Vector<Real>& y, Vector<Real>& f) { f[0] = -a * y[0]; }; P.X = [=](int, LD t) { return b * expl(-a * t); }; P.m4 = b * a * a * a * a; P.scale = b; break;
	case 1: P.F = [=](Real, const Vector<Real>& y, Vector<Real>& f) { f[0] = y[1]; f[1] = -a * a * y[0]; }; P.X = [=](int i, LD t) { return i ? -b * a * sinl(a * t + ph) : b * cosl(a * t + ph); }; P.m4 = b * std::max(1.0, a) * a * a * a * a; P.scale = b * std::max(a, 1 / a); break;
	case 2: P.F = [=](Real, const Vector<Real>& y, Vector<Real>& f) { f[0] = a * y[0] * (1 - y[0]); }; P.X = [=](int, LD t) { return 1 / (1 + expl(-a * t + ph)); }; P.m4 = 0.25 * a * a * a * a; P.scale = 1; P.amp = 10; break;
	case 3: P.F = [=](Real t, const Vector<Real>& y, Vector<Real>& f) { f[0] = b * std::cos(a * t + ph) * y[0]; }; P.X = [=](int, LD t) { return expl(b / a * (sinl(a * t + ph))); }; { double q = std::max(a, b), e = std::exp(b / a); P.m4 = e * q * q * q * q * 15; P.scale = e; P.amp = std::exp(2 * b / a); } break;
	case 4: P.F = [=](Real, const Vector<Real>& y, Vector<Real>& f) { f[0] = y[0] * y[1]; f[1] = -y[1] * y[1]; }; P.X = [=](int i, LD t) { return i ? 1 / (t + b) : (t + b) * a; }; P.m4 = 24 / std::pow(b, 5); P.scale = std::max(1 / b, a * (T + b)); P.amp = 4 * std::pow((T + b) / b, 2); break;
	case 5: P.F = [=](Real t, const Vector<Real>& y, Vector<Real>& f) { f[0] = -a * (y[0] - std::sin(3 * t + ph)) + 3 * std::cos(3 * t + ph); }; P.X = [=](int, LD t) { return sinl(3 * t + ph) + b * expl(-a * t); }; P.m4 = 81 + b * a * a * a * a; P.scale = 1 + b; break;
	default: P.F = [=](Real, const Vector<Real>& y, Vector<Real>& f) { f[0] = y[1]; f[1] = y[2]; f[2] = b * y[2] - 0 * y[0]; }; P.X = [=](int i, LD t) { LD q = ph / (b * b) * expl(b * t); return i == 2 ? ph * expl(b * t) : i == 1 ? a + q * b : 1 + a * t + q; }; { double g = std::exp(b * T); P.m4 = std::fabs(ph) * g * std::max(1.0, b * b * b * b); P.scale = 1 + a * T + std::fabs(ph) / (b * b) * g * std::max(1.0, b * b) + 1 / b; P.amp = g * (1 + T * T); } break; }
	return P; }
struct Run { ODESystemSolution sol; SolutionStatistics st; };
template<class S> static Run runT(const IODESystem& sys, const Vector<Real>& x0, double T0, double T1, double dt, double eps, double h0, double hmax) { ODEAdaptiveIntegrator<S> I(sys); auto so = hmax > 0 ? I.integrate(x0, T0, T1, dt, eps, h0, 1e-15, hmax) : I.integrate(x0, T0, T1, dt, eps, h0); return { so, I.getStatistics() }; }
static Run run(int k, const IODESystem& sys, const Vector<Real>& x0, double T0, double T1, double dt, double eps, double h0 = 0, double hmax = 0) { switch (k) { case 0: return runT<DormandPrince5_Stepper>(sys, x0, T0, T1, dt, eps, h0, hmax); case 1: return runT<CashKarp_Stepper>(sys, x0, T0, T1, dt, eps, h0, hmax); case 2: return runT<DormandPrince8_Stepper>(sys, x0, T0, T1, dt, eps, h0, hmax); case 3: return runT<BulirschStoer_Stepper>(sys, x0, T0, T1, dt, eps, h0, hmax); default: return runT<BulirschStoerRational_Stepper>(sys, x0, T0, T1, dt, eps, h0, hmax); } }
template<class S> static Run runAt(const IODESystem& sys, const Vector<Real>& x0, const Vector<Real>& ts, double eps) { ODEAdaptiveIntegrator<S> I(sys); auto so = I.integrateAt(x0, ts, eps); return { so, I.getStatistics() }; }
static Run at(int k, const IODESystem& sys, const Vector<Real>& x0, const Vector<Real>& ts, double eps) { switch (k) { case 0: return runAt<DormandPrince5_Stepper>(sys, x0, ts, eps); case 1: return runAt<CashKarp_Stepper>(sys, x0, ts, eps); case 2: return runAt<DormandPrince8_Stepper>(sys, x0, ts, eps); case 3: return runAt<BulirschStoer_Stepper>(sys, x0, ts, eps); default: return runAt<BulirschStoerRational_Stepper>(sys, x0, ts, eps); } }
static LD budget(const Prob& P, const Run& R, double eps) { return (eps * (R.st.acceptedSteps + 3) * 30 + 1e-14 * (R.st.acceptedSteps + 10)) * P.scale * P.amp; }

LAW(tolerance, 1500, 15000) { int M = (int)s.i(0, 4); double T = s.uni(0.3, 6), T0 = s.b() ? 0 : s.uni(-20, 20), eps = std::pow(10.0, s.uni(-11, -4)); Prob P = prob(s, T); double dt = s.b() ? T / (int)s.i(1, 40) : s.uni(0.02, 1) * T * 1.3; double hmax = s.chance(1, 4) ? T / s.uni(5, 60) : 0, h0 = s.chance(1, 3) ? T * s.uni(0.001, 1) : 0; c.say([&](auto& o) { o << NM[M] << " " << P.d << " T0=" << fmt(T0) << " T=" << fmt(T) << " eps=" << fmt(eps) << " dt=" << fmt(dt) << " h0=" << fmt(h0) << " hmax=" << fmt(hmax); }); c.label(NM[M]);
	int calls = 0; double lo = 1e300, hi = -1e300; ODESystemFromStdFunc sys(P.n, [&](Real t, const Vector<Real>& y, Vector<Real>& f) { calls++; lo = std::min(lo, t); hi = std::max(hi, t); P.F(t - T0, y, f); }); Vector<Real> x0(P.n); for (int i = 0; i < P.n; i++) x0[i] = (double)P.X(i, 0); Vector<Real> keep = x0; double T1 = T0 + T; Run R = run(M, sys, x0, T0, T1, dt, eps, h0, hmax); for (int i = 0; i < P.n; i++) CHECK(x0[i] == keep[i], "initial state modified"); int N = R.sol.size(); c.nontrivial(R.st.acceptedSteps >= 5);
	CHECK(R.sol.getTValue(0) == T0 && R.sol.getTValue(N - 1) == T1, "interval not covered: last time " << fmt(R.sol.getTValue(N - 1)) << " of " << fmt(T1)); LD steps = (LD)(T1 - T0) / dt; int want = (int)ceill(steps - 1e-6L) + 1; CHECK(std::abs(N - std::max(2, want)) <= (fabsl(steps - roundl(steps)) < 1e-5L ? 1 : 0), N << " points instead of " << want); CHECK(R.sol.getTValues().size() == N, "unfilled points in the returned grid"); for (int k = 1; k < N; k++) { CHECK(R.sol.getTValue(k) > R.sol.getTValue(k - 1), "times not increasing"); if (k < N - 1) CHECK_NEAR((LD)R.sol.getTValue(k), (LD)T0 + (LD)k * dt, 1e-14L * (k + 1) * (fabsl(T0) + T), "output time " << k); }
	LD B = budget(P, R, eps); double hm = R.st.maxStepSize; LD herm = powl(hm, 4) / 384 * P.m4 * 1.2L; LD conv = 4e-16L * (fabsl(T0) + T) * (powl(P.m4, 0.25L) + 1) * P.scale * P.amp; for (int k = 0; k < N; k++) for (int i = 0; i < P.n; i++) { LD t = (LD)R.sol.getTValue(k) - T0; bool end = k == 0 || k == N - 1; CHECK_NEAR((LD)R.sol.getXValue(k, i), P.X(i, t), B + conv * 4 + (end ? 0 : herm), (end ? "end" : "dense") << " value at point " << k << " (eps=" << eps << ", steps=" << R.st.acceptedSteps << ", hmax=" << hm << ")"); }
	CHECK(R.st.acceptedSteps >= 1 && R.st.minStepSize > 0 && R.st.minStepSize <= R.st.maxStepSize && R.st.maxStepSize <= T * (1 + 1e-12), "step statistics"); if (hmax > 0) CHECK(R.st.maxStepSize <= hmax * (1 + 1e-12), "step " << R.st.maxStepSize << " above the maximum " << hmax); CHECK(std::abs(R.st.totalFuncEvals - calls) <= 4 + 2 * R.st.totalSteps(), "function evaluations " << R.st.totalFuncEvals << " counted, " << calls << " made"); CHECK(hi <= T1 + 1e-9 * (1 + T) + (h0 == 0 && T > 0 ? 0 : 0) && lo >= T0, "derivative evaluated outside the interval: [" << fmt(lo) << "," << fmt(hi) << "]"); }

LAW(output_times, 800, 8000) { int M = (int)s.i(0, 4); double T = s.uni(0.3, 5), eps = std::pow(10.0, s.uni(-10, -5)); Prob P = prob(s, T); int N = (int)s.i(2, 12); std::vector<double> v{ 0.0 }; for (int i = 1; i < N; i++) v.push_back(s.chance(1, 6) ? v.back() + s.pick({1e-3, 1e-7}) : s.uni(0, T)); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); DISCARD_IF((int)v.size() < 2); N = (int)v.size(); Vector<Real> ts(N); for (int i = 0; i < N; i++) ts[i] = v[i]; c.say([&](auto& o) { o << NM[M] << " " << P.d << " eps=" << fmt(eps) << " times"; for (double x : v) o << " " << fmt(x); }); c.label(NM[M]); c.nontrivial(N >= 4); ODESystemFromStdFunc sys(P.n, P.F); Vector<Real> x0(P.n); for (int i = 0; i < P.n; i++) x0[i] = (double)P.X(i, 0); Run R = at(M, sys, x0, ts, eps); CHECK(R.sol.size() == N, R.sol.size() << " points instead of " << N); LD B = budget(P, R, eps); for (int k = 0; k < N; k++) { CHECK_NEAR((LD)R.sol.getTValue(k), (LD)v[k], 1e-15L * (1 + T), "requested time " << k); for (int i = 0; i < P.n; i++) CHECK_NEAR((LD)R.sol.getXValue(k, i), P.X(i, v[k]), B, "value at requested time " << k); } Vector<Real> one(1); CHECK_THROWS(at(M, sys, x0, one, eps), ODESolverError, "one output time"); }

LAW(reversal, 400, 4000) { int M = (int)s.i(0, 4); double T = s.uni(0.3, 3), eps = std::pow(10.0, s.uni(-11, -6)); Prob P = prob(s, T); DISCARD_IF(P.d[8] == '0' || P.d[8] == '5'); c.say([&](auto& o) { o << NM[M] << " " << P.d << " T=" << fmt(T) << " eps=" << fmt(eps); }); c.nontrivial(true); ODESystemFromStdFunc sys(P.n, P.F), bk(P.n, [&](Real t, const Vector<Real>& y, Vector<Real>& f) { P.F(T - t, y, f); for (int i = 0; i < P.n; i++) f[i] = -f[i]; }); Vector<Real> x0(P.n); for (int i = 0; i < P.n; i++) x0[i] = (double)P.X(i, 0); Run A = run(M, sys, x0, 0, T, T / 4, eps); Run B = run(M, bk, A.sol.getXValuesAtEnd(), 0, T, T / 4, eps); LD tol = (budget(P, A, eps) + budget(P, B, eps)) * P.amp * 3; Vector<Real> e = B.sol.getXValuesAtEnd(); for (int i = 0; i < P.n; i++) CHECK_NEAR((LD)e[i], (LD)x0[i], tol, "integrating back does not return to the start"); CHECK_THROWS(run(M, sys, x0, T, 0, T / 4, eps), std::exception, "reversed interval accepted"); }

LAW(failure_reported, 300, 3000) { int M = (int)s.i(0, 4); double b = s.uni(0.5, 3), over = s.uni(0.05, 2); c.say([&](auto& o) { o << NM[M] << " blow-up at t=" << fmt(1 / b) << ", requested until " << fmt(1 / b + over); }); c.nontrivial(true); c.label(NM[M]); ODESystemFromStdFunc sys(1, [](Real, const Vector<Real>& y, Vector<Real>& f) { f[0] = y[0] * y[0]; }); Vector<Real> x0(1); x0[0] = b; bool thrown = false; try { Run R = run(M, sys, x0, 0, 1 / b + over, 0.1, 1e-8); double e = R.sol.getXValuesAtEnd()[0]; thrown = !std::isfinite(e); } catch (const std::exception&) { thrown = true; } CHECK(thrown, "integration across a singularity returned a finite result without complaint"); ODEAdaptiveConfig cfg; cfg.integrator.tolerance = 1e-8; auto r = ODEAdaptiveIntegrateDetailed<DormandPrince5_Stepper>(sys, x0, 0, 0.5 / b, cfg); CHECK(r.status == AlgorithmStatus::Success && r.solution && r.accepted_steps > 0, "detailed success"); CHECK_NEAR(r.solution->getXValuesAtEnd()[0], 2 * b, 1e-5 * b, "detailed value"); cfg.integrator.max_steps = std::max(1, r.accepted_steps / 2); auto q = ODEAdaptiveIntegrateDetailed<DormandPrince5_Stepper>(sys, x0, 0, 0.5 / b, cfg); CHECK(q.status == AlgorithmStatus::MaxIterationsExceeded && !q.error_message.empty(), "exceeded step limit not reported"); }
// every stepper: dense output is the cubic through both end states with the derivatives there
LAW(dense_output, 1200, 12000) { int M = (int)s.i(0, 4); Prob P = prob(s, 3); double h = s.uni(0.05, 1.5), eps = std::pow(10.0, s.uni(-9, -3)); c.say([&](auto& o) { o << NM[M] << " " << P.d << " h=" << fmt(h) << " eps=" << fmt(eps); }); c.label(NM[M]); c.nontrivial(true); ODESystemFromStdFunc sys(P.n, P.F); auto st = mk(M, sys); double t = 0; Vector<Real> x(P.n), f(P.n); for (int i = 0; i < P.n; i++) x[i] = (double)P.X(i, 0); sys.derivs(0, x, f); for (int k = 0; k < 4 && t < 3; k++) { Vector<Real> xo = x, fo = f; auto r = st->doStep(t, x, f, h, eps); if (!r.accepted) { for (int i = 0; i < P.n; i++) CHECK(x[i] == xo[i] && f[i] == fo[i], "rejected step changed the state"); CHECK(r.hNext < r.hDone, "rejected step not followed by a smaller one"); h = r.hNext; continue; } double H = r.hDone; CHECK(H > 0 && H <= h * (1 + 1e-15) && r.hNext > 0, "step size done " << H << " of " << h); Vector<Real> fn(P.n); sys.derivs(t + H, x, fn); for (int q = 0; q < 4; q++) { LD th = s.unit(); Vector<Real> y = st->interpolate(t + (double)th * H); for (int i = 0; i < P.n; i++) { LD w = (2 * th * th * th - 3 * th * th + 1) * xo[i] + (th * th * th - 2 * th * th + th) * H * fo[i] + (3 * th * th - 2 * th * th * th) * x[i] + (th * th * th - th * th) * H * fn[i]; CHECK_NEAR((LD)y[i], w, 1e-12L * P.scale * (1 + P.m4), "dense output inside step " << k + 1 << " at theta=" << (double)th); } } t += H; h = r.hNext; } }
