// C32 (second part): configuration objects, default output grid, step limits and instrumented integration
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "interfaces/IODESystem.h"
#include "base/ODESystem.h"
#include "base/ODESystemSolution.h"
#include "algorithms/ODESolvers/ODESteppers.h"
#include "algorithms/ODESolvers/ODESolverAdaptive.h"
struct Osc : IODESystem { int n; std::vector<double> w, a; mutable long calls = 0; long fail = 0; int getDim() const override { return n; } void derivs(const Real t, const Vector<Real>& y, Vector<Real>& f) const override { calls++; if (fail && calls >= fail) throw std::runtime_error("model failed"); for (int i = 0; i < n; i++) f[i] = -w[i] * y[(i + 1) % n] + a[i] * std::cos(t); } };
template<class St> static void go(Src& s, Case& c, const char* nm) {
	Osc S; S.n = (int)s.i(1, 3); for (int i = 0; i < S.n; i++) { S.w.push_back(s.uni(-2, 2)); S.a.push_back(s.uni(-1, 1)); } double t0 = s.chance(1, 4) ? 0 : s.uni(-5, 5), T = s.uni(0.5, 3), t1 = t0 + T; Vector<Real> x(S.n); for (int i = 0; i < S.n; i++) x[i] = s.uni(-2, 2);
	int pre = (int)s.i(0, 3); ODEAdaptiveConfig A; auto& C = A.integrator; if (pre == 1) C = ODEIntegratorConfig::HighPrecision(); if (pre == 2) C = ODEIntegratorConfig::Fast(); if (pre == 3) C = ODEIntegratorConfig::Stiff(); CHECK(ODEIntegratorConfig::HighPrecision().tolerance < ODEIntegratorConfig().tolerance && ODEIntegratorConfig().tolerance <= ODEIntegratorConfig::Fast().tolerance * 1.0000001 && ODEIntegratorConfig::HighPrecision().max_steps > ODEIntegratorConfig::Fast().max_steps, "presets are not ordered"); if (C.tolerance < 1e-12) C.tolerance = 1e-12; if (s.b()) C.output_interval = T / (int)s.i(1, 12) * (s.chance(1, 3) ? 0.93 : 1); bool lim = s.chance(1, 4); if (lim) C.max_steps = (int)s.i(1, 6); if (s.chance(1, 4)) C.max_step_size = T / (int)s.i(5, 30); if (s.chance(1, 4)) C.initial_step_size = T / (int)s.i(3, 50);
	bool bad = s.chance(1, 8); long lf = s.i(1, 30); bool prop = s.b(); A.exception_policy = prop ? EvaluationExceptionPolicy::Propagate : EvaluationExceptionPolicy::ConvertToStatus; c.say([&](auto& o) { o << nm << " dim " << S.n << " from " << t0 << " over " << T << " preset " << pre << " output " << C.output_interval << " limit " << C.max_steps << (bad ? " failing model" : ""); }); c.nontrivial(!bad); c.label(nm);
	ODEAdaptiveIntegrator<St> I(S), J(S); double oi = C.output_interval > 0 ? C.output_interval : T / 100;
	auto same = [&](const ODESystemSolution& p, const ODESystemSolution& q, const char* w) { CHECK(p.getTotalSavedSteps() == q.getTotalSavedSteps(), w << ": " << p.getTotalSavedSteps() << " against " << q.getTotalSavedSteps() << " points"); for (int k = 0; k < p.getTotalSavedSteps(); k++) { CHECK(p.getTValue(k) == q.getTValue(k), w << ": time " << k); for (int i = 0; i < S.n; i++) CHECK(p.getXValue(k, i) == q.getXValue(k, i), w << ": value " << k); } };
	if (bad) { S.fail = S.calls + lf; bool thr = false; ODEAdaptiveResult R; try { R = ODEAdaptiveIntegrateDetailed<St>(S, x, t0, t1, A); } catch (const std::exception&) { thr = true; } if (S.calls < S.fail) return; CHECK(thr == prop, "exception policy"); if (!thr) CHECK(R.status != AlgorithmStatus::Success && !R.error_message.empty() && !R.solution, "failed model reported as success"); return; }
	auto P = I.integrate(x, t0, t1, C); auto st = I.getStatistics(); auto Q = J.integrate(x, t0, t1, oi, C.tolerance, C.initial_step_size, C.min_step_size, C.max_step_size); same(P, Q, "configured against explicit"); auto R = ODEAdaptiveIntegrateDetailed<St>(S, x, t0, t1, A); CHECK((bool)R.solution, "no solution"); same(*R.solution, Q, "instrumented against explicit");
	bool over = st.acceptedSteps >= C.max_steps; CHECK((st.status == AlgorithmStatus::Success) == !over && (st.status == AlgorithmStatus::MaxIterationsExceeded) == over && st.error_message.empty() == !over, "status " << (int)st.status << " after " << st.acceptedSteps << " steps, limit " << C.max_steps); CHECK(R.status == st.status && R.error_message == st.error_message && R.accepted_steps == st.acceptedSteps && R.rejected_steps == st.rejectedSteps && R.total_func_evals == st.totalFuncEvals && R.min_step_size == st.minStepSize && R.max_step_size == st.maxStepSize && R.function_evaluations == st.totalFuncEvals, "statistics differ");
	CHECK(st.totalSteps() == st.acceptedSteps + st.rejectedSteps && std::fabs(st.acceptanceRate() * st.totalSteps() - st.acceptedSteps) < 1e-9, "rate"); CHECK(st.minStepSize <= st.maxStepSize && st.minStepSize > 0 && st.maxStepSize <= C.max_step_size * (1 + 1e-12) && st.maxStepSize <= T * (1 + 1e-12), "step range " << st.minStepSize << ".." << st.maxStepSize);
	int n = P.getTotalSavedSteps(); CHECK(P.getTValue(0) == t0, "first time"); CHECK(std::fabs(P.getTValue(n - 1) - t1) <= 1e-12 * (1 + std::fabs(t1)), "last time " << P.getTValue(n - 1) << " for " << t1); for (int k = 0; k + 1 < n; k++) CHECK_NEAR(P.getTValue(k), t0 + k * oi, 1e-11 * (1 + std::fabs(t1)), "output time " << k << " of " << n); if (C.output_interval <= 0) CHECK(n == 101, n << " default output points");
	// the same object again: the second run must not remember the first
	ODEIntegratorConfig C2 = C; C2.max_steps = 1000000; auto P2 = I.integrate(x, t0, t1, C2); same(P2, P, "second run"); CHECK(I.getStatistics().status == AlgorithmStatus::Success && I.getStatistics().error_message.empty() && I.getStatistics().acceptedSteps == st.acceptedSteps, "the second run reports the first run's failure");
	// dense output at chosen times agrees with the grid
	int m = (int)s.i(2, 12); Vector<Real> tt(m); tt[0] = t0; for (int k = 1; k < m; k++) tt[k] = tt[k - 1] + s.uni(0.01, 1) * T / m; auto U = J.integrateAt(x, tt, C.tolerance); for (int k = 0; k < m; k++) CHECK_NEAR(U.getTValue(k), tt[k], 1e-12 * (1 + std::fabs(tt[k])), "requested time " << k); { Vector<Real> two(2); two[0] = t0; two[1] = tt[m - 1]; auto W = J.integrateAt(x, two, 1e-12); double wm = 0; for (double q : S.w) wm = std::max(wm, std::fabs(q)); for (int i = 0; i < S.n; i++) CHECK_NEAR(U.getXValue(m - 1, i), W.getXValue(1, i), 1e4 * C.tolerance * std::exp(wm * T) * (1 + T) + 1e-9, "end value " << i); }
	Vector<Real> one(1); one[0] = t0; CHECK_THROWS(J.integrateAt(x, one), std::exception, "one output time");
}
LAW(configured, 220, 2500) { switch (s.i(0, 4)) { case 0: go<DormandPrince5_Stepper>(s, c, "DormandPrince5"); break; case 1: go<CashKarp_Stepper>(s, c, "CashKarp"); break; case 2: go<DormandPrince8_Stepper>(s, c, "DormandPrince8"); break; case 3: go<BulirschStoer_Stepper>(s, c, "BulirschStoer"); break; default: go<BulirschStoerRational_Stepper>(s, c, "BulirschStoerRational"); } }
