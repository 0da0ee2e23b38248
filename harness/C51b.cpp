// C51 (second part): fixed points on a grid of guesses, iteration limits, diverging searches and instrumented sweeps
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Function.h"
#include "interfaces/IDynamicalSystem.h"
#include "systems/DynamicalSystem.h"
#include "systems/DynamicalSystemAnalyzer.h"
using namespace MML::Systems; typedef std::vector<double> V;
struct Grid : IDynamicalSystem { // x_i' = s_i * prod_k (x_i - r_ik): every combination of roots is a fixed point with eigenvalues s_i p'(r)
	int n = 1; std::vector<V> r; V sg; double par = 1; mutable long calls = 0; long fail = 0;
	int getDim() const override { return n; } int getNumParam() const override { return 1; } Real getParam(int) const override { return par; } void setParam(int, Real v) override { par = v; } Vector<Real> getParams() const override { Vector<Real> p(1); p[0] = par; return p; } void setParams(const Vector<Real>& p) override { par = p[0]; }
	void derivs(Real, const Vector<Real>& y, Vector<Real>& d) const override { if (fail && ++calls >= fail) throw std::runtime_error("model failed"); for (int i = 0; i < n; i++) { double q = sg[i] * par; for (double z : r[i]) q *= y[i] - z; d[i] = q; } }
	double dp(int i, double x) const { double t = 0; for (size_t a = 0; a < r[i].size(); a++) { double q = 1; for (size_t b = 0; b < r[i].size(); b++) if (b != a) q *= x - r[i][b]; t += q; } return t * sg[i] * par; }
	void jacobian(Real, const Vector<Real>& x, Matrix<Real>& J) const override { J.Resize(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) J(i, j) = i == j ? dp(i, x[i]) : 0; } };
LAW(box_search, 250, 2500) { // every fixed point lying at a node of the search grid is found, once, and classified
	Grid G; G.n = (int)s.i(1, 4); int gp = (int)s.i(2, G.n > 3 ? 3 : 4); Vector<Real> lo(G.n), hi(G.n); size_t total = 1; for (int i = 0; i < G.n; i++) { lo[i] = s.uni(-4, 0); hi[i] = lo[i] + s.uni(2, 5); V z; for (int k = 0; k < gp; k++) if (s.chance(2, 3) || (z.empty() && k == gp - 1)) { double w = (hi[i] - lo[i]) / (gp - 1); z.push_back(lo[i] + k * w + s.uni(-0.03, 0.03) * w); } G.r.push_back(z); G.sg.push_back((s.b() ? 1 : -1) * s.uni(0.5, 2)); total *= z.size(); }
	c.say([&](auto& o) { o << G.n << "-dim, " << gp << " grid points, " << total << " fixed points"; }); c.nontrivial(total > 1 && G.n > 1); c.label("dimension " + std::to_string(G.n)); DynamicalSystemAnalyzer A(G); auto F = A.FindFixedPointsInBox(lo, hi, gp); std::set<std::vector<int>> seen;
	for (auto& f : F) { std::vector<int> id; for (int i = 0; i < G.n; i++) { int b = -1; for (size_t k = 0; k < G.r[i].size(); k++) if (std::fabs(f.location[i] - G.r[i][k]) < 1e-7) b = (int)k; CHECK(b >= 0, "not a fixed point: coordinate " << i << " is " << f.location[i]); id.push_back(b); } CHECK(seen.insert(id).second, "fixed point listed twice"); int neg = 0; for (int i = 0; i < G.n; i++) neg += G.dp(i, G.r[i][id[i]]) < 0; CHECK(f.isStable == (neg == G.n), "stability"); CHECK((f.type == FixedPointType::StableNode) == (neg == G.n) || neg < G.n, "type"); CHECK(f.type != FixedPointType::Unknown, "unclassified"); std::vector<double> ev, wv; for (auto& e : f.eigenvalues) ev.push_back(e.real()); for (int i = 0; i < G.n; i++) wv.push_back(G.dp(i, f.location[i])); std::sort(ev.begin(), ev.end()); std::sort(wv.begin(), wv.end()); CHECK(ev.size() == wv.size(), "eigenvalue count"); for (size_t i = 0; i < ev.size(); i++) CHECK_NEAR(ev[i], wv[i], 1e-9 * (1 + std::fabs(wv.back()) + std::fabs(wv[0])), "eigenvalue"); }
	CHECK(F.size() == total, "found " << F.size() << " of " << total << " fixed points");
}
LAW(search_limits, 500, 5000) { // limits, divergence and failing models are reported
	Grid G; G.n = (int)s.i(1, 3); for (int i = 0; i < G.n; i++) { V z; for (int k = (int)s.i(1, 3); k--;) z.push_back(s.uni(-2, 2)); G.r.push_back(z); G.sg.push_back(s.b() ? 1 : -1); } int lim = (int)s.i(0, 6), mode = (int)s.i(0, 3); Vector<Real> g(G.n); for (int i = 0; i < G.n; i++) g[i] = s.uni(-4, 4); if (mode == 1) g[(int)s.i(0, G.n - 1)] = s.pick({ (double)NAN, 1e200, HUGE_VAL }); if (mode == 2) G.fail = s.i(1, 5); double tol = 1e-9; c.say([&](auto& o) { o << G.n << "-dim limit " << lim << " mode " << mode; }); c.nontrivial(lim > 0); c.label("mode " + std::to_string(mode));
	DynSysConfig C; bool prop = s.b(); C.exception_policy = prop ? EvaluationExceptionPolicy::Propagate : EvaluationExceptionPolicy::ConvertToStatus; FindFixedPointResult<Real> R; bool thr = false; try { R = FindFixedPointDetailed(G, g, tol, lim, C); } catch (const std::exception&) { thr = true; } bool exhausted = G.fail && G.calls >= G.fail;
	CHECK(!thr || (prop && mode != 0), "throws"); if (thr) return; if (exhausted) { CHECK(!prop && R.status != AlgorithmStatus::Success && !R.error_message.empty(), "a failed model counts as success"); return; }
	bool ok = R.status == AlgorithmStatus::Success; G.fail = 0; if (ok) { double res = 0; Vector<Real> d(G.n); G.derivs(0, R.fixed_point.location, d); for (int i = 0; i < G.n; i++) res += d[i] * d[i]; CHECK(std::sqrt(res) < tol * (1 + 1e-9), "success at a point where the field is " << std::sqrt(res)); CHECK((int)R.fixed_point.eigenvalues.size() == G.n, "no classification of a found point"); CHECK(R.error_message.empty(), "message on success"); CHECK(R.fixed_point.iterations <= lim, "iterations"); } else CHECK(!R.error_message.empty(), "no message");
	auto P = FixedPointFinder::Find(G, g, tol, lim); CHECK((P.convergenceResidual < tol) == ok, "plain search disagrees");
}
LAW(sweep_detailed, 8, 80) { // instrumented sweep repeats the plain one and restores the parameter
	VanDerPolSystem S(0.7), T(0.7); int ns = (int)s.i(1, 3); double m0 = s.uni(0.3, 1), m1 = m0 + s.uni(0.2, 1); Vector<Real> x0(2); x0[0] = s.uni(0.2, 1); x0[1] = 0; c.say([&](auto& o) { o << m0 << ".." << m1 << " in " << ns; }); c.nontrivial(ns > 1); auto B = BifurcationAnalyzer::Sweep(S, 0, m0, m1, ns, x0, 0, 20, 15, 0.01); auto D = SweepBifurcationDetailed(T, 0, m0, m1, ns, x0, 0, 20, 15, 0.01);
	CHECK(D.status == AlgorithmStatus::Success && !D.algorithm_name.empty() && T.getParam(0) == 0.7, "status"); CHECK(D.diagram.parameterName == B.parameterName && D.diagram.parameterValues == B.parameterValues && D.diagram.attractorValues == B.attractorValues, "diagrams differ");
}
