// C16 numerical derivatives of real functions
#include "common.h"
#include "interfaces/IFunction.h"
#include "core/Derivation/DerivationRealFunction.h"
#include <functional>
using namespace Derivation;
struct Fn : IRealFunction { std::function<LD(LD)> g; mutable long calls = 0; mutable double lo = 1e300, hi = -1e300; bool bad = false; double badv = 0;
	Real operator()(Real x) const override { calls++; lo = std::min(lo, x); hi = std::max(hi, x); if (bad) return badv; return (double)g(x); } };
// f = sum A sin(w x + p) + polynomial : exact derivatives of every order and bounds on an interval
struct Sm { std::vector<double> A, w, p, c; 
	LD d(int n, LD x) const { LD t = 0; for (size_t i = 0; i < A.size(); i++) t += A[i] * std::pow((LD)w[i], n) * std::sin(w[i] * x + p[i] + n * std::acos(-1.0L) / 2); for (int k = (int)c.size() - 1; k >= n; k--) { LD f = c[k]; for (int j = 0; j < n; j++) f *= k - j; LD q = f; for (int j = 0; j < k - n; j++) q *= x; t += q; } return t; }
	LD bound(int n, LD r) const { LD t = 0; for (size_t i = 0; i < A.size(); i++) t += std::fabs(A[i]) * std::pow((LD)w[i], n); for (int k = (int)c.size() - 1; k >= n; k--) { LD f = std::fabs(c[k]); for (int j = 0; j < n; j++) f *= k - j; t += f * std::pow(r, k - n); } return t; }
	std::string str() const { std::ostringstream o; for (size_t i = 0; i < A.size(); i++) o << A[i] << "*sin(" << w[i] << "x+" << p[i] << ") "; for (size_t i = 0; i < c.size(); i++) o << c[i] << "x^" << i << " "; return o.str(); } };
static Sm gen(Src& s, bool poly, int deg) { Sm f; if (!poly) for (int i = s.size(1, 3); i > 0; i--) { f.A.push_back(s.nz(0.1, 5)); f.w.push_back(s.uni(0.2, 3)); f.p.push_back(s.uni(-3, 3)); } if (poly || s.b()) for (int i = 0; i <= deg; i++) f.c.push_back((double)s.i(-5, 5)); return f; }
struct Rule { const char* nm; int d, p; double ct; int ev, eve; double off, offh; double (*def)(const IRealFunction&, Real); double (*defE)(const IRealFunction&, Real, Real*); double (*h)(const IRealFunction&, Real, Real, Real*); DerivativeResult<Real> (*det)(const IRealFunction&, Real, const DerivativeConfig&); DerivativeResult<Real> (*detH)(const IRealFunction&, Real, Real, const DerivativeConfig&); double dh; int reach, reachE; };
#define RL(N, d, p, ct, ev, eve, dh, reach, reachE) {#N, d, p, ct, ev, eve, 0, 0, [](const IRealFunction& f, Real x) { return N(f, x); }, [](const IRealFunction& f, Real x, Real* e) { return N(f, x, e); }, [](const IRealFunction& f, Real x, Real h, Real* e) { return N(f, x, h, e); }, [](const IRealFunction& f, Real x, const DerivativeConfig& c) { return N##Detailed(f, x, c); }, [](const IRealFunction& f, Real x, Real h, const DerivativeConfig& c) { return N##Detailed(f, x, h, c); }, dh, reach, reachE}
static const Rule& rule(int i) { static const Rule R[] = {
	RL(NDer1, 1, 1, 1.0 / 2, 2, 3, NDer1_h, 1, 1), RL(NDer2, 1, 2, 1.0 / 6, 2, 4, NDer2_h, 1, 2), RL(NDer4, 1, 4, 1.0 / 30, 4, 6, NDer4_h, 2, 3), RL(NDer6, 1, 6, 1.0 / 140, 6, 8, NDer6_h, 3, 4), RL(NDer8, 1, 8, 1.0 / 630, 8, 10, NDer8_h, 4, 5),
	RL(NSecDer2, 2, 2, 1.0 / 12, 3, 5, NDer2_h, 1, 2), RL(NSecDer4, 2, 4, 1.0 / 90, 5, 7, NDer4_h, 2, 3), RL(NThirdDer2, 3, 2, 1.0 / 4, 4, 6, NDer4_h, 2, 3), RL(NThirdDer4, 3, 4, 7.0 / 120, 6, 8, NDer4_h, 3, 4)}; return R[i]; }
static void judge(Src& s, pbt::Case& c, bool poly) {
	const Rule& R = rule((int)s.choice(8)); Sm m = gen(s, poly, poly ? R.p + R.d - 1 : s.size(0, 4)); double x = s.pick({s.uni(-2, 2), (double)s.i(-3, 3), s.real(-30, 30)}); bool defh = s.b(); double h = defh ? R.dh * std::max(1.0, std::fabs(x)) : poly ? s.uni(0.05, 2) : std::pow(10.0, -s.uni(0.5, 4));
	Fn f; f.g = [=](LD t) { return m.d(0, t); }; c.say([&](auto& o) { o << R.nm << " of " << m.str() << " at " << fmt(x) << " h=" << fmt(h) << " default " << defh; }); c.label(R.nm); c.nontrivial(poly ? m.c.back() != 0 : true);
	LD ex = m.d(R.d, x), r = std::fabs(x) + 5 * h; LD tr = R.ct * m.bound(R.p + R.d, r) * powl(h, R.p) + R.ct * m.bound(R.p + R.d + 2, r) * powl(h, R.p + 2), rd = 12 * EPS * (m.bound(0, r) + std::fabs(x) * m.bound(1, r)) / powl(h, R.d), tol = 1.2L * tr + rd + 4 * EPS * fabsl(ex);
	double e = -1, v = defh ? R.def(f, x) : R.h(f, x, h, nullptr); CHECK(f.calls == R.ev, "evaluations " << f.calls); CHECK(f.lo >= x - (R.reach + 1e-6) * h - 1e-300 && f.hi <= x + (R.reach + 1e-6) * h, "stencil " << f.lo << " " << f.hi);
	CHECK(fabsl(v - ex) <= tol, "value " << fmt(v) << " exact " << fmt((double)ex) << " tol " << (double)tol);
	f.calls = 0; double v2 = defh ? R.defE(f, x, &e) : R.h(f, x, h, &e); CHECK(v2 == v, "value changes when the error is requested"); CHECK(f.calls == R.eve, "evaluations with error " << f.calls);
	CHECK(e >= 0 && std::isfinite(e), "error estimate " << e); CHECK(e <= 40 * tol, "error estimate " << e << " for a formula accurate to " << (double)tol);
	LD nx = 0; for (int k = 1; k <= 2; k++) nx += m.bound(R.p + R.d + k, r) * powl(h, R.p + k); CHECK(fabsl(v - ex) <= 3 * e + 2 * R.ct * 20 * nx + rd, "error " << (double)fabsl(v - ex) << " estimate " << e);
	// Detailed
	DerivativeConfig cf; cf.estimate_error = s.b(); f.calls = 0; bool viacfg = s.b(); if (viacfg && !defh) cf.step = h; auto D = defh || viacfg ? R.det(f, x, cf) : R.detH(f, x, h, cf);
	CHECK(D.value == v, "Detailed value"); CHECK(D.step_used == h, "step used " << fmt(D.step_used)); CHECK(D.function_evaluations == (int)f.calls && f.calls == (cf.estimate_error ? R.eve : R.ev), "reported evaluations " << D.function_evaluations << " actual " << f.calls); CHECK(D.status == AlgorithmStatus::Success, "status"); CHECK(D.error == (cf.estimate_error ? e : 0), "Detailed error");
	CHECK(D.algorithm_name == std::string(R.nm), "algorithm name " << D.algorithm_name);
}
LAW(exact_polynomials, 1500, 12000) { judge(s, c, true); }
LAW(order, 1500, 12000) { judge(s, c, false); }
struct Side { const char* nm; int p; double dh; double (*def)(const IRealFunction&, Real, Real*); double (*h)(const IRealFunction&, Real, Real, Real*); bool left; };
#define SD(N, p, dh, L) {#N, p, dh, [](const IRealFunction& f, Real x, Real* e) { return N(f, x, e); }, [](const IRealFunction& f, Real x, Real h, Real* e) { return N(f, x, h, e); }, L}
static const Side& side(int i) { static const Side R[] = {SD(NDer1Left, 1, NDer1_h, true), SD(NDer1Right, 1, NDer1_h, false), SD(NDer2Left, 2, NDer2_h, true), SD(NDer2Right, 2, NDer2_h, false), SD(NDer4Left, 4, NDer4_h, true), SD(NDer4Right, 4, NDer4_h, false), SD(NDer6Left, 6, NDer6_h, true), SD(NDer6Right, 6, NDer6_h, false), SD(NDer8Left, 8, NDer8_h, true), SD(NDer8Right, 8, NDer8_h, false)}; return R[i]; }
LAW(onesided, 1500, 12000) {
	const Side& R = side((int)s.choice(9)); Sm m = gen(s, s.b(), 5); double x = s.pick({s.uni(-2, 2), (double)s.i(-3, 3)}); bool defh = s.b(), we = s.b(); double h = defh ? R.dh * std::max(1.0, std::fabs(x)) : std::pow(10.0, -s.uni(1, 4)); c.label(R.nm); c.say([&](auto& o) { o << R.nm << " of " << m.str() << " at " << fmt(x) << " h=" << fmt(h) << " default " << defh; });
	Fn f; f.g = [=](LD t) { return m.d(0, t); }; double e = -1; double v = defh ? R.def(f, x, we ? &e : nullptr) : R.h(f, x, h, we ? &e : nullptr);
	LD r = std::fabs(x) + 12 * h, tol = 7 * h * m.bound(2, r) + 0.5L * m.bound(R.p + 1, r) * powl(h, R.p) + 12 * EPS * (m.bound(0, r) + std::fabs(x) * m.bound(1, r)) / h; LD ex = m.d(1, x);
	CHECK(fabsl(v - ex) <= tol, "value " << fmt(v) << " exact " << fmt((double)ex) << " tol " << (double)tol);
	bool n1e = R.p == 1 && we; // the order-1 error estimate uses the central point pair
	if (!n1e) { if (R.left) CHECK(f.hi <= x + 1e-15 * (1 + std::fabs(x)), "left derivative evaluates the function at " << fmt(f.hi)); else CHECK(f.lo >= x - 1e-15 * (1 + std::fabs(x)), "right derivative evaluates the function at " << fmt(f.lo)); }
	if (we) CHECK(e >= 0 && e < 100 * tol + 1, "error estimate " << e);
	// mirrored function: derivative from the other side, opposite sign
	Fn g; g.g = [=](LD t) { return m.d(0, -t); }; const Side& O = side((int)(&R - &side(0)) ^ 1); double w = defh ? O.def(g, -x, nullptr) : O.h(g, -x, h, nullptr); CHECK(fabsl(v + w) <= 2 * (12 * EPS * (m.bound(0, r) + std::fabs(x) * m.bound(1, r)) / h), "mirrored " << fmt(v) << " " << fmt(w)); c.nontrivial(true);
}
LAW(richardson, 800, 6000) {
	Sm m = gen(s, s.chance(1, 3), s.size(0, 9)); int d = s.i(1, 3), w = (int)s.choice(3); double x = s.uni(-2, 2), h = d == 3 ? 0.2 : 0.1, con = 1.4; int it = 10; double e = -1, v; Fn f; f.g = [=](LD t) { return m.d(0, t); }; if (w == 3) { h = s.uni(0.05, 0.4); con = s.uni(1.3, 2.2); it = s.i(6, 12); }
	c.say([&](auto& o) { o << "order " << d << " of " << m.str() << " at " << fmt(x) << " variant " << w << " h " << h << " con " << con << " it " << it; });
	auto run = [&](auto A, auto B, auto C, auto D) { return w == 0 ? A(&e) : w == 1 ? B(&e) : w == 2 ? C() : D(&e); };
	if (d == 1) v = run([&](Real* q) { return NDerRichardson(f, x, q); }, [&](Real* q) { return NDerAdaptive(f, x, q); }, [&] { return NDerAdaptive(f, x); }, [&](Real* q) { return NDerRichardson(f, x, h, q, it, con); });
	else if (d == 2) v = run([&](Real* q) { return NSecDerRichardson(f, x, q); }, [&](Real* q) { return NSecDerAdaptive(f, x, q); }, [&] { return NSecDerAdaptive(f, x); }, [&](Real* q) { return NSecDerRichardson(f, x, h, q, it, con); });
	else v = run([&](Real* q) { return NThirdDerRichardson(f, x, q); }, [&](Real* q) { return NThirdDerAdaptive(f, x, q); }, [&] { return NThirdDerAdaptive(f, x); }, [&](Real* q) { return NThirdDerRichardson(f, x, h, q, it, con); });
	LD ex = m.d(d, x), r = std::fabs(x) + 1, F = m.bound(0, r) + std::fabs(x) * m.bound(1, r), hm = h / std::pow(con, it - 1.0); LD M = 0, fac = 1; for (int k = 0; k < 6; k++) { M += m.bound(2 * k + d + 2, r) * powl(h, 2 * k + 2) ; fac *= 2; } (void)fac;
	LD err = fabsl(v - ex), sc = m.bound(d, r) + F; CHECK(std::isfinite(v), "value " << v);
	bool strict = fabsl(m.d(d + 2, x)) >= 3 * m.bound(d + 4, r) * h * h; if (!strict) c.label("possible early coincidence"); CHECK(err <= (strict ? 1e-6L : 2e-3L) * M + 60 * EPS * F / powl(d == 1 ? hm : hm * 2, d) + 1e-13L * sc, "value " << fmt(v) << " exact " << fmt((double)ex) << " err " << (double)err << " scale " << (double)sc << " M " << (double)M);
	if (w != 2) { CHECK(e >= 0 && std::isfinite(e), "estimate " << e); if (strict) CHECK(err <= 30 * e + 1e-10L * M + 60 * EPS * F / powl(h / 4, d), "error " << (double)err << " estimate " << e); CHECK(e <= (strict ? 1e-5L : 2e-2L) * M + 200 * EPS * F / powl(hm, d) + 1e-13L * sc, "estimate " << e << " too large"); }
	c.nontrivial(M > 0 && fabsl(ex) > 1e-3 * sc);
	// the documented degenerate request
	double e0 = -1; CHECK(NDerRichardson(f, x, 0.0, &e0) == 0 && e0 > 1e300 && NSecDerRichardson(f, x, 0.0, &e0) == 0 && NThirdDerRichardson(f, x, 0.0, &e0) == 0 && e0 > 1e300, "h = 0");
}
LAW(pointers_and_failures, 800, 5000) {
	const Rule& R = rule((int)s.choice(8)); Sm m = gen(s, false, 3); double x = s.uni(-3, 3); Fn f; f.g = [=](LD t) { return m.d(0, t); }; c.say([&](auto& o) { o << R.nm << " of " << m.str() << " at " << fmt(x); }); double e;
	CHECK(Derive(f, x) == NDer4(f, x) && DeriveErr(f, x, &e) == NDer4(f, x) && DeriveSec(f, x, &e) == NSecDer4(f, x) && DeriveThird(f, x, &e) == NThirdDer2(f, x), "default derivation pointers");
	DerivativeConfig cf; cf.estimate_error = s.b(); cf.check_finite = true; double bad = s.pick({(double)NAN, (double)INFINITY, -1.0, -0.0}); bool badf = s.b(); double h = badf ? 1e-2 : bad; if (badf) { f.bad = true; f.badv = s.pick({(double)NAN, (double)INFINITY, -(double)INFINITY}); }
	bool thrown = false; cf.exception_policy = EvaluationExceptionPolicy::Propagate; try { R.detH(f, x, h, cf); } catch (const std::exception&) { thrown = true; } CHECK(thrown, "no exception for " << (badf ? "a non-finite function" : "a bad step"));
	cf.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto D = R.detH(f, x, h, cf); CHECK(D.status == (badf ? AlgorithmStatus::NumericalInstability : AlgorithmStatus::InvalidInput) && !D.IsSuccess(), "failure status " << (int)D.status); CHECK(!D.error_message.empty() && D.algorithm_name == R.nm, "failure report");
	if (!badf) { thrown = false; try { R.h(f, x, h, nullptr); } catch (const std::exception&) { thrown = true; } CHECK(thrown, "bad step accepted"); }
	struct Bomb : IRealFunction { Real operator()(Real) const override { throw std::runtime_error("user"); } } bomb; auto B = R.det(bomb, x, cf); CHECK(B.status == AlgorithmStatus::AlgorithmSpecificFailure, "user exception status"); cf.exception_policy = EvaluationExceptionPolicy::Propagate; CHECK_THROWS(R.det(bomb, x, cf), std::runtime_error, "user exception swallowed"); c.nontrivial(true);
}
