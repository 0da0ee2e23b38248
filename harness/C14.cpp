// C14 improper integrals
#include "common.h"
#include "interfaces/IFunction.h"
#include "core/Integration/Integration1D.h"
#include "core/Integration/IntegrationImproper.h"
#include <functional>
struct Fn : IRealFunction { std::function<double(double)> g; mutable long calls = 0; mutable double lo = 1e300, hi = -1e300; Real operator()(Real x) const override { calls++; lo = std::min(lo, x); hi = std::max(hi, x); return g(x); } };
struct Steps { int old; Steps(int n) : old(Defaults::RombergIntegrationMaxSteps) { Defaults::RombergIntegrationMaxSteps = n; } ~Steps() { Defaults::RombergIntegrationMaxSteps = old; } };   // 3^19 evaluations otherwise
// decaying integrands with exact tail integrals: upper(a) = int_a^inf
static const char* TN[] = {"exp", "Lorentzian", "power", "Gaussian", "x exp", "cosh^-2"};
struct Tail { int k; double p, q, A; double f(double x) const { double t = x - q; switch (k) { case 0: return A * std::exp(-p * std::fabs(t)); case 1: return A / (p * p + t * t); case 2: return A / std::pow(1 + t * t, 1.5); case 3: return A * std::exp(-p * t * t); case 4: return A * t * std::exp(-p * t * t / 2); default: { double h = 1 / std::cosh(std::min(700.0, p * std::fabs(t))); return A * h * h; } } }
	LD up(LD a) const { LD t = a - q, h = std::acos(-1.0L) / 2; switch (k) { case 0: return t >= 0 ? A * std::exp(-p * t) / p : A * (2 - std::exp(p * t)) / p; case 1: return A * (h - std::atan(t / p)) / p; case 2: return t > 0 ? A / (std::sqrt(1 + t * t) * (std::sqrt(1 + t * t) + t)) : A * (1 - t / std::sqrt(1 + t * t)); case 3: return A * std::sqrt(2 * h / p) / 2 * std::erfc(std::sqrt((LD)p) * t); case 4: return A * std::exp(-p * t * t / 2) / p; default: return A / p * 2 / (std::exp(2 * p * t) + 1); } }
	LD down(LD b) const { LD t = b - q; Tail m = *this; m.q = 0; if (k == 4) return -m.up(-t); return m.up(-t); } };
static Tail genTail(Src& s) { Tail t; t.k = (int)s.choice(5); t.p = s.uni(0.4, 2); t.q = s.uni(-0.7, 0.7); t.A = s.pick({1.0, -2.0, 3e5, 1e-6}); return t; }
LAW(infinite, 500, 4000) {
	Tail T = genTail(s); int w = (int)s.choice(3); double a = s.uni(-1.5, 1.5), eps = std::pow(10.0, -s.uni(4, 9)); if (w == 2) a = 0; if (T.k == 0) { T.q = a; if (w == 2) T.q = 0; } Steps st(13); Fn f; f.g = [=](double x) { return T.f(x); }; c.nontrivial(true); c.label(TN[T.k]); c.say([&](auto& o) { o << "range " << w << " " << TN[T.k] << " p=" << T.p << " q=" << T.q << " A=" << T.A << " from " << a << " eps " << eps; });
	auto run = [&](const IRealFunction& g) { return w == 0 ? IntegrateUpperInf(g, a, eps) : w == 1 ? IntegrateLowerInf(g, a, eps) : w == 2 ? IntegrateInf(g, eps) : IntegrateInfSplit(g, a, eps); }; IntegrationResult r = run(f); LD U = T.up(a), L = T.down(a), ex = w == 0 ? U : w == 1 ? L : U + L, sc = T.k == 4 ? std::fabs(T.A / T.p) : std::fabs(U) + std::fabs(L); if (w == 0) CHECK(f.lo > a, "evaluated at " << f.lo << " outside the range"); if (w == 1) CHECK(f.hi < a, "evaluated at " << f.hi << " outside the range");
	if (!r.converged) { c.label("not converged"); CHECK(std::fabs(ex) < 0.2 * sc || eps < 1e-6, TN[T.k] << " does not converge: " << r.value << " exact " << (double)ex); } else { CHECK_NEAR(r.value, (double)ex, 3e-4 * (double)sc + 30 * eps * (double)sc, "improper integral"); CHECK(r.error_estimate <= eps * (std::fabs(T.k == 4 ? (double)sc : (double)(std::fabs(U) + std::fabs(L)))) * 6 + 1e-300, "converged with error estimate " << r.error_estimate); if (eps < 1e-7) CHECK_NEAR(r.value, (double)ex, 1e-4 * (double)sc, "improper integral"); }
	CHECK(r.error_estimate >= 0 && r.iterations >= 5 && r.iterations <= (w < 2 ? 13 : 26), "report");
	// mirror image, two-sided = sum of the halves
	Fn g; g.g = [=](double x) { return T.f(-x); }; IntegrationResult m = w == 0 ? IntegrateLowerInf(g, -a, eps) : w == 1 ? IntegrateUpperInf(g, -a, eps) : w == 2 ? IntegrateInf(g, eps) : IntegrateInfSplit(g, -a, eps); double mt = r.converged && m.converged ? 20 * eps * (double)sc + 1e-13 * (double)sc : 1e-2 * (double)sc; CHECK_NEAR(m.value, r.value, mt, "mirrored integrand"); CHECK(m.converged == r.converged, "mirrored convergence"); if (w >= 2) { IntegrationResult x = IntegrateLowerInf(f, a, eps), y = IntegrateUpperInf(f, a, eps); CHECK_NEAR(r.value, x.value + y.value, 1e-13 * (double)sc + 2 * eps * (double)sc, "two-sided integral is not the sum of its halves"); CHECK(r.converged == (x.converged && y.converged), "two-sided convergence flag"); }
	IntegrationConfig cf; IntegrationDetailedResult d = w == 0 ? IntegrateUpperInfDetailed(f, a, cf, eps) : w == 1 ? IntegrateLowerInfDetailed(f, a, cf, eps) : w == 2 ? IntegrateInfDetailed(f, cf, eps) : IntegrateInfSplitDetailed(f, a, cf, eps); CHECK(d.value == r.value && d.converged == r.converged && (d.status == AlgorithmStatus::Success) == r.converged, "detailed result");
}
LAW(singular, 500, 4000) {   // polynomial times half-integer powers at one, both or an interior end
	int w = (int)s.choice(3); double a = s.uni(-2, 2), b = a + s.uni(0.1, 3), cc = a + (b - a) * s.uni(0.1, 0.9); auto q = genIntV(s, s.size(1, 5), 3); int half = s.b() ? -1 : 1; double eps = std::pow(10.0, -s.uni(4, 9)); Steps st(13); auto P = [=](LD u) { LD t = 0; for (int i = (int)q.size() - 1; i >= 0; i--) t = t * u + q[i]; return t; }; int which = (int)s.choice(1); c.nontrivial(half < 0); c.say([&](auto& o) { o << "singular kind " << w << " power " << half << "/2 polynomial " << str(q) << " on " << a << ".." << b << " interior " << cc << " eps " << eps; });
	Fn f; LD ex = 0, sc = 0; auto mom = [&](LD len) { LD t = 0; for (size_t i = 0; i < q.size(); i++) { LD e = i + 1 + half / 2.0L; t += q[i] * std::pow(len, e) / e; } return t; }; auto momA = [&](LD len) { LD t = 0; for (size_t i = 0; i < q.size(); i++) { LD e = i + 1 + half / 2.0L; t += std::fabs(q[i]) * std::pow(len, e) / e; } return t; };
	if (w == 0) { f.g = [=](double x) { double u = x - a; return (double)P(u) * std::pow(u, half / 2.0); }; ex = mom((LD)b - a); sc = momA((LD)b - a); } else if (w == 1) { f.g = [=](double x) { double u = b - x; return (double)P(u) * std::pow(u, half / 2.0); }; ex = mom((LD)b - a); sc = momA((LD)b - a); } else if (w == 2) { f.g = [=](double x) { double u = (x - a) / (b - a), v = (b - x) / (b - a); return (double)P(u) * std::pow(u * v, half / 2.0); }; for (size_t i = 0; i < q.size(); i++) { LD e = i + 1 + half / 2.0L, g = 1 + half / 2.0L, B = std::exp(std::lgamma(e) + std::lgamma(g) - std::lgamma(e + g)) * (b - a); ex += q[i] * B; sc += std::fabs(q[i]) * B; } } else { f.g = [=](double x) { double u = std::fabs(x - cc); return (double)P(u) * std::pow(u, half / 2.0); }; ex = mom((LD)b - cc) + mom((LD)cc - a); sc = momA((LD)b - cc) + momA((LD)cc - a); } (void)which;
	IntegrationResult r = w == 0 ? IntegrateLowerSingular(f, a, b, eps) : w == 1 ? IntegrateUpperSingular(f, a, b, eps) : w == 2 ? IntegrateBothSingular(f, a, b, eps) : IntegrateInteriorSingular(f, a, b, cc, eps); CHECK(f.lo >= a && f.hi <= b, "evaluated outside the interval"); // x itself may round onto the end point
	if (!r.converged) { CHECK(std::fabs(ex) < 0.05 * sc || eps < 1e-6 || q.size() > 1, "does not converge, value " << r.value << " exact " << (double)ex); } else { CHECK_NEAR(r.value, (double)ex, (double)sc * (30 * eps + 1e-4) + 1e-7 * (double)sc, "singular integral"); if (eps < 1e-7) CHECK_NEAR(r.value, (double)ex, 1e-5 * (double)sc, "singular integral"); } IntegrationConfig cf; IntegrationDetailedResult d = w == 0 ? IntegrateLowerSingularDetailed(f, a, b, cf, eps) : w == 1 ? IntegrateUpperSingularDetailed(f, a, b, cf, eps) : w == 2 ? IntegrateBothSingularDetailed(f, a, b, cf, eps) : IntegrateInteriorSingularDetailed(f, a, b, cc, cf, eps); CHECK(d.value == r.value && d.converged == r.converged, "detailed"); CHECK_THROWS(IntegrateInteriorSingular(f, a, b, s.pick({a, b, a - 1, b + 1}), eps), std::invalid_argument, "singular point outside the interval");
	// swapping ends mirrors
	if (w <= 1) { double A = a, B = b; auto F = f.g; Fn g; g.g = [=](double x) { return F(A + B - x); }; IntegrationResult m = w == 0 ? IntegrateUpperSingular(g, a, b, eps) : IntegrateLowerSingular(g, a, b, eps); if (m.converged && r.converged) CHECK_NEAR(m.value, r.value, 1e-4 * (double)sc, "mirrored"); }
}
LAW(open, 500, 4000) {   // finite open-interval rule: smooth integrands, never evaluating the end points, additive midpoint refinement
	auto q = genIntV(s, s.size(1, 8), 5); double a = s.real(-2, 2), b = a + s.nz(0.05, 3), eps = std::pow(10.0, -s.uni(4, 10)); auto P = [=](LD u) { LD t = 0; for (int i = (int)q.size() - 1; i >= 0; i--) t = t * u + q[i]; return t; }; auto Q = [=](LD u) { LD t = 0; for (int i = (int)q.size() - 1; i >= 0; i--) t = (t + (LD)q[i] / (i + 1)) * u; return t; }; Fn f; f.g = [=](double x) { return x == a || x == b ? std::nan("") : (double)P(x); }; c.nontrivial(q.size() > 2); c.say([&](auto& o) { o << "polynomial " << str(q) << " over " << a << ".." << b << " eps " << eps; }); Steps st(12); LD ex = Q(b) - Q(a), sc = 0; for (int i = 0; i < 50; i++) sc += std::fabs(P(a + (b - a) * (i + 0.5L) / 50)) * std::fabs(b - a) / 50; IntegrationResult r = IntegrateOpen(f, a, b, eps); if (r.converged) CHECK_NEAR(r.value, (double)ex, (20 * eps + 1e-6) * (double)sc + 1e-12 * (double)sc, "open rule"); else CHECK(std::fabs(ex) < 1e-3 * sc, "open rule does not converge"); if (q.size() <= 8 && r.converged && eps < 1e-6) CHECK_NEAR(r.value, (double)ex, 1e-4 * eps * 1e3 * (double)sc + 1e-12 * (double)sc, "open rule"); CHECK(f.lo > std::min(a, b) && f.hi < std::max(a, b), "end point evaluated"); CHECK(f.calls == std::lround(std::pow(3.0, r.iterations - 1)), "evaluations " << f.calls); IntegrationConfig cf; auto d = IntegrateOpenDetailed(f, a, b, cf, eps); CHECK(d.value == r.value && d.converged == r.converged, "detailed"); CHECK_NEAR(IntegrateOpen(f, b, a, eps).value, -r.value, 3 * eps * (double)sc + 1e-12 * (double)sc, "swapped limits");
	MidpointIntegrator M(f, a, b); int n = s.size(1, 7); long N = 1; for (int k = 1; k <= n; k++, N *= 3) { double v = M.next(); LD e = 0; for (long i = 0; i < N; i++) e += P(a + ((LD)b - a) * (i + 0.5L) / N); e *= ((LD)b - a) / N; CHECK_NEAR(v, (double)e, 1e-12 * (double)(sc + std::fabs(e)) + 1e-11 * (std::fabs(a) + std::fabs(b)) * 1e-2, "midpoint level " << k); }
}
LAW(divergent, 300, 2000) {   // integrals that do not exist, or cannot be resolved, are not reported as converged
	int w = (int)s.choice(5); double p = s.uni(0.5, 2), a = s.uni(0.5, 2), bad = s.pick({(double)NAN, (double)INFINITY}); Steps st(9); Fn f; IntegrationResult r; c.nontrivial(true); c.say([&](auto& o) { o << "kind " << w << " p=" << p << " a=" << a << " bad " << bad; }); long at = s.i(1, 81); IntegrationResult z; switch (w) { case 0: f.g = [=](double x) { return p / x; }; r = IntegrateUpperInf(f, a, 1e-8); break; case 1: f.g = [=](double x) { return p; }; r = IntegrateUpperInf(f, a, 1e-8); break; case 2: f.g = [=](double x) { return p / (x - a); }; r = IntegrateLowerSingular(f, a, a + 1, 1e-8); break; case 3: f.g = [=](double x) { return p / (a - x) / std::sqrt(a - x); }; r = IntegrateUpperSingular(f, a - 1, a, 1e-8); break; case 4: { Fn* q = &f; f.g = [=](double x) { return q->calls == at ? bad : std::exp(-p * x); }; r = IntegrateUpperInf(f, a, 1e-5); if (f.calls < at) return; break; } default: { Fn* q = &f; f.g = [=](double x) { return q->calls == at ? bad : std::exp(p * x); }; r = IntegrateOpen(f, 0, a, 1e-5); if (f.calls < at) return; } } CHECK(!r.converged, "kind " << w << " claims convergence with value " << r.value);
}
