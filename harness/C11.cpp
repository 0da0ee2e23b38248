// C11 one-dimensional quadrature: accuracy when converged, linearity, additivity, orientation, truthful reports
#include "common.h"
#include "core/Integration/Integration1D.h"
#include "core/RichardsonExtrapolation.h"
#include <functional>
struct Fn : IRealFunction { std::function<double(double)> g; std::function<LD(LD)> G; std::string txt; int deg = -1; double m4 = 0; mutable long calls = 0; Real operator()(Real x) const override { calls++; return g(x); } };
static void gen(Src& s, Fn& f) {   // integrand g with exact antiderivative G, smooth on the scale of the intervals used
	double a = s.pick({1.0, -2.0, 0.5}) * (s.chance(1, 4) ? std::pow(10.0, (double)s.i(-8, 8)) : 1), p = s.uni(0.2, 3), q = s.uni(-2, 2); int k = (int)s.choice(6);
	switch (k) {
	case 0: { auto v = genIntV(s, s.size(1, 8)); f.deg = (int)v.size() - 1; f.g = [=](double x) { double t = 0; for (int i = (int)v.size() - 1; i >= 0; i--) t = t * x + v[i]; return a * t; }; f.G = [=](LD x) { LD t = 0; for (int i = (int)v.size() - 1; i >= 0; i--) t = (t + (LD)v[i] / (i + 1)) * x; return a * t; }; f.txt = "polynomial " + str(v); break; }
	case 1: f.g = [=](double x) { return a * std::exp(p * x / 3 + q); }; f.G = [=](LD x) { return a * std::exp((LD)p / 3 * x + q) / ((LD)p / 3); }; f.txt = "exp"; break;
	case 2: f.g = [=](double x) { return a * std::sin(p * x + q); }; f.G = [=](LD x) { return -a * std::cos((LD)p * x + q) / p; }; f.txt = "sine"; break;
	case 3: f.g = [=](double x) { return a / (1 + (x - q) * (x - q)); }; f.G = [=](LD x) { return a * std::atan(x - (LD)q); }; f.txt = "Lorentzian"; break;
	case 4: f.g = [=](double x) { return a / std::cosh(x - q) / std::cosh(x - q); }; f.G = [=](LD x) { return a * std::tanh(x - (LD)q); }; f.txt = "sech2"; break;
	case 5: f.g = [=](double x) { return a * x * std::exp(-x * x / 4); }; f.G = [=](LD x) { return -2 * a * std::exp(-x * x / 4); }; f.txt = "odd Gaussian"; break;
	default: f.g = [=](double x) { double t = x - q; return a * std::sqrt(9 + t * t); }; f.G = [=](LD x) { LD t = x - (LD)q; return a * (t * std::sqrt(9 + t * t) + 9 * std::asinh(t / 3)) / 2; }; f.txt = "hyperbola"; break;
	}
	f.txt += " amplitude " + fmt(a) + " p=" + fmt(p) + " q=" + fmt(q);
}
static LD absInt(const Fn& f, double a, double b) { LD t = 0; for (int i = 0; i < 64; i++) t += std::fabs(f.g(a + (b - a) * (i + 0.5) / 64)); return t / 64 * std::fabs(b - a); }
static const char* MN[] = {"trapezoid", "Simpson", "Romberg", "Gauss10", "GK21"};
static IntegrationResult run(int m, const Fn& f, double a, double b, double eps) { switch (m) { case 0: return IntegrateTrap(f, a, b, eps); case 1: return IntegrateSimpson(f, a, b, eps); case 2: return IntegrateRomberg(f, a, b, eps); case 3: return IntegrateGauss10(f, a, b); default: return IntegrateGK21(f, a, b); } }
static IntegrationResult tmpl(int m, const Fn& f, double a, double b, double eps) { switch (m) { case 0: return Integrate<TRAP>(f, a, b, eps); case 1: return Integrate<SIMPSON>(f, a, b, eps); case 2: return Integrate<ROMBERG>(f, a, b, eps); case 3: return Integrate<GAUSS10>(f, a, b, eps); default: return Integrate<GAUSS10KRONROD21>(f, a, b, eps); } }
static IntegrationDetailedResult det(int m, const Fn& f, double a, double b, double eps, const IntegrationConfig& c, int how) { if (how == 0) switch (m) { case 0: return IntegrateTrapDetailed(f, a, b, c, eps); case 1: return IntegrateSimpsonDetailed(f, a, b, c, eps); case 2: return IntegrateRombergDetailed(f, a, b, c, eps); case 3: return IntegrateGauss10Detailed(f, a, b, c); default: return IntegrateGK21Detailed(f, a, b, c); } if (how == 1) return IntegrateDetailed(f, a, b, (IntegrationMethod)m, c, eps); switch (m) { case 0: return IntegrateDetailed<TRAP>(f, a, b, c, eps); case 1: return IntegrateDetailed<SIMPSON>(f, a, b, c, eps); case 2: return IntegrateDetailed<ROMBERG>(f, a, b, c, eps); case 3: return IntegrateDetailed<GAUSS10>(f, a, b, c, eps); default: return IntegrateDetailed<GAUSS10KRONROD21>(f, a, b, c, eps); } }
static bool same(double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); }
static void interval(Src& s, double& a, double& b) { a = s.real(-2, 2); b = a + s.nz(0.01, 4); if (s.chance(1, 6)) b = a + (b - a) * 1e-4; if (s.b()) std::swap(a, b); }
LAW(accuracy, 2000, 20000) {
	Fn f; gen(s, f); double a, b; interval(s, a, b); int m = (int)s.choice(4); double eps = m == 0 ? std::pow(10.0, -s.uni(1, 7)) : std::pow(10.0, -s.uni(2, 10)); c.nontrivial(f.deg != 0); c.label(MN[m]); c.say([&](auto& o) { o << MN[m] << " of " << f.txt << " over " << a << ".." << b << " eps " << eps; });
	IntegrationResult r = run(m, f, a, b, eps); long used = f.calls; LD ex = f.G(b) - f.G(a), ai = absInt(f, a, b), noise = 1e-13L * ai + 1e-16L * (std::fabs(f.G(a)) + std::fabs(f.G(b))) * 20; double err = (double)std::fabs((LD)r.value - ex);
	if (m < 3) { CHECK(r.converged || eps * std::fabs(ex) < 20 * noise || eps * std::fabs(ex) < 1e-9 * ai, "smooth integrand: " << MN[m] << " does not converge"); if (r.converged) { double lim = eps * std::fabs(r.value); if (m == 2) lim = 10 * lim + (std::fabs(b - a) > 1 && f.deg < 0 ? 5e-4 * (double)ai : 0.0); CHECK(err <= lim + noise, MN[m] << " error " << err << " value " << r.value << " exact " << (double)ex); if (r.error_estimate > 0 && m != 2) CHECK(err <= (m == 1 ? 5 * r.error_estimate + 1e-2 * eps * std::fabs(r.value) : 2 * r.error_estimate) + noise, MN[m] << ": reported error " << r.error_estimate << " but the true error is " << err); CHECK(r.error_estimate <= eps * std::fabs(r.value) * 1.1 + 1e-15 * std::fabs((double)ai) + eps * 1e-15, "reported error " << r.error_estimate << " above the tolerance"); } CHECK(r.iterations >= (m < 2 ? 6 : 5) && r.iterations <= 20, "iterations " << r.iterations); int lev = m < 2 && r.converged ? r.iterations + 1 : r.iterations; CHECK(used == (1L << (lev - 1)) + 1, MN[m] << " used " << used << " evaluations in " << r.iterations << " refinements"); }
	else { double h = std::fabs(b - a); LD bound = m == 3 ? 1e-3L : 1e-6L; if (h < 1) bound = m == 3 ? 1e-11L : 1e-13L; if (f.deg >= 0 && f.deg <= 19) bound = 0; CHECK(err <= bound * ai + 4 * noise + 1e-14L * ai, MN[m] << " error " << err << " value " << r.value << " exact " << (double)ex); CHECK(used == (m == 3 ? 10 : 21), "evaluations " << used); if (m == 4 && r.converged) CHECK(err <= r.error_estimate + 4 * noise, "GK21 estimate " << r.error_estimate << " below the true error " << err); }
	f.calls = 0; IntegrationResult t = s.b() ? tmpl(m, f, a, b, eps) : Integrate(f, a, b, (IntegrationMethod)m, eps); CHECK(same(t.value, r.value) && t.iterations == r.iterations && t.converged == r.converged && same(t.error_estimate, r.error_estimate), "Integrate dispatches differently: " << t.value << " vs " << r.value); IntegrationConfig cf; int how = (int)s.choice(2); IntegrationDetailedResult d = det(m, f, a, b, eps, cf, how); CHECK(same(d.value, r.value) && d.converged == r.converged && d.iterations == r.iterations && same(d.error_estimate, r.error_estimate), "detailed result differs"); CHECK((d.status == AlgorithmStatus::Success) == r.converged && d.error_message.empty() == r.converged && (bool)d == r.converged && !d.algorithm_name.empty(), "detailed status");
	Real conv = r; CHECK(same(conv, r.value), "conversion to a number");
	IntegrationResult w = run(m, f, b, a, eps); CHECK_NEAR(w.value, -r.value, (double)(4 * noise) + (m < 3 ? (m == 2 ? 1e-4 * (double)ai + 20 * eps * std::fabs(r.value) : 4 * eps * std::fabs(r.value) + 1e-3 * eps * (double)ai) : 0.0) + 1e-13 * (double)ai, MN[m] << " with swapped limits"); IntegrationResult z = run(m, f, a, a, eps); CHECK(z.value == 0, "empty interval");
}
LAW(linear, 1500, 15000) {
	Fn f, g, h; gen(s, f); gen(s, g); double a, b; interval(s, a, b); double u = s.real(-3, 3), v = s.real(-3, 3); int m = (int)s.choice(4); double eps = m == 0 ? 1e-5 : 1e-8; auto F = f.g, G = g.g; h.g = [=](double x) { return u * F(x) + v * G(x); }; c.nontrivial(u != 0 && v != 0); c.say([&](auto& o) { o << MN[m] << " of " << u << " * " << f.txt << " + " << v << " * " << g.txt << " over " << a << ".." << b; }); IntegrationResult x = run(m, f, a, b, eps), y = run(m, g, a, b, eps), z = run(m, h, a, b, eps); double sc = std::fabs(u) * (double)absInt(f, a, b) + std::fabs(v) * (double)absInt(g, a, b); if (!x.converged || !y.converged || !z.converged) { c.label("not converged"); if (m < 3) return; } double tol = m < 3 ? (m == 2 ? 1e-4 : 3 * eps) * sc + 1e-13 * sc : 1e-13 * sc; CHECK_NEAR(z.value, u * x.value + v * y.value, tol, MN[m] << " is not linear"); double k = std::pow(2.0, (double)s.i(-30, 30)); h.g = [=](double t) { return k * F(t); }; z = run(m, h, a, b, eps); if (x.converged && std::fabs(x.value) > 1e-6 * (double)absInt(f, a, b) && std::fabs(x.value) * std::min(1.0, k) > 1e-9) CHECK(z.value == k * x.value, MN[m] << ": scaling the integrand by " << k << " changes " << x.value << " to " << z.value);
	double mid = a + (b - a) * s.uni(0.1, 0.9); IntegrationResult p = run(m, f, a, mid, eps), q = run(m, f, mid, b, eps); double S = (double)absInt(f, a, b); if (m < 3) { if (p.converged && q.converged && x.converged) CHECK_NEAR(p.value + q.value, x.value, (m == 2 ? 1e-4 : 3 * eps) * S + 1e-13 * S, MN[m] << " is not additive"); } else CHECK_NEAR(p.value + q.value, x.value, 1e-3 * S, MN[m] << " is not additive");
}
// the trapezoid refinement itself: level k is the composite trapezoid sum over 2^(k-1) panels
LAW(trapezoid, 600, 6000) {
	Fn f; gen(s, f); double a, b; interval(s, a, b); int n = s.size(1, 9); c.nontrivial(n > 2); c.say([&](auto& o) { o << f.txt << " over " << a << ".." << b << " levels " << n; }); TrapIntegrator t(f, a, b); LD ai = absInt(f, a, b); for (int k = 1; k <= n; k++) { double v = t.next(); int N = 1 << (k - 1); LD e = 0; for (int i = 0; i <= N; i++) e += (i == 0 || i == N ? 0.5L : 1.0L) * f.g(a + (b - a) * i / N); e *= ((LD)b - a) / N; CHECK_NEAR(v, (double)e, (double)(1e-12L * (ai + std::fabs(e)) + 1e-14L * (std::fabs(a) + std::fabs(b)) * (std::fabs(f.g(a)) + std::fabs(f.g(b)) + 1e-300L)), "level " << k); }
}
LAW(nonfinite, 1500, 15000) {   // integrands that are not finite somewhere, or never settle, are not converged results
	Fn f; gen(s, f); double a, b; interval(s, a, b); auto g = f.g; double bad = s.pick({(double)NAN, (double)INFINITY, -(double)INFINITY}); int m = (int)s.choice(4); long at = s.i(1, m == 3 ? 10 : m == 4 ? 21 : 33); Fn* p = &f; c.nontrivial(true); c.label(MN[m]); c.say([&](auto& o) { o << MN[m] << " of " << f.txt << " over " << a << ".." << b << " returning " << bad << " at evaluation " << at; }); f.g = [=](double x) { return p->calls == at ? bad : g(x); }; bool th = false; IntegrationResult r; try { r = run(m, f, a, b, 1e-3); } catch (const std::exception&) { th = true; } if (!th && f.calls >= at) CHECK(!r.converged, MN[m] << " claims convergence with value " << r.value << " although the integrand was " << bad); f.calls = 0; IntegrationConfig cf; cf.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; IntegrationDetailedResult d = det(m, f, a, b, 1e-3, cf, (int)s.choice(2)); if (f.calls >= at) CHECK(!d.converged && d.status != AlgorithmStatus::Success && !d.error_message.empty(), "detailed result claims success"); else return;
	f.calls = 0; f.g = [=](double x) -> double { if (p->calls == at) throw std::invalid_argument("boom"); return g(x); }; CHECK_THROWS(run(m, f, a, b, 1e-3), std::invalid_argument, "exceptions of the integrand must reach the caller"); f.calls = 0; d = det(m, f, a, b, 1e-3, cf, 0); CHECK(d.status == AlgorithmStatus::InvalidInput && !d.converged && d.error_message == "boom", "exception converted to a status"); f.calls = 0; cf.exception_policy = EvaluationExceptionPolicy::Propagate; CHECK_THROWS(det(m, f, a, b, 1e-3, cf, 0), std::invalid_argument, "propagated exception");
}
LAW(exhausted, 20, 150) {   // refinement limit reached: reported
	double al = s.pick({-0.5, -0.7, -0.9}), w = s.uni(0.3, 2); int m = (int)s.choice(2); Fn f; f.g = [=](double x) { return x <= 0 ? 0.0 : std::pow(x, al); }; c.nontrivial(true); c.say([&](auto& o) { o << MN[m] << " of x^" << al << " over 0.." << w; }); IntegrationResult r = run(m, f, 0, w, 1e-9); CHECK(!r.converged, MN[m] << " claims relative accuracy 1e-9 for a singular integrand, value " << r.value << " exact " << std::pow(w, al + 1) / (al + 1)); CHECK(r.iterations == 20 && r.error_estimate > 0, "report"); CHECK(f.calls == (1L << 19) + 1, "evaluations " << f.calls);
}
LAW(richardson, 4000, 40000) {
	int n = s.size(2, 7); auto cf = genIntV(s, n); std::vector<double> x, y; double h = s.uni(0.3, 2), con = s.uni(1.3, 3); for (int i = 0; i < n; i++) { x.push_back(h); LD t = 0; for (int j = n - 1; j >= 0; j--) t = t * h + cf[j]; y.push_back((double)t); h /= con; } bool shuffled = s.b(); if (shuffled) for (int i = n - 1; i > 0; i--) { int j = (int)s.i(0, i); std::swap(x[i], x[j]); std::swap(y[i], y[j]); } c.nontrivial(n > 2); c.say([&](auto& o) { o << "values " << str(y) << " at " << str(x); }); RichardsonResult r = Richardson::NevilleExtrapolate(y, x); double amp = 0; for (int i = 0; i < n; i++) { double L = 1; for (int j = 0; j < n; j++) if (j != i) L *= x[j] / (x[j] - x[i]); amp += std::fabs(L * y[i]); } CHECK(r.converged && r.iterations == n, "Neville report"); CHECK_NEAR(r.value, cf[0], (shuffled ? 1000 : 50) * EPS * amp + 1e-12, "extrapolation of a polynomial to 0"); std::vector<double> one{y[0]}; RichardsonResult q = Richardson::NevilleExtrapolate(one, {x[0]}); CHECK(!q.converged && q.value == y[0], "single point"); q = Richardson::NevilleExtrapolate(y, one); CHECK(!q.converged, "size mismatch"); auto xd = x; xd[1] = xd[0]; q = Richardson::NevilleExtrapolate(y, xd); CHECK(!q.converged, "duplicate abscissa");
	// even error expansion: A(h) = a0 + a1 h^2 + ... extrapolates to a0
	int k = s.size(1, 4); auto e = genIntV(s, k + 1, 3); double h0 = s.uni(0.2, 2), con2 = s.b() ? 1.4 : s.uni(1.3, 2.5); int calls = 0; std::vector<double> seen; RichardsonResult z = Richardson::Extrapolate([&](double hh) { calls++; seen.push_back(hh); LD t = 0; for (int j = k; j >= 0; j--) t = t * hh * hh + e[j]; return (double)t; }, h0, con2, 10); double mag = 0; for (double t : e) mag += std::fabs(t) * std::pow(std::max(1.0, h0), 2.0 * k); if (z.iterations > k + 1) CHECK_NEAR(z.value, e[0], 1e-9 * (mag + 1e-3) + 5 * z.error_estimate, "Extrapolate with error estimate " << z.error_estimate); CHECK(z.converged && z.iterations == calls && calls <= 10 && seen[0] == h0, "Extrapolate report"); for (size_t i = 1; i < seen.size(); i++) CHECK_NEAR(seen[i], h0 / std::pow(con2, (double)i), 1e-13 * h0, "step sequence"); z = Richardson::Extrapolate([&](double) { return 1.0; }, 0.0); CHECK(!z.converged, "zero step");
	int p = (int)s.i(1, 6); double rr = s.uni(1.5, 3), A = s.real(-3, 3), C = s.real(-3, 3), hh = s.uni(0.1, 1); double Ah = A + C * std::pow(hh, p), Ar = A + C * std::pow(hh / rr, p); CHECK_NEAR(Richardson::SimpleExtrapolate(Ah, Ar, rr, p), A, 1e-13 * (std::fabs(A) + std::fabs(C)) * 4 + 1e-300, "SimpleExtrapolate"); CHECK_NEAR(Richardson::SimpleErrorEstimate(Ah, Ar, rr, p), std::fabs(Ar - A), 1e-13 * (std::fabs(A) + std::fabs(C)) * 4 + 1e-300, "SimpleErrorEstimate");
}
