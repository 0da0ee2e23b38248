// C12 Gaussian and Gauss-Kronrod quadrature: exact to their degree, nodes in the domain, truthful estimates
#include "common.h"
#include "core/Integration/Integration1D.h"
#include "core/Integration/GaussianQuadrature.h"
#include "core/Integration/GaussKronrod.h"
#include <functional>
struct Fn : IRealFunction { std::function<double(double)> g; mutable int calls = 0; Real operator()(Real x) const override { calls++; return g(x); } };
static LD beta(LD a, LD b) { return std::exp(std::lgamma(a) + std::lgamma(b) - std::lgamma(a + b)); }
static const char* RN[] = {"Legendre", "Laguerre", "Hermite", "Jacobi", "Chebyshev1", "Chebyshev2"};
struct Rule { int k, n; double a, b; };
static Rule genRule(Src& s) {
	Rule r; r.k = (int)s.choice(5); r.a = r.b = 0;
	switch (r.k) { case 0: r.n = s.size(1, 100); r.a = s.real(-5, 5); r.b = r.a + s.nz(0.01, 10); if (s.chance(1, 4)) r.a = -1, r.b = 1; break; case 1: r.n = s.size(1, 30); r.a = s.pick({0.0, 0.5, -0.5, 1.0, 2.0, s.uni(-0.7, 3)}); break; case 2: r.n = s.size(1, 40); break; case 3: r.n = s.size(1, 30); r.a = s.pick({0.0, 0.5, -0.5, 1.0, s.uni(-0.6, 2)}); r.b = s.pick({0.0, 0.5, -0.5, 1.0, s.uni(-0.6, 2)}); break; default: r.n = s.size(1, 100); }
	return r;
}
static void build(const Rule& r, std::vector<double>& x, std::vector<double>& w, bool viaRule) {
	if (viaRule) { GaussQuadratureRule q(0); switch (r.k) { case 0: q = GaussLegendreRule(r.n, r.a, r.b); break; case 1: q = GaussLaguerreRule(r.n, r.a); break; case 2: q = GaussHermiteRule(r.n); break; case 3: q = GaussJacobiRule(r.n, r.a, r.b); break; case 4: q = GaussChebyshev1Rule(r.n); break; default: q = GaussChebyshev2Rule(r.n); } CHECK(q.n == r.n, "rule size"); x = q.nodes; w = q.weights; return; }
	x.assign(r.n, 7.0); w.assign(r.n, 7.0); switch (r.k) { case 0: GaussLegendre(x, w, r.a, r.b); break; case 1: GaussLaguerre(x, w, r.a); break; case 2: GaussHermite(x, w); break; case 3: GaussJacobi(x, w, r.a, r.b); break; case 4: GaussChebyshev1(x, w); break; default: GaussChebyshev2(x, w); }
}
LAW(rule, 3000, 30000) {
	Rule r = genRule(s); int n = r.n; c.nontrivial(n > 2); c.label(RN[r.k]); c.say([&](auto& o) { o << RN[r.k] << " n=" << n << " parameters " << r.a << "," << r.b; });
	std::vector<double> x, w; build(r, x, w, s.b()); CHECK((int)x.size() == n && (int)w.size() == n, "sizes");
	auto xs = x; std::sort(xs.begin(), xs.end()); for (int i = 0; i < n; i++) { double lo = r.k == 0 ? std::min(r.a, r.b) : r.k == 1 ? 0 : r.k == 2 ? -1e9 : -1, hi = r.k == 0 ? std::max(r.a, r.b) : r.k <= 2 ? 1e9 : 1; CHECK(x[i] > lo && x[i] < hi, "node " << x[i] << " outside the domain"); CHECK(r.k == 0 && r.b < r.a ? w[i] < 0 : w[i] > 0, "weight " << w[i] << " of node " << i); if (i) CHECK(xs[i] > xs[i - 1], "repeated node " << xs[i]); }
	// symmetric rules are symmetric
	if (r.k == 0) for (int i = 0; i < n; i++) CHECK_NEAR(x[i] + x[n - 1 - i], r.a + r.b, 1e-13 * (std::fabs(r.a) + std::fabs(r.b)), "symmetry");
	if (r.k == 2) for (int i = 0; i < n; i++) CHECK_NEAR(x[i], -x[n - 1 - i], 1e-12, "symmetry");
	// moments: degree up to 2n-1 (in a basis in which the integrand does not change sign)
	for (int rep = 0; rep < 6; rep++) {
		int d = rep == 0 ? 0 : rep == 1 ? 2 * n - 1 : (int)s.i(0, 2 * n - 1); LD sum = 0, mag = 0, ex = 0; double scale = 1;
		if (r.k == 1) { LD lg = std::lgamma((LD)r.a + d + 1); for (int i = 0; i < n; i++) { LD t = w[i] * std::exp(d * std::log((LD)x[i]) - lg); sum += t; mag += std::fabs(t) * (1 + d); } ex = 1; }
		else if (r.k == 2) { int e = d; LD lg = std::lgamma(((e + e % 2) + 1) / 2.0L); for (int i = 0; i < n; i++) { LD t = x[i] == 0 ? (e == 0 ? w[i] * std::exp(-lg) : 0) : w[i] * std::exp(e * std::log(std::fabs((LD)x[i])) - lg) * (e % 2 && x[i] < 0 ? -1 : 1); sum += t; mag += std::fabs(t) * (1 + d); } ex = e % 2 ? 0 : 1; }
		else { int i1 = (int)s.i(0, d), j1 = d - i1; double al = r.k == 3 ? r.a : r.k == 4 ? -0.5 : r.k == 5 ? 0.5 : 0, be = r.k == 3 ? r.b : al; LD lg = std::log(beta(al + i1 + 1, be + j1 + 1)) + (al + be + 1) * std::log(2.0L); LD xm = ((LD)r.a + r.b) / 2, xl = ((LD)r.b - r.a) / 2; for (int i = 0; i < n; i++) { LD u = r.k == 0 ? (x[i] - xm) / xl : (LD)x[i]; LD t = (r.k == 0 ? w[i] / xl : (LD)w[i]) * std::exp(i1 * std::log((1 - u) / 2) + j1 * std::log((1 + u) / 2) - lg); sum += t; mag += std::fabs(t) * (1 + i1 * 1e-1L / std::max(1e-3L, 1 - u) + j1 * 1e-1L / std::max(1e-3L, 1 + u)); } ex = 1; scale = 1 + (std::fabs(r.a) + std::fabs(r.b)) / std::fabs((double)xl); if (r.k != 0) scale = 2; }
		CHECK_NEAR((double)sum, (double)ex, (r.k == 0 || r.k > 3 ? 2e-13 : 2e-10) * (double)mag * scale + 1e-12, RN[r.k] << " rule of " << n << " points, degree " << d);
	}
	// the integration functions use the rule
	Fn f; int e = (int)s.i(0, std::min(2 * n - 1, 8)); double q = s.real(-2, 2); f.g = [=](double t) { return std::pow(t, e) + q; }; LD sum = 0, mag = 0; for (int i = 0; i < n; i++) { LD t = (LD)w[i] * (std::pow((LD)x[i], e) + q); sum += t; mag += std::fabs(t) + std::fabs(w[i] * q); }
	IntegrationResult z; IntegrationDetailedResult D; switch (r.k) { case 0: z = IntegrateGaussLegendre(f, r.a, r.b, n); break; case 1: z = IntegrateGaussLaguerre(f, n, r.a); break; case 2: z = IntegrateGaussHermite(f, n); break; case 3: z = IntegrateGaussJacobi(f, r.a, r.b, n); break; case 4: z = IntegrateGaussChebyshev1(f, n); break; default: z = IntegrateGaussChebyshev2(f, n); } CHECK(f.calls == n, "evaluations " << f.calls); CHECK_NEAR(z.value, (double)sum, 1e-13 * (double)mag * n, "integration function"); CHECK(z.converged, "converged");
	switch (r.k) { case 0: D = IntegrateGaussLegendreDetailed(f, r.a, r.b, n); break; case 1: D = IntegrateGaussLaguerreDetailed(f, n, r.a); break; case 2: D = IntegrateGaussHermiteDetailed(f, n); break; case 3: D = IntegrateGaussJacobiDetailed(f, r.a, r.b, n); break; case 4: D = IntegrateGaussChebyshev1Detailed(f, n); break; default: D = IntegrateGaussChebyshev2Detailed(f, n); } CHECK(D.value == z.value && D.function_evaluations == n && D.converged && D.status == AlgorithmStatus::Success, "detailed result");
	std::vector<double> bad(n + 1); CHECK_THROWS(GaussLegendre(bad, w), VectorDimensionError, "size mismatch"); CHECK_THROWS(GaussLaguerre(bad, w), VectorDimensionError, "size mismatch"); CHECK_THROWS(GaussHermite(bad, w), VectorDimensionError, "size mismatch"); CHECK_THROWS(GaussJacobi(bad, w, 0, 0), VectorDimensionError, "size mismatch"); CHECK_THROWS(GaussJacobi(x, w, -1, 0), NumericalMethodError, "alpha <= -1"); CHECK_THROWS(GaussJacobi(x, w, 0, -1.5), NumericalMethodError, "beta <= -1");
}
using Integration::GKResult; using Integration::GKRule;
static GKResult gk(int k, const std::function<double(double)>& f, double a, double b) { return k == 0 ? Integration::IntegrateGK15(f, a, b) : k == 1 ? Integration::IntegrateGK21(f, a, b) : Integration::IntegrateGK31(f, a, b); }
LAW(kronrod, 4000, 40000) {
	int k = (int)s.choice(2), G[] = {13, 19, 29}, K[] = {23, 31, 47}, N[] = {15, 21, 31}; double a = s.real(-3, 3), b = a + s.nz(0.01, 5); int d = (int)s.i(0, 60), i1 = (int)s.i(0, d), j1 = d - i1; LD xm = ((LD)a + b) / 2, xl = ((LD)b - a) / 2; int calls = 0; c.nontrivial(d > 2); c.say([&](auto& o) { o << "GK" << N[k] << " degree " << i1 << "+" << j1 << " over " << a << ".." << b; });
	LD ex = beta(i1 + 1, j1 + 1) * 2 * xl; double lo = std::min(a, b), hi = std::max(a, b); bool inside = true; std::function<double(double)> f = [&](double x) { calls++; if (x < lo || x > hi) inside = false; LD u = (x - xm) / xl; return (double)(std::pow((1 - u) / 2, (LD)i1) * std::pow((1 + u) / 2, (LD)j1)); };
	GKResult r = gk(k, f, a, b); CHECK(calls == N[k] && r.function_evals == N[k] && inside && r.converged, "evaluations"); double sc = 1 + (std::fabs(a) + std::fabs(b)) / std::fabs((double)xl), tol = 1e-13 * sc * (1 + d * 0.1) * std::fabs((double)ex) + 1e-15 * std::fabs((double)xl); if (d <= K[k]) CHECK_NEAR(r.value, (double)ex, tol, "Kronrod value of degree " << d); else CHECK_NEAR(r.value, (double)ex, 2e-2 * std::fabs((double)xl), "Kronrod value of degree " << d); if (d <= G[k]) CHECK(r.error_estimate <= 2 * tol, "error estimate " << r.error_estimate << " for degree " << d); else CHECK(std::fabs(r.value - ex) <= r.error_estimate + tol, "error estimate " << r.error_estimate << " below the true error");
	// the estimate is the difference to the embedded Gauss rule
	std::vector<double> x((N[k] - 1) / 2), w(x.size()); GaussLegendre(x, w, a, b); LD g = 0; for (size_t i = 0; i < x.size(); i++) g += (LD)w[i] * f(x[i]); CHECK_NEAR(r.error_estimate, (double)std::fabs(r.value - g), 3 * tol, "error estimate is not |Kronrod - Gauss|");
	double v = k == 0 ? Integration::IntegrateGaussKronrod15(f, a, b) : k == 1 ? Integration::IntegrateGaussKronrod21(f, a, b) : Integration::IntegrateGaussKronrod31(f, a, b); CHECK(v == r.value, "wrapper"); auto D = k == 0 ? Integration::IntegrateGK15Detailed(f, a, b) : k == 1 ? Integration::IntegrateGK21Detailed(f, a, b) : Integration::IntegrateGK31Detailed(f, a, b); CHECK(D.value == r.value && D.error_estimate == r.error_estimate && D.function_evaluations == N[k] && D.converged, "detailed");
}
LAW(adaptive, 1500, 15000) {
	int k = (int)s.choice(2), sh = (int)s.choice(5); double a = s.real(-2, 2), b = a + s.nz(0.05, 4); double p = s.uni(0.5, 20), q = a + (b - a) * s.unit(), A = std::pow(10.0, (double)s.i(-6, 6)); if (sh == 2) p = std::min(p, 6 / std::fabs(b - a)); std::function<LD(LD)> F; std::function<double(double)> g; int calls = 0; const char* nm = "";
	switch (sh) { case 0: nm = "kink"; g = [=](double x) { return A * std::fabs(x - q); }; F = [=](LD x) { LD t = x - q; return A * t * std::fabs(t) / 2; }; break; case 1: nm = "step"; g = [=](double x) { return x > q ? A : 0; }; F = [=](LD x) { return x > q ? A * (x - q) : 0; }; break; case 2: nm = "peak"; g = [=](double x) { double t = (x - q) * p; return A / (1 + t * t); }; F = [=](LD x) { return A * std::atan((x - (LD)q) * p) / p; }; break; case 3: nm = "wave"; g = [=](double x) { return A * std::sin(p * x); }; F = [=](LD x) { return -A * std::cos((LD)p * x) / p; }; break; case 4: nm = "root"; g = [=](double x) { return A * std::sqrt(std::fabs(x - q)); }; F = [=](LD x) { LD t = x - q; return A * 2 / 3 * t * std::sqrt(std::fabs(t)); }; break; default: nm = "exp"; g = [=](double x) { return A * std::exp(p * x / 8); }; F = [=](LD x) { return A * std::exp((LD)p / 8 * x) * 8 / p; }; }
	double tr = std::pow(10.0, -s.uni(2, 9)), ta = s.chance(1, 3) ? 1e-300 : A * std::pow(10.0, -s.uni(2, 9)); int md = s.chance(1, 4) ? s.size(0, 6) : 40; std::function<double(double)> f = [&](double x) { calls++; return g(x); }; if (sh == 1 || sh == 0 || sh == 4) ta = std::max(ta, A * 1e-7); c.nontrivial(sh <= 2 || sh == 4); c.label(nm); c.say([&](auto& o) { o << nm << " p=" << p << " q=" << q << " A=" << A << " over " << a << ".." << b << " tolerances " << ta << "," << tr << " depth " << md << " rule " << k; });
	GKResult r = Integration::IntegrateGKAdaptive(f, a, b, ta, tr, md, (GKRule)k); LD ex = F(b) - F(a), ai = 0; for (int i = 0; i < 200; i++) ai += std::fabs(g(a + (b - a) * (i + 0.5) / 200)) * std::fabs(b - a) / 200; CHECK(r.function_evals >= (k == 0 ? 15 : k == 1 ? 21 : 31) && r.function_evals <= calls && calls % (k == 0 ? 15 : k == 1 ? 21 : 31) == 0, "evaluations"); double noise = 1e-13 * (double)ai * (1 + (std::fabs(a) + std::fabs(b)) / std::fabs(b - a)) + 1e-15 * A; double err = (double)std::fabs(r.value - ex);
	if (md == 40 && sh != 1 && sh != 4) CHECK(r.converged, nm << " does not converge"); if (md == 0) CHECK(calls == (k == 0 ? 15 : k == 1 ? 21 : 31), "depth 0"); if (r.converged) { CHECK(r.error_estimate <= ta + tr * (double)ai * 1.6 * (1 + 1e-9) + ta * 40, "converged with estimate " << r.error_estimate); if (sh == 2 || sh == 3 || sh == 5) CHECK(err <= 30 * r.error_estimate + noise + 30 * (ta + tr * (double)ai) + (sh == 2 ? 1e-3 * (double)ai : 0.0), "true error " << err << " estimate " << r.error_estimate); else CHECK(err <= 3 * r.error_estimate + noise + 50 * (ta + tr * (double)ai) + A * (sh == 0 ? 1e-3 * (b - a) * (b - a) : sh == 1 ? 0.03 * std::fabs(b - a) : 1e-2 * std::pow(std::fabs(b - a), 1.5)), "true error " << err << " estimate " << r.error_estimate); } else CHECK(md < 40 || sh == 1 || sh == 4, "not converged");
	auto D = Integration::IntegrateGKAdaptiveDetailed(f, a, b, {}, ta, tr, md, (GKRule)k); CHECK(D.value == r.value && D.error_estimate == r.error_estimate && D.converged == r.converged && (D.status == AlgorithmStatus::Success) == r.converged, "detailed"); if (md == 40) { Real e = -1; double t = std::max(1e-8, tr); double v = Integration::IntegrateGaussKronrod(f, a, b, t); auto z = Integration::IntegrateGKAdaptive(f, a, b, t, t, 50, GKRule::GK15); CHECK(v == z.value, "wrapper"); (void)e; }
	double bad = s.pick({(double)NAN, (double)INFINITY}); int at = (int)s.i(1, k == 0 ? 15 : k == 1 ? 21 : 31), cnt = 0; GKResult z = gk(k, [&](double x) { return ++cnt == at ? bad : g(x); }, a, b); CHECK(!z.converged, "non-finite integrand value but converged");
}
