// C13 double/triple integrals, adaptive cubature, Monte Carlo against exact iterated integrals
#include "common.h"
#include "interfaces/IFunction.h"
#include "core/Integration/Integration1D.h"
#include "core/Integration/Integration2D.h"
#include "core/Integration/Integration3D.h"
#include "core/Integration/Integration2DAdaptive.h"
#include "core/Integration/Integration3DAdaptive.h"
#include "core/Integration/MonteCarloIntegration.h"
#include <functional>
#include <map>
#include <array>
typedef std::array<int, 3> Ex; typedef std::map<Ex, LD> Pol;   // polynomial in x,y,z
static Pol add(const Pol& a, const Pol& b, LD k = 1) { Pol r = a; for (auto& t : b) r[t.first] += k * t.second; return r; }
static Pol mul(const Pol& a, const Pol& b) { Pol r; for (auto& t : a) for (auto& u : b) r[{t.first[0] + u.first[0], t.first[1] + u.first[1], t.first[2] + u.first[2]}] += t.second * u.second; return r; }
static LD ev(const Pol& p, LD x, LD y, LD z) { LD s = 0; for (auto& t : p) { LD m = t.second; for (int i = 0; i < t.first[0]; i++) m *= x; for (int i = 0; i < t.first[1]; i++) m *= y; for (int i = 0; i < t.first[2]; i++) m *= z; s += m; } return s; }
static Pol subst(const Pol& p, int v, const Pol& q) { Pol r; for (auto& t : p) { Pol m; Ex e = t.first; int k = e[v]; e[v] = 0; m[e] = t.second; for (int i = 0; i < k; i++) m = mul(m, q); r = add(r, m); } return r; }
static Pol integ(const Pol& p, int v, const Pol& lo, const Pol& hi) { Pol a; for (auto& t : p) { Ex e = t.first; e[v]++; a[e] += t.second / e[v]; } return add(subst(a, v, hi), subst(a, v, lo), -1); }
static Pol cst(LD c) { Pol p; p[{0, 0, 0}] = c; return p; }
static Pol absP(const Pol& p) { Pol r; for (auto& t : p) r[t.first] = std::fabs(t.second); return r; }
static double Y1[3], Y2[3], Z1[3], Z2[3];   // boundary coefficients: y = c0 + c1 x + c2 x^2, z = c0 + c1 x + c2 y
static double yl(double x) { return Y1[0] + x * (Y1[1] + x * Y1[2]); } static double yu(double x) { return Y2[0] + x * (Y2[1] + x * Y2[2]); }
static double z1(double x, double y) { return Z1[0] + Z1[1] * x + Z1[2] * y; } static double z2(double x, double y) { return Z2[0] + Z2[1] * x + Z2[2] * y; }
static Pol yp(const double* c) { Pol p; p[{0, 0, 0}] = c[0]; p[{1, 0, 0}] = c[1]; p[{2, 0, 0}] = c[2]; return p; }
static Pol zp(const double* c) { Pol p; p[{0, 0, 0}] = c[0]; p[{1, 0, 0}] = c[1]; p[{0, 1, 0}] = c[2]; return p; }
template<int N> struct SF : IScalarFunction<N> { Pol p; Real operator()(const VectorN<Real, N>& v) const override { return (double)ev(p, v[0], N > 1 ? v[N > 1 ? 1 : 0] : 0, N > 2 ? v[N > 2 ? 2 : 0] : 0); } };
static Pol genPol(Src& s, int dim, int deg) { Pol p; int n = s.size(1, 4); for (int i = 0; i < n; i++) { Ex e{0, 0, 0}; int left = (int)s.i(0, deg); for (int d = 0; d < dim; d++) { int k = (int)s.i(0, left); e[d] = k; left -= k; } p[e] += (LD)s.i(-5, 5); } return p; }
static std::string show(const Pol& p) { std::string r; for (auto& t : p) if (t.second != 0) r += fmt((double)t.second) + "x^" + std::to_string(t.first[0]) + "y^" + std::to_string(t.first[1]) + "z^" + std::to_string(t.first[2]) + " "; return r; }
LAW(twoD, 400, 4000) {
	int m = (int)s.choice(4); SF<2> f; f.p = genPol(s, 2, 5); double a = s.real(-1.5, 1.5), b = a + s.nz(0.1, 2); for (int i = 0; i < 3; i++) { Y1[i] = s.chance(1, 2) && i ? 0 : s.real(-1, 1); Y2[i] = s.chance(1, 2) && i ? 0 : s.real(-1, 2); } bool refl = s.b(); if (m < 3) { f.p = absP(f.p); a = std::fabs(a); b = a + std::fabs(b - a); for (int i = 0; i < 3; i++) Y1[i] = -0.0, Y2[i] = std::fabs(Y2[i]) + (i ? 0 : 0.3); Y1[1] = 0.1 * s.unit(); Y2[0] += 0.4; } c.nontrivial(Y1[1] != 0 || Y2[1] != 0 || Y1[2] != 0 || Y2[2] != 0); c.say([&](auto& o) { o << "method " << m << " f=" << show(f.p) << " x " << a << ".." << b << " yl " << Y1[0] << "," << Y1[1] << "," << Y1[2] << " yu " << Y2[0] << "," << Y2[1] << "," << Y2[2]; });
	LD ex = ev(integ(integ(f.p, 1, yp(Y1), yp(Y2)), 0, cst(a), cst(b)), 0, 0, 0); LD w = 0, xm = std::max(std::fabs(a), std::fabs(b)); { double q1[3], q2[3]; for (int i = 0; i < 3; i++) q1[i] = std::fabs(Y1[i]), q2[i] = std::fabs(Y2[i]); Pol P = absP(f.p); LD Y = std::max(ev(yp(q1), xm, 0, 0), ev(yp(q2), xm, 0, 0)); w = ev(P, xm, Y, 0) * 2 * Y * std::fabs(b - a); } (void)refl;
	IntegrationMethod M = (IntegrationMethod)m; IntegrationResult r = Integrate2D(f, M, a, b, yl, yu); double tol = m == 0 ? 5e-4 : m == 1 ? 5e-5 : m == 2 ? 1e-5 : 1e-13; if (m < 3) { if (!r.converged) { CHECK(std::fabs(ex) < 1e-3 * w, "Integrate2D does not converge"); return; } } else CHECK(r.converged, "Gauss not converged"); CHECK_NEAR(r.value, (double)ex, tol * (double)w + (m < 3 ? 2e-3 * tol * 0 : 0) + 1e-15, "Integrate2D"); IntegrationDetailedResult d = Integrate2DDetailed(f, M, a, b, yl, yu); CHECK(d.value == r.value && d.converged == r.converged, "detailed"); double rv = Integrate2D(f, M, b, a, yl, yu).value; CHECK_NEAR(rv, -r.value, 2 * tol * (double)w, "reversed outer limits");
	double uv = Integrate2D(f, M, a, b, yu, yl).value; CHECK_NEAR(uv, -r.value, 2 * tol * (double)w, "reversed inner limits");
}
LAW(threeD, 60, 500) {
	int m = s.pick({2, 3, 3, 4, 4, 1}); SF<3> f; f.p = genPol(s, 3, m == 1 ? 2 : 5); double a = s.real(-1.5, 1.5), b = a + s.nz(0.1, 2); for (int i = 0; i < 3; i++) { Y1[i] = s.chance(1, 2) && i ? 0 : s.real(-1, 1); Y2[i] = s.chance(1, 2) && i ? 0 : s.real(-1, 2); Z1[i] = s.chance(1, 3) && i ? 0 : s.real(-1, 1); Z2[i] = s.chance(1, 3) && i ? 0 : s.real(-1, 2); } Y1[2] = Y2[2] = 0; c.nontrivial(Z1[1] != 0 || Z2[2] != 0); c.say([&](auto& o) { o << "method " << m << " f=" << show(f.p) << " x " << a << ".." << b << " yl " << Y1[0] << "," << Y1[1] << " yu " << Y2[0] << "," << Y2[1] << " z1 " << Z1[0] << "," << Z1[1] << "," << Z1[2] << " z2 " << Z2[0] << "," << Z2[1] << "," << Z2[2]; });
	LD ex = ev(integ(integ(integ(f.p, 2, zp(Z1), zp(Z2)), 1, yp(Y1), yp(Y2)), 0, cst(a), cst(b)), 0, 0, 0); LD xm = std::max(std::fabs(a), std::fabs(b)), Y = std::max(std::fabs(Y1[0]) + std::fabs(Y1[1]) * xm, std::fabs(Y2[0]) + std::fabs(Y2[1]) * xm), Z = std::max(std::fabs(Z1[0]) + std::fabs(Z1[1]) * xm + std::fabs(Z1[2]) * Y, std::fabs(Z2[0]) + std::fabs(Z2[1]) * xm + std::fabs(Z2[2]) * Y), w = ev(absP(f.p), xm, Y, Z) * 4 * Y * Z * std::fabs(b - a);
	// moderate cost: Romberg and Simpson nested refinement can explode on cancelling integrals, so only use them when the integrand is one-signed
	if (m < 3) { f.p = absP(f.p); a = std::fabs(a); b = a + std::fabs(b - a); Y1[0] = 0; Y1[1] = 0; Y2[0] = 0.5 + std::fabs(Y2[0]); Y2[1] = std::fabs(Y2[1]); Z1[0] = Z1[1] = Z1[2] = 0; Z2[0] = 0.3 + std::fabs(Z2[0]); Z2[1] = std::fabs(Z2[1]); Z2[2] = std::fabs(Z2[2]); ex = ev(integ(integ(integ(f.p, 2, zp(Z1), zp(Z2)), 1, yp(Y1), yp(Y2)), 0, cst(a), cst(b)), 0, 0, 0); w = ex; }
	IntegrationResult r = Integrate3D(f, (IntegrationMethod)m, a, b, yl, yu, z1, z2); CHECK(r.converged, "Integrate3D does not converge"); double tol = m == 1 ? 1e-4 : m == 2 ? 1e-5 : 1e-13; CHECK_NEAR(r.value, (double)ex, tol * (double)w + 1e-15, "Integrate3D"); if (m >= 3) { double g = Integrate3D(f, a, b, yl, yu, z1, z2).value; CHECK_NEAR(g, (double)ex, 1e-13 * (double)w + 1e-15, "default method"); auto d = Integrate3DDetailed(f, (IntegrationMethod)m, a, b, yl, yu, z1, z2); CHECK(d.value == r.value && d.converged, "detailed"); CHECK_NEAR(Integrate3D(f, (IntegrationMethod)m, a, b, yl, yu, z2, z1).value, -r.value, 2e-13 * (double)w, "reversed innermost limits"); CHECK_NEAR(Integrate3D(f, (IntegrationMethod)m, a, b, yu, yl, z1, z2).value, -r.value, 2e-13 * (double)w, "reversed middle limits"); CHECK_NEAR(Integrate3D(f, (IntegrationMethod)m, b, a, yl, yu, z1, z2).value, -r.value, 2e-13 * (double)w, "reversed outer limits"); }
}
static void genShape(Src& s, int& k, double& q, double& p) { k = (int)s.choice(3); q = s.uni(0.1, 0.9); p = s.uni(1, 8); }
static LD F1(int k, double q, double p, LD t) { switch (k) { case 0: return std::atan(p * (t - q)) / p; case 1: return std::exp(p * t / 4) * 4 / p; case 2: return -std::cos(p * t + q) / p; default: { LD u = t - q; return u * std::fabs(u) / 2; } } }
static double f1(int k, double q, double p, double t) { switch (k) { case 0: return 1 / (1 + p * p * (t - q) * (t - q)); case 1: return std::exp(p * t / 4); case 2: return std::sin(p * t + q); default: return std::fabs(t - q); } }
LAW(adaptive, 60, 600) {
	using namespace Integration; int D = s.chance(1, 3) ? 3 : 2; int k[3]; double q[3], p[3], lo[3], hi[3]; for (int d = 0; d < D; d++) { genShape(s, k[d], q[d], p[d]); if (D == 3 && d && k[d] == 3) k[d] = 1; lo[d] = s.real(-1, 1); hi[d] = lo[d] + s.uni(0.1, 1.5); } double tol = std::pow(10.0, -s.uni(2, D == 3 ? 4 : 7)); bool tight = s.chance(1, 3); int me = tight ? (int)s.i(1, D == 3 ? 60000 : 5000) : 300000; if (tight) tol *= std::pow(10.0, -s.uni(0, 6)); int md = s.chance(1, 4) ? (int)s.i(0, 3) : 12; long calls = 0; bool inside = true; c.nontrivial(true); c.say([&](auto& o) { o << D << "-D"; for (int d = 0; d < D; d++) o << " shape" << k[d] << "(" << q[d] << "," << p[d] << ") on " << lo[d] << ".." << hi[d]; o << " tol " << tol << " max depth " << md << " max evals " << me; });
	LD ex = 1, aw = 1; for (int d = 0; d < D; d++) { ex *= F1(k[d], q[d], p[d], hi[d]) - F1(k[d], q[d], p[d], lo[d]); LD t = 0; for (int i = 0; i < 100; i++) t += std::fabs(f1(k[d], q[d], p[d], lo[d] + (hi[d] - lo[d]) * (i + 0.5) / 100)); aw *= t / 100 * (hi[d] - lo[d]); }
	auto g2 = [&](double x, double y) { calls++; if (x < lo[0] || x > hi[0] || y < lo[1] || y > hi[1]) inside = false; return f1(k[0], q[0], p[0], x) * f1(k[1], q[1], p[1], y); }; auto g3 = [&](double x, double y, double z) { calls++; if (x < lo[0] || x > hi[0] || y < lo[1] || y > hi[1] || z < lo[2] || z > hi[2]) inside = false; return f1(k[0], q[0], p[0], x) * f1(k[1], q[1], p[1], y) * f1(k[2], q[2], p[2], z); };
	double v, e; long fe; int cells, depth; bool cv; double dv; bool dc; if (D == 2) { AdaptiveConfig2D cf; cf.absoluteTolerance(tol).relativeTolerance(tol).maxDepth(md).maxEvaluations(me); auto r = s.b() ? IntegrateAdaptive2D(g2, lo[0], hi[0], lo[1], hi[1], tol, md, me) : IntegrateAdaptive2D(g2, lo[0], hi[0], lo[1], hi[1], cf); v = r.value; e = r.error_estimate; fe = r.function_evaluations; cells = r.cells_subdivided; depth = r.max_depth_reached; cv = r.converged; long cc = calls; auto d = s.b() ? IntegrateAdaptive2DDetailed(g2, lo[0], hi[0], lo[1], hi[1], IntegrationConfig{}, tol, md, me) : IntegrateAdaptive2DDetailed(g2, lo[0], hi[0], lo[1], hi[1], cf); dv = d.value; dc = d.converged && d.status == AlgorithmStatus::Success && d.error_estimate == e; calls = cc; } else { AdaptiveConfig3D cf; cf.absoluteTolerance(tol).relativeTolerance(tol).maxDepth(md).maxEvaluations(me); auto r = s.b() ? IntegrateAdaptive3D(g3, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], tol, md, me) : IntegrateAdaptive3D(g3, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], cf); v = r.value; e = r.error_estimate; fe = r.function_evaluations; cells = r.cells_subdivided; depth = r.max_depth_reached; cv = r.converged; long cc = calls; auto d = s.b() ? IntegrateAdaptive3DDetailed(g3, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], IntegrationConfig{}, tol, md, me) : IntegrateAdaptive3DDetailed(g3, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], cf); dv = d.value; dc = d.converged && d.status == AlgorithmStatus::Success && d.error_estimate == e; calls = cc; }
	c.label(cells ? "subdivided" : "single cell"); CHECK(inside, "evaluated outside the box"); CHECK(dv == v && dc == cv, "detailed result differs"); int per = D == 2 ? 225 : 3375, ch = D == 2 ? 4 : 8; CHECK(fe == calls && calls == (long)per * (1 + (long)ch * cells), "evaluations: reported " << fe << " counted " << calls << " cells " << cells); CHECK(depth <= md, "depth " << depth << " above the limit"); CHECK(calls <= (long)me + (long)per * ((ch - 1) * (md + 1) + 1), "evaluation limit " << me << " exceeded: " << calls); bool kink = false; for (int d = 0; d < D; d++) kink |= k[d] == 3; if (md == 12 && me == 300000 && !kink) CHECK(cv, "does not converge"); double err = (double)std::fabs(v - ex), noise = 1e-12 * (double)aw; if (cv) { CHECK(e <= tol + tol * (double)aw * 1.1 + noise, "converged with estimate " << e << " above tolerance"); CHECK(err <= 30 * e + 3 * tol * (1 + (double)aw) * 1e-1 + noise + (kink ? 300 * e + 100 * tol : 0.0), "error " << err << " reported " << e); } else CHECK(e > 0, "not converged but estimate 0"); if (md == 0) CHECK(calls == per, "depth 0");
}
template<int N> static std::string vs(const VectorN<Real, N>& v) { std::vector<double> r; for (int i = 0; i < N; i++) r.push_back(v[i]); return str(r); }
template<int N> static void mc(Src& s, pbt::Case& c) {
	SF<N> f; f.p = genPol(s, N, 3); VectorN<Real, N> lo, hi; for (int d = 0; d < N; d++) { lo[d] = s.real(-1, 1); hi[d] = lo[d] + s.nz(0.2, 2); } unsigned seed = (unsigned)s.i(1, 300000); int n = (int)s.pick({(long long)2, (long long)50, (long long)1000, (long long)20000, (long long)s.i(2, 5000)}); bool anti = s.b(); MonteCarloConfig cf; cf.samples(n).randomSeed(seed).antithetic(anti); double te = std::pow(10.0, -s.uni(0, 4)); cf.error(te); c.nontrivial(n >= 50); c.say([&](auto& o) { o << N << "-D f=" << show(f.p) << " box from " << vs(lo) << " to " << vs(hi) << " samples " << n << " antithetic " << anti << " seed " << seed; });
	Pol I = f.p, I2 = mul(f.p, f.p); LD vol = 1, av = 1; for (int d = 0; d < N; d++) { I = integ(I, d, cst(lo[d]), cst(hi[d])); I2 = integ(I2, d, cst(lo[d]), cst(hi[d])); vol *= (LD)hi[d] - lo[d]; } av = std::fabs(vol); LD ex = ev(I, 0, 0, 0), mean = ex / vol, var = ev(I2, 0, 0, 0) / vol - mean * mean; if (var < 0) var = 0;
	struct W : IScalarFunction<N> { const SF<N>& f; VectorN<Real, N> lo, hi; mutable long calls = 0; mutable bool in = true; mutable double sum = 0; W(const SF<N>& f, const VectorN<Real, N>& l, const VectorN<Real, N>& h) : f(f), lo(l), hi(h) {} Real operator()(const VectorN<Real, N>& v) const override { calls++; for (int d = 0; d < N; d++) if (v[d] < std::min(lo[d], hi[d]) - 1e-15 || v[d] > std::max(lo[d], hi[d]) + 1e-15) in = false; double t = f(v); sum += t; return t; } } w(f, lo, hi);
	MonteCarloIntegrator<N> mi(7); MonteCarloResult r = mi.integrate(w, lo, hi, cf); int used = anti ? n / 2 * 2 : n; CHECK(w.in, "sample outside the box"); CHECK(w.calls == used && (int)r.samples_used == used && r.function_evaluations == used, "samples used " << r.samples_used << " evaluated " << w.calls); LD sc = 0; { VectorN<Real, N> m; for (int d = 0; d < N; d++) m[d] = std::max(std::fabs(lo[d]), std::fabs(hi[d])); sc = ev(absP(f.p), m[0], N > 1 ? m[N > 1 ? 1 : 0] : 0, N > 2 ? m[N > 2 ? 2 : 0] : 0); } CHECK_NEAR(r.value, (double)(vol * w.sum / used), 1e-12 * (double)(av * sc) + 1e-300, "estimate is not volume times sample mean"); CHECK(r.error_estimate >= 0 && r.variance >= 0 && std::isfinite(r.error_estimate), "error estimate " << r.error_estimate << " variance " << r.variance); CHECK(std::fabs(r.value - ex) <= 8 * (double)(av * std::sqrt(var / used)) * (anti ? 1.5 : 1) + 1e-12 * (double)(av * sc), "estimate " << r.value << " exact " << (double)ex << " sigma " << (double)(av * std::sqrt(var / used)));
	if (n >= 1000 && var > 1e-9 * sc * sc && !anti) { CHECK(r.error_estimate > 0.7 * (double)(av * std::sqrt(var / used)) && r.error_estimate < 1.4 * (double)(av * std::sqrt(var / used)), "error estimate " << r.error_estimate << " true sigma " << (double)(av * std::sqrt(var / used))); CHECK_NEAR(r.variance, (double)var, 0.6 * (double)var, "variance"); } if (std::fabs(r.value) > 1e-9) CHECK(r.converged == (r.error_estimate / std::fabs(r.value) < te), "converged " << r.converged << " error " << r.error_estimate << " value " << r.value << " target " << te);
	MonteCarloIntegrator<N> m2(99); MonteCarloResult r2 = m2.integrate(f, lo, hi, cf); CHECK(r2.value == r.value && r2.error_estimate == r.error_estimate, "same seed gives a different result"); cf.randomSeed(seed + 1); if (n > 10 && !anti && var > 1e-6 * sc * sc) CHECK(m2.integrate(f, lo, hi, cf).value != r.value, "different seeds give the same sample"); cf.randomSeed(0); MonteCarloIntegrator<N> m3(seed), m4(5); m4.seed(seed); CHECK(m3.integrate(f, lo, hi, cf).value == r.value && m4.integrate(f, lo, hi, cf).value == r.value, "constructor or seed() does not seed");
	VectorN<Real, N> fl = lo; fl[0] = hi[0]; MonteCarloResult z = m2.integrate(f, fl, hi, cf); CHECK(z.value == 0 && z.error_estimate == 0, "empty box");
	int st = (int)s.i(1, N == 1 ? 50 : N == 2 ? 12 : 6), per = (int)s.i(1, 10); W ws(f, lo, hi); StratifiedMonteCarloIntegrator<N> si(3); MonteCarloResult q = si.integrate(ws, lo, hi, st, per, seed); long tot = per; for (int d = 0; d < N; d++) tot *= st; CHECK(ws.in && ws.calls == tot && (long)q.samples_used == tot, "stratified samples"); CHECK_NEAR(q.value, (double)(vol * ws.sum / tot), 1e-12 * (double)(av * sc), "stratified estimate"); CHECK(q.error_estimate >= 0 && q.variance >= 0, "stratified error estimate " << q.error_estimate); CHECK(std::fabs(q.value - ex) <= 8 * (double)(av * std::sqrt(var / tot)) + 1e-12 * (double)(av * sc), "stratified estimate " << q.value << " exact " << (double)ex); StratifiedMonteCarloIntegrator<N> s2(seed); CHECK(s2.integrate(f, lo, hi, st, per).value == q.value, "stratified reproducibility");
	// every stratum gets its samples
	struct St : IScalarFunction<N> { VectorN<Real, N> lo, hi; int st; mutable std::vector<int> n; Real operator()(const VectorN<Real, N>& v) const override { int id = 0; for (int d = N - 1; d >= 0; d--) { int k = (int)((v[d] - lo[d]) / (hi[d] - lo[d]) * st); id = id * st + std::max(0, std::min(st - 1, k)); } n[id]++; return 1; } } cnt; cnt.lo = lo; cnt.hi = hi; cnt.st = st; cnt.n.assign(tot / per, 0); q = si.integrate(cnt, lo, hi, st, per, seed); for (int t : cnt.n) CHECK(std::abs(t - per) <= 0 || (t >= per - 1 && t <= per + 1), "a stratum received " << t << " of " << per << " samples"); CHECK_NEAR(q.value, (double)vol, 1e-12 * (double)av, "volume"); CHECK(q.error_estimate <= 1e-6 * (double)av, "constant integrand has error estimate " << q.error_estimate);
	double cst0 = s.pick({0.1, 0.3, 1.7, -2.3}); struct Cn : IScalarFunction<N> { double v; Real operator()(const VectorN<Real, N>&) const override { return v; } } cn; cn.v = cst0; MonteCarloResult k = mi.integrate(cn, lo, hi, cf); CHECK_NEAR(k.value, cst0 * (double)vol, 1e-11 * std::fabs(cst0 * (double)vol), "constant"); CHECK(k.error_estimate >= 0 && k.error_estimate < 1e-6 * (double)av, "constant integrand: error estimate " << k.error_estimate);
	// hit or miss: half space x0 <= t
	double t = s.unit(), cut = lo[0] + t * (hi[0] - lo[0]); HitOrMissIntegrator<N> hm(seed); long hc = 0, hits = 0; bool up = hi[0] > lo[0]; MonteCarloResult h = hm.estimateVolume([&](const VectorN<Real, N>& v) { hc++; bool in = up ? v[0] <= cut : v[0] >= cut; hits += in; return in; }, lo, hi, n, seed); CHECK(hc == n && (int)h.samples_used == n, "hit or miss samples"); CHECK_NEAR(h.value, (double)vol * hits / n, 1e-12 * (double)av, "hit or miss value"); CHECK(std::fabs(h.value - t * vol) <= 8 * (double)av * std::sqrt(t * (1 - t) / n) + 9 * (double)av / n, "hit or miss volume " << h.value << " exact " << (double)(t * vol)); double ph = (double)hits / n; CHECK_NEAR(h.error_estimate, (double)av * std::sqrt(ph * (1 - ph) / n), 1e-9 * (double)av, "hit or miss error");
}
LAW(montecarlo, 600, 6000) { int d = (int)s.i(1, 3); if (d == 1) mc<1>(s, c); else if (d == 2) mc<2>(s, c); else mc<3>(s, c); }
struct R1 : IRealFunction { Pol p; Real operator()(Real x) const override { return (double)ev(p, x, 0, 0); } };
LAW(helpers, 100, 600) {
	unsigned seed = (unsigned)s.i(1, 100000); int n = (int)s.i(100, 20000); R1 f; f.p = genPol(s, 1, 4); double a = s.real(-1, 1), b = a + s.nz(0.1, 2); c.nontrivial(true); c.say([&](auto& o) { o << n << " samples seed " << seed << " f=" << show(f.p) << " on " << a << ".." << b; }); MonteCarloConfig cf; cf.samples(n).randomSeed(seed); MonteCarloResult r = IntegrateMonteCarlo1D(f, a, b, cf); LD ex = ev(integ(f.p, 0, cst(a), cst(b)), 0, 0, 0), vol = (LD)b - a, var = ev(integ(mul(f.p, f.p), 0, cst(a), cst(b)), 0, 0, 0) / vol - ex / vol * (ex / vol); CHECK(std::fabs(r.value - ex) <= 8 * (double)(std::fabs(vol) * std::sqrt(std::max((LD)0, var) / n)) + 1e-11 * (std::fabs((double)ex) + (double)(std::fabs(vol) * std::sqrt(std::max((LD)0, var)))) + 1e-12, "IntegrateMonteCarlo1D " << r.value << " exact " << (double)ex); CHECK(IntegrateMonteCarlo1D(f, a, b, cf).value == r.value, "reproducible");
	double pi = std::acos(-1.0); CHECK(std::fabs(EstimatePi(n, seed).value - pi) < 8 * 4 * 0.42 / std::sqrt((double)n), "EstimatePi"); CHECK(EstimatePi(n, seed).value == EstimatePi(n, seed).value, "EstimatePi reproducible"); CHECK(std::fabs(EstimateUnitBallVolume<3>(n, seed).value - 4 * pi / 3) < 8 * 8 * 0.5 / std::sqrt((double)n), "unit ball"); CHECK(std::fabs(EstimateUnitBallVolume<4>(n, seed).value - pi * pi / 2) < 8 * 16 * 0.47 / std::sqrt((double)n), "unit 4-ball");
}
