// C29: orthogonal families against their explicit coefficient formulas / exact moments, Chebyshev series against exact polynomials
#include "common.h"
#include "interfaces/IFunction.h"
#include "base/Vector/Vector.h"
#include "base/Function.h"
#include "core/Integration/Integration1D.h"
#include "core/OrthogonalBasis.h"
#include "core/OrthogonalBasis/LegendreBasis.h"
#include "core/OrthogonalBasis/HermiteBasis.h"
#include "core/OrthogonalBasis/LaguerreBasis.h"
#include "core/OrthogonalBasis/ChebyshevBasis.h"
#include "algorithms/ChebyshevApproximation.h"
typedef std::vector<LD> P;
static P shift(const P& p) { P r(p.size() + 1, 0); for (size_t i = 0; i < p.size(); i++) r[i + 1] = p[i]; return r; }
static P comb(LD a, const P& p, LD b, const P& q) { P r(std::max(p.size(), q.size()), 0); for (size_t i = 0; i < p.size(); i++) r[i] += a * p[i]; for (size_t i = 0; i < q.size(); i++) r[i] += b * q[i]; return r; }
static LD ev(const P& p, LD x, LD& mag) { LD v = 0; mag = 0; for (size_t i = p.size(); i-- > 0;) { v = v * x + p[i]; mag = mag * fabsl(x) + fabsl(p[i]); } return v; }
static LD fac(int n) { LD r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
// explicit (closed-form, not recurrence) coefficients
static LD binom(LD a, int k) { LD r = 1; for (int i = 1; i <= k; i++) r *= (a - k + i) / i; return r; }
enum Fam { LEG, HER, PHER, LAG, ALAG, CHT, CHU };
static P coefs(Fam f, int n, LD al) { P p(n + 1, 0);
	switch (f) {
	case LEG: for (int k = 0; 2 * k <= n; k++) p[n - 2 * k] = (k % 2 ? -1 : 1) * binom(n, k) * binom(2 * n - 2 * k, n) / powl(2, n); break;
	case HER: for (int k = 0; 2 * k <= n; k++) p[n - 2 * k] = (k % 2 ? -1 : 1) * fac(n) / (fac(k) * fac(n - 2 * k)) * powl(2, n - 2 * k); break;
	case PHER: for (int k = 0; 2 * k <= n; k++) p[n - 2 * k] = (k % 2 ? -1 : 1) * fac(n) / (fac(k) * fac(n - 2 * k)) / powl(2, k); break;
	case LAG: al = 0; /* fallthrough */
	case ALAG: for (int k = 0; k <= n; k++) p[k] = (k % 2 ? -1 : 1) * binom(n + al, n - k) / fac(k); break;
	case CHT: if (n == 0) p[0] = 1; else for (int k = 0; 2 * k <= n; k++) p[n - 2 * k] = (k % 2 ? -1 : 1) * 0.5L * n * fac(n - k - 1) / (fac(k) * fac(n - 2 * k)) * powl(2, n - 2 * k); break;
	case CHU: for (int k = 0; 2 * k <= n; k++) p[n - 2 * k] = (k % 2 ? -1 : 1) * fac(n - k) / (fac(k) * fac(n - 2 * k)) * powl(2, n - 2 * k); break; }
	return p; }
static LD moment(Fam f, int k, LD al) { const LD pi = acosl(-1.0L);
	switch (f) {
	case LEG: return k % 2 ? 0 : 2.0L / (k + 1);
	case HER: return k % 2 ? 0 : tgammal((k + 1) / 2.0L);
	case PHER: return k % 2 ? 0 : powl(2, (k + 1) / 2.0L) * tgammal((k + 1) / 2.0L);
	case LAG: return fac(k);
	case ALAG: return tgammal(k + al + 1);
	case CHT: return k % 2 ? 0 : pi * binom(k, k / 2) / powl(2, k);
	case CHU: return k % 2 ? 0 : pi * binom(k, k / 2) / powl(2, k) / (k + 2); }
	return 0; }
struct B { std::function<double(int, double)> e; std::function<double(double)> w; std::function<double(int)> nrm; std::function<bool(int, double&, double&, double&)> rec; double lo, hi; };
template<class T> static B mk(const T& t) { B b; b.e = [t](int n, double x) { return t.Evaluate(n, x); }; b.w = [t](double x) { return t.WeightFunction(x); }; b.nrm = [t](int n) { return t.Normalization(n); }; b.rec = [t](int n, double& a, double& bb, double& c) { if constexpr (std::is_same_v<T, ProbabilistHermiteBasis>) return false; else { t.RecurrenceCoefficients(n, a, bb, c); return true; } }; b.lo = t.DomainMin(); b.hi = t.DomainMax(); return b; }
static B get(Fam f, double al) { switch (f) { case LEG: return mk(LegendreBasis()); case HER: return mk(HermiteBasis()); case PHER: return mk(ProbabilistHermiteBasis()); case LAG: return mk(LaguerreBasis()); case ALAG: return mk(AssociatedLaguerreBasis(al)); case CHT: return mk(ChebyshevBasis()); default: return mk(ChebyshevBasisSecondKind()); } }
static Fam fam(Src& s, double& al) { Fam f = (Fam)s.i(0, 6); al = f == ALAG ? (s.b() ? (double)s.i(0, 6) : s.uni(-0.95, 6)) : 0; return f; }

LAW(values, 3000, 40000) { double al; Fam f = fam(s, al); int n = (int)s.i(0, 20); B b = get(f, al); bool fin = f == LEG || f == CHT || f == CHU, half = f == LAG || f == ALAG; double x = fin ? s.uni(-1, 1) : half ? s.uni(0, 20) : s.uni(-5, 5); if (s.chance(1, 8)) x = fin ? (double)s.i(-1, 1) : half ? (double)s.i(0, 5) : (double)s.i(-3, 3);
	c.say([&](auto& o) { o << "family " << (int)f << " alpha " << fmt(al) << " n=" << n << " x=" << fmt(x); }); c.nontrivial(n >= 3 && x != 0); c.label(std::string("fam") + char('0' + f));
	LD mag; LD v = ev(coefs(f, n, al), x, mag); CHECK_NEAR((LD)b.e(n, x), v, 3e-15L * (n + 3) * (mag + 1) + (fin ? 1e-13L : 0), "value differs from the explicit polynomial");
	CHECK_THROWS(b.e(-1 - (int)s.i(0, 5), x), std::exception, "negative degree accepted"); CHECK_THROWS(b.nrm(-1), std::exception, "negative degree norm accepted");
	double ra, rb, rc; if (n >= 1 && b.rec(n, ra, rb, rc)) { double l = b.e(n + 1, x), r = (ra * x + rb) * b.e(n, x) + rc * b.e(n - 1, x); LD m2; ev(coefs(f, n + 1, al), x, m2); CHECK_NEAR(l, r, 1e-13L * (m2 + 1), "recurrence coefficients do not reproduce the next degree"); }
	if (fin) { LD th = acosl(x); if (f == CHT) CHECK_NEAR(b.e(n, x), cosl(n * th), 1e-12, "T_n(cos t) != cos nt"); if (f == CHU && sinl(th) > 0.05) CHECK_NEAR(b.e(n, x), sinl((n + 1) * th) / sinl(th), 1e-11, "U_n(cos t) != sin (n+1)t / sin t"); CHECK(b.lo == -1 && b.hi == 1, "domain"); }
	else CHECK(b.hi > 1e300 && (half ? b.lo == 0 : b.lo < -1e300), "domain");
	LD w = f == LEG ? 1 : f == HER ? expl(-(LD)x * x) : f == PHER ? expl(-(LD)x * x / 2) : f == LAG ? expl(-(LD)x) : f == ALAG ? powl(x, al) * expl(-(LD)x) : f == CHT ? 1 / sqrtl(1 - (LD)x * x) : sqrtl(1 - (LD)x * x);
	if (!(f == CHT && std::fabs(x) >= 1) && std::isfinite((double)w)) CHECK_NEAR((LD)b.w(x), w, 1e-13L * w * (fin ? 1 / std::max(1e-30L, 1 - (LD)x * x) : 1), "weight"); }

LAW(orthogonality, 2500, 30000) { double al; Fam f = fam(s, al); int n = (int)s.i(0, 9), m = s.b() ? n : (int)s.i(0, 9); B b = get(f, al); c.say([&](auto& o) { o << "family " << (int)f << " alpha " << fmt(al) << " <" << n << "," << m << ">"; }); c.nontrivial(n + m > 3); c.label(n == m ? "norm" : "orthogonal");
	// interpolate the library's polynomial n exactly from its own values (Newton on n+1 nodes), then use exact moments
	auto poly = [&](int d) { std::vector<LD> xs, ys; bool fin = f == LEG || f == CHT || f == CHU, half = f == LAG || f == ALAG; for (int i = 0; i <= d; i++) { LD x = fin ? cosl((2 * i + 1) * acosl(-1.0L) / (2 * d + 2)) : half ? (LD)i * 1.5L : (LD)(i - d / 2) * 0.75L; double xd = (double)x; xs.push_back(xd); ys.push_back(b.e(d, xd)); } for (int k = 1; k <= d; k++) for (int i = d; i >= k; i--) ys[i] = (ys[i] - ys[i - 1]) / (xs[i] - xs[i - k]); P p{ ys[d] }; for (int i = d - 1; i >= 0; i--) { P q = shift(p); for (size_t j = 0; j < p.size(); j++) q[j] -= xs[i] * p[j]; q[0] += ys[i]; p = q; } return p; };
	P p = poly(n), q = poly(m); LD in = 0, mg = 0; for (int i = 0; i <= n; i++) for (int j = 0; j <= m; j++) { LD t = p[i] * q[j] * moment(f, i + j, al); in += t; mg += fabsl(p[i] * q[j]) * moment(f, (i + j) + ((i + j) % 2), al); }
	if (n == m) { CHECK_NEAR((LD)b.nrm(n), in, 3e-12L * mg * (n + 1), "normalization is not the squared norm"); } else CHECK_NEAR(in, 0.0L, 3e-12L * mg * (n + m + 1), "not orthogonal");
	if (f == HER) { HermiteBasis H; double x = s.uni(-4, 4); LD mm; LD e = ev(coefs(HER, n, 0), x, mm) * expl(-0.5L * x * x) / sqrtl(powl(2, n) * fac(n) * sqrtl(acosl(-1.0L))); CHECK_NEAR((LD)H.QuantumWavefunction(n, x), e, 1e-12L * (fabsl(e) + 1), "quantum wave function"); } }

LAW(zeros, 600, 6000) { int n = (int)s.i(1, 60); c.say([&](auto& o) { o << "n=" << n; }); c.nontrivial(n > 3); ChebyshevBasis T; ChebyshevBasisSecondKind U; auto z = T.GetZeros(n), zu = U.GetZeros(n), e = T.GetExtrema(n); Vector<Real> r = ChebyshevRoots(n), x = ChebyshevExtrema(n); CHECK((int)z.size() == n && (int)zu.size() == n && (int)e.size() == n + 1 && r.size() == n && x.size() == n + 1, "counts");
	for (int i = 0; i < n; i++) { CHECK_NEAR(ChebyshevT(n, z[i]), 0, 1e-13 * n * n, "T zero"); CHECK_NEAR(ChebyshevU(n, zu[i]), 0, 1e-12 * n * n * n, "U zero"); CHECK_NEAR(r[i], z[i], 1e-14, "ChebyshevRoots disagrees with GetZeros"); if (i) CHECK(z[i] < z[i - 1] && zu[i] < zu[i - 1] && e[i] < e[i - 1], "zeros/extrema not distinct and ordered"); }
	for (int i = 0; i <= n; i++) { CHECK_NEAR(ChebyshevT(n, e[i]), i % 2 ? -1 : 1, 1e-12 * n * n, "extrema"); CHECK_NEAR(x[i], e[i], 1e-14, "ChebyshevExtrema disagrees"); }
	CHECK_THROWS(T.GetZeros(0), std::exception, "zeros of T0"); CHECK_THROWS(ChebyshevRoots(-(int)s.i(0, 3)), std::exception, "roots n<=0"); CHECK_THROWS(ChebyshevExtrema(0), std::exception, "extrema n=0"); CHECK_THROWS(ChebyshevT(-1, 0.5), std::exception, "T(-1)"); CHECK_THROWS(ChebyshevU(-1, 0.5), std::exception, "U(-1)"); }

LAW(associated_legendre, 1500, 15000) { int m = (int)s.i(0, 6), l = m + (int)s.i(0, 8); double x = s.uni(-1, 1); c.say([&](auto& o) { o << "l=" << l << " m=" << m << " x=" << fmt(x); }); c.nontrivial(l > 1); AssociatedLegendreBasis A(m); CHECK(A.Order() == m, "order");
	// P_l^m = (1-x^2)^{m/2} d^m/dx^m P_l ; sign convention and normalisation of the spherical harmonics
	P p = coefs(LEG, l, 0); for (int k = 0; k < m; k++) { P d(p.size() > 1 ? p.size() - 1 : 1, 0); for (size_t i = 1; i < p.size(); i++) d[i - 1] = p[i] * (LD)i; p = d; } LD mg; LD v = powl(1 - (LD)x * x, m / 2.0L) * ev(p, x, mg); v *= (m % 2 ? -1 : 1) * sqrtl((2 * l + 1) / (4 * acosl(-1.0L)) * fac(l - m) / fac(l + m));
	CHECK_NEAR((LD)A.Evaluate(l, x), v, 1e-11L, "associated Legendre value"); if (m > 0) CHECK_THROWS(A.Evaluate(m - 1, x), std::exception, "l<m accepted"); CHECK_THROWS(AssociatedLegendreBasis(-1), std::exception, "m<0 accepted"); }

LAW(legendre_coefficients, 150, 1500) { int d = (int)s.i(0, 5); LegendreBasis L; std::vector<double> a(d + 1); for (auto& v : a) v = s.uni(-3, 3); int n = (int)s.i(0, d + 2); c.say([&](auto& o) { o << "expansion of degree " << d << ", coefficient " << n; }); c.nontrivial(d >= 2 && n <= d); RealFunctionFromStdFunc f([&](Real x) { Real v = 0; for (int k = 0; k <= d; k++) v += a[k] * std::legendre(k, x); return v; }); double got = L.ComputeCoefficient(f, n, 1e-8); CHECK_NEAR(got, n <= d ? a[n] : 0.0, 1e-5, "expansion coefficient of a function in the span"); }

static std::string show(const std::vector<double>& v) { std::string r; for (double x : v) r += fmt(x) + " "; return r; }
LAW(series, 2500, 30000) { double a = s.uni(-5, 5), b = a + s.pwide(-2, 2); int d = (int)s.size(0, 12), n = d + 1 + (int)s.i(0, 8); std::vector<double> co(d + 1); for (auto& v : co) v = s.chance(1, 5) ? 0 : s.uni(-3, 3); LD h = ((LD)b - a) / 2, mid = ((LD)a + b) / 2; // polynomial in the scaled variable, so the scale stays 1
	P pc(co.begin(), co.end()); P pd(std::max(1, d), 0), pi(d + 2, 0); for (int i = 1; i <= d; i++) pd[i - 1] = pc[i] * i / h; for (int i = 0; i <= d; i++) pi[i + 1] = pc[i] * h / (i + 1);
	auto F = [&](Real x) -> Real { LD m; return (Real)ev(pc, (x - mid) / h, m); }; bool wrap = s.b(); RealFunctionFromStdFunc fo(F); ChebyshevApproximation A = wrap ? ChebyshevApproximation(fo, a, b, n) : ChebyshevApproximation(std::function<Real(Real)>(F), a, b, n);
	c.say([&](auto& o) { o << "[" << fmt(a) << "," << fmt(b) << "] degree " << d << " n=" << n << " coefs " << show(co); }); c.nontrivial(d >= 2); LD S = 1; for (auto v : co) S += fabsl(v); LD cond = 1 + (fabsl(a) + fabsl(b)) / (b - (LD)a);
	CHECK(A.NumCoefficients() == n && A.NumTerms() == n && A.degree() == n - 1 && A.TruncatedDegree() == n - 1 && A.DomainMin() == a && A.DomainMax() == b, "sizes"); auto D = A.Derivative(); auto I = A.Integral(); auto Q = A.ToPolynomial(); LD mg; LD I0 = ev(pi, -1, mg);
	for (int t = 0; t < 8; t++) { double x = t == 0 ? a : t == 1 ? b : std::min(b, std::max(a, (double)(mid + h * s.uni(-1, 1)))); LD y = (x - mid) / h; LD v = ev(pc, y, mg); CHECK_NEAR((LD)A(x), v, 1e-13L * S * n * n * cond, "value at " << fmt(x)); LD dv = ev(pd, y, mg); CHECK_NEAR((LD)D(x), dv, 1e-13L * S * n * n * n * n * cond / h, "derivative at " << fmt(x)); LD iv = ev(pi, y, mg) - I0; CHECK_NEAR((LD)I(x), iv, 1e-13L * S * n * n * cond * h, "integral at " << fmt(x)); CHECK_NEAR((LD)Q((Real)y), v, 1e-15L * S * n * powl(2.5L, n) * cond, "power-series form"); }
	auto J = I.Derivative(); double x = (double)(mid + h * s.uni(-0.999, 0.999)); CHECK_NEAR((LD)J(x), (LD)A(x), 1e-13L * S * n * n * n * cond, "derivative of the integral");
	for (int k = d + 1; k < n; k++) CHECK_NEAR(A.Coefficient(k), 0.0, 1e-13 * (double)(S * cond) * n, "coefficient above the degree"); 
	double maxe = A.MaxError(F, 100); CHECK(maxe >= 0 && maxe <= 1e-13L * S * n * n * cond, "MaxError"); CHECK_THROWS(A(b + (b - a) * 0.01), std::domain_error, "outside the domain"); CHECK_THROWS(A(a - (b - a) * 0.01), std::domain_error, "outside the domain"); CHECK_THROWS(A.Coefficient(n), std::out_of_range, "coefficient index"); CHECK_THROWS(A.Coefficient(-1), std::out_of_range, "coefficient index"); 
	if (d <= 8) { Polynom<Real> P2(std::vector<Real>(co.begin(), co.end())); auto G = ChebyshevApproximation::FromPolynomial(P2, -1.0, 1.0); double yy = s.uni(-1, 1); LD m2; CHECK_NEAR((LD)G(yy), ev(pc, yy, m2), 1e-12L * S, "FromPolynomial"); CHECK(G.NumTerms() >= 1 && G.NumTerms() >= P2.degree() + 1, "FromPolynomial terms"); auto back = G.ToPolynomial(); for (int k = 0; k <= d; k++) CHECK_NEAR((LD)(k <= back.degree() ? back[k] : 0.0), pc[k], 1e-10L * S, "polynomial round trip"); } }

LAW(coefficients, 2500, 30000) { int n = (int)s.size(1, 15); std::vector<double> co(n); for (auto& v : co) v = s.chance(1, 6) ? 0 : s.chance(1, 3) ? s.uni(-1, 1) * 1e-6 : s.uni(-2, 2); double a = s.uni(-3, 3), b = a + s.pwide(-1, 1); Vector<Real> v(n); for (int i = 0; i < n; i++) v[i] = co[i]; ChebyshevApproximation A(v, a, b); c.say([&](auto& o) { o << "coefs " << show(co); }); c.nontrivial(n >= 4);
	auto sum = [&](int m, double x) { LD y = (2 * (LD)x - a - b) / ((LD)b - a); LD th = acosl(std::max(-1.0L, std::min(1.0L, y))), r = -0.5L * co[0]; for (int k = 0; k < m; k++) r += co[k] * cosl(k * th); return r; };
	double x = std::min(b, std::max(a, a + (b - a) * s.unit())); int m = (int)s.i(1, n); CHECK_NEAR((LD)A(x), sum(n, x), 1e-12L * n, "series sum"); CHECK_NEAR((LD)A.Eval(x, m), sum(m, x), 1e-12L * n, "partial sum of " << m << " terms"); CHECK_THROWS(A.Eval(x, n + 1), std::exception, "too many terms"); CHECK_THROWS(A.Eval(x, 0), std::exception, "no terms");
	{ ChebyshevApproximation T(A); T.SetNumTerms(m); CHECK(T.NumTerms() == m && T.TruncatedDegree() == m - 1 && T.NumCoefficients() == n, "SetNumTerms"); CHECK_NEAR((LD)T(x), sum(m, x), 1e-12L * n, "truncated evaluation"); auto Q = T.ToPolynomial(); double y = (2 * x - a - b) / (b - a); CHECK_NEAR((LD)Q(y), sum(m, x), 1e-13L * powl(2.5, m) * 10, "power series of the truncated sum"); auto Qm = A.ToPolynomial(m); CHECK(Qm(y) == Q(y), "ToPolynomial(m) differs from truncation"); CHECK_THROWS(T.SetNumTerms(n + 1), std::exception, "too many"); CHECK_THROWS(T.SetNumTerms(0), std::exception, "none"); }
	double th = s.pick({0.0, 1e-7, 1e-3, 0.5, 10.0}); ChebyshevApproximation T(A); int k = T.Truncate(th); int want = n; while (want > 1 && std::fabs(co[want - 1]) < th) want--; CHECK(k == want && T.NumTerms() == want, "Truncate kept " << k << " instead of " << want); LD bound = 0; for (int j = want; j < n; j++) bound += fabsl(co[j]); CHECK(fabsl((LD)T(x) - (LD)A(x)) <= bound + 1e-12L * n, "truncation error above the dropped coefficients");
	CHECK_THROWS(ChebyshevApproximation(v, b, a), std::exception, "reversed interval"); Vector<Real> e0; CHECK_THROWS(ChebyshevApproximation(e0, a, b), std::exception, "no coefficients"); CHECK_NEAR(A.Integral()(a), 0.0, 1e-12 * n * (b - a), "integral at the left end"); }

LAW(smooth, 1000, 12000) { double w = s.uni(0.1, 3), ph = s.uni(-3, 3), a = s.uni(-3, 3), b = a + s.uni(0.1, 4); int kind = (int)s.i(0, 3); auto f = [&](Real x) -> Real { switch (kind) { case 0: return std::sin(w * x + ph); case 1: return std::exp(w * x / 3); case 2: return std::fabs(x - ph / 3); default: return 1 / (1 + w * x * x); } }; int n = (int)s.i(1, 40); c.say([&](auto& o) { o << "kind " << kind << " w=" << fmt(w) << " ph=" << fmt(ph) << " [" << fmt(a) << "," << fmt(b) << "] n=" << n; }); c.nontrivial(n > 5); ChebyshevApproximation A(std::function<Real(Real)>(f), a, b, n); double sc = 1 + std::fabs(f(a)) + std::fabs(f(b)) + std::fabs(f((a + b) / 2));
	for (int k = 0; k < n; k++) { LD y = cosl(acosl(-1.0L) * (k + 0.5L) / n); double x = (double)((a + (LD)b) / 2 + (b - (LD)a) / 2 * y); CHECK_NEAR(A(x), f(x), 1e-12 * sc * n, "does not interpolate at Chebyshev node " << k); }
	if (kind < 2 && n >= 30) for (int t = 0; t < 4; t++) { double x = a + (b - a) * s.uni(0.001, 0.999), df = kind == 0 ? w * std::cos(w * x + ph) : w / 3 * std::exp(w * x / 3), F = kind == 0 ? (-std::cos(w * x + ph) + std::cos(w * a + ph)) / w : (std::exp(w * x / 3) - std::exp(w * a / 3)) * 3 / w; CHECK_NEAR(A(x), f(x), 1e-11 * sc, "approximation"); CHECK_NEAR(A.Derivative()(x), df, 1e-8 * sc / std::min(1.0, b - a), "derivative"); CHECK_NEAR(A.Integral()(x), F, 1e-10 * sc * (1 + 1 / w), "integral"); }
	double me = A.MaxError(std::function<Real(Real)>(f), 64), mo = 0; for (int i = 0; i <= 64; i++) { double x = std::min(b, a + i * (b - a) / 64); mo = std::max(mo, std::fabs(A(x) - f(x))); } CHECK_NEAR(me, mo, 1e-12 * sc + 1e-9 * mo, "MaxError"); }

// MaxError and evaluation must not fail at the right end for any interval
FINDING(weighted_coefficients) { (void)s; c.nontrivial(true); ChebyshevBasis T; RealFunctionFromStdFunc f([](Real x) { return x; }); double v = T.ComputeCoefficient(f, 1); if (!(std::fabs(v - 1) < 1e-2)) pbt::fail("ChebyshevBasis::ComputeCoefficient(x,1)=" + fmt(v) + " instead of 1", "C29-chebyshev-weight"); }
FINDING(infinite_coefficients) { (void)s; c.nontrivial(true); HermiteBasis H; LaguerreBasis L; RealFunctionFromStdFunc f([](Real x) { return x; }); double v = H.ComputeCoefficient(f, 1); if (!(std::fabs(v - 0.5) < 1e-2)) pbt::fail("HermiteBasis::ComputeCoefficient(x,1)=" + fmt(v) + " instead of 0.5", "C29-infinite-domain"); }
