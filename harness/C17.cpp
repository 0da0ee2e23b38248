// C17 multivariate derivatives
#include "common.h"
#include "interfaces/IFunction.h"
#include "interfaces/ITensorField.h"
#include "core/Derivation/DerivationRealFunction.h"
#include "core/Derivation/DerivationScalarFunction.h"
#include "core/Derivation/DerivationVectorFunction.h"
#include "core/Derivation/DerivationParametricCurve.h"
#include "core/Derivation/DerivationParametricSurface.h"
#include "core/Derivation/DerivationTensorField.h"
#include "core/Derivation/Jacobians.h"
#include "core/Derivation/ForwardAD.h"
#include <array>
#include <functional>
using namespace Derivation;
// polynomial of bounded total degree plus sines of linear forms, with all partial derivatives
template <int N> struct MF { struct T { double c; std::array<int, N> e; }; struct S { double A, p; std::array<double, N> w; }; std::vector<T> t; std::vector<S> sn; typedef std::array<int, N> Ix;
	LD d(const Ix& k, const VectorN<Real, N>& x) const { LD r = 0; for (auto& m : t) { LD q = m.c; for (int i = 0; i < N; i++) { if (k[i] > m.e[i]) { q = 0; break; } for (int j = 0; j < k[i]; j++) q *= m.e[i] - j; for (int j = k[i]; j < m.e[i]; j++) q *= x[i]; } r += q; }
		for (auto& m : sn) { LD a = m.p, q = m.A; int o = 0; for (int i = 0; i < N; i++) { a += (LD)m.w[i] * x[i]; for (int j = 0; j < k[i]; j++) q *= m.w[i]; o += k[i]; } r += q * std::sin(a + o * std::acos(-1.0L) / 2); } return r; }
	// bound on every derivative of total order n, |x_i| <= r
	LD bound(int n, LD r) const { LD b = 0; for (auto& m : t) { int D = 0; for (int e : m.e) D += e; if (D < n) continue; LD q = std::fabs(m.c); for (int j = 0; j < n; j++) q *= D - j; b += q * std::pow(std::max<LD>(r, 1), D - n); } for (auto& m : sn) { LD w = 0; for (double v : m.w) w = std::max<LD>(w, std::fabs(v)); b += std::fabs(m.A) * std::pow(w, n); } return b; }
	std::string str() const { std::ostringstream o; for (auto& m : t) { o << m.c; for (int i = 0; i < N; i++) if (m.e[i]) o << "*x" << i << "^" << m.e[i]; o << " + "; } for (auto& m : sn) { o << m.A << "*sin(" << m.p; for (int i = 0; i < N; i++) o << "+" << m.w[i] << "x" << i; o << ") "; } return o.str(); } };
template <int N> static MF<N> gen(Src& s, bool poly, int deg) { MF<N> f; int nt = s.size(1, 4); for (int k = 0; k < nt; k++) { typename MF<N>::T t; t.c = (double)s.i(-4, 4); t.e.fill(0); int D = s.i(0, deg); for (int j = 0; j < D; j++) t.e[s.choice(N - 1)]++; f.t.push_back(t); } if (!poly) for (int k = s.size(1, 2); k > 0; k--) { typename MF<N>::S q; q.A = s.nz(0.2, 3); q.p = s.uni(-3, 3); for (auto& w : q.w) w = s.uni(-2, 2); f.sn.push_back(q); } return f; }
template <int N> struct SF : IScalarFunction<N> { MF<N> m; Real operator()(const VectorN<Real, N>& x) const override { return (double)m.d({}, x); } };
template <int N> struct VF : IVectorFunction<N> { MF<N> m[N]; VectorN<Real, N> operator()(const VectorN<Real, N>& x) const override { VectorN<Real, N> r; for (int i = 0; i < N; i++) r[i] = (double)m[i].d({}, x); return r; } };
template <int N, int M> struct VNM : IVectorFunctionNM<N, M> { MF<N> m[M]; VectorN<Real, M> operator()(const VectorN<Real, N>& x) const override { VectorN<Real, M> r; for (int i = 0; i < M; i++) r[i] = (double)m[i].d({}, x); return r; } };
struct Cv : IParametricCurve<3> { MF<1> m[3]; VectorN<Real, 3> operator()(Real t) const override { VectorN<Real, 1> x{t}; return VectorN<Real, 3>{(double)m[0].d({}, x), (double)m[1].d({}, x), (double)m[2].d({}, x)}; } Real getMinT() const override { return -10; } Real getMaxT() const override { return 10; } };
struct Sfc : IParametricSurfaceRect<3> { MF<2> m[3]; VectorN<Real, 3> operator()(Real u, Real w) const override { VectorN<Real, 2> x{u, w}; return VectorN<Real, 3>{(double)m[0].d({}, x), (double)m[1].d({}, x), (double)m[2].d({}, x)}; } Real getMinU() const override { return -9; } Real getMaxU() const override { return 9; } Real getMinW() const override { return -9; } Real getMaxW() const override { return 9; } };
template <int N> static VectorN<Real, N> pt(Src& s) { VectorN<Real, N> x; for (int i = 0; i < N; i++) x[i] = s.pick({s.uni(-2, 2), (double)s.i(-2, 2), s.uni(-20, 20)}); return x; }
template <int N> static LD tolv(const MF<N>& m, const VectorN<Real, N>& x, int p, int d, LD h, LD ct = 1) { LD r = 0; for (int i = 0; i < N; i++) r = std::max<LD>(r, std::fabs(x[i])); LD rr = r + 6 * h; return ct * (m.bound(p + d, rr) * powl(h, p) + m.bound(p + d + 2, rr) * powl(h, p + 2)) + 20 * EPS * (m.bound(0, rr) + r * m.bound(1, rr)) / powl(h, d) + 8 * EPS * m.bound(d, rr); }
template <int N> static typename MF<N>::Ix ix(int i, int j = -1) { typename MF<N>::Ix k; k.fill(0); k[i]++; if (j >= 0) k[j]++; return k; }
static const int PP[5] = {1, 2, 4, 6, 8}; static double dh(int p) { return p == 1 ? NDer1_h : p == 2 ? NDer2_h : p == 4 ? NDer4_h : p == 6 ? NDer6_h : NDer8_h; }
#define NEAR(v, ex, tol, msg) do { double _v = (v); LD _e = (ex), _t = (tol); if (!(fabsl(_v - _e) <= _t)) pbt::fail(std::string() + msg + ": " + fmt(_v) + " exact " + fmt((double)_e) + " tol " + fmt((double)_t)); } while (0)
#define EACH(p, NAME, ARGS) (p == 1 ? NDer1##NAME ARGS : p == 2 ? NDer2##NAME ARGS : p == 4 ? NDer4##NAME ARGS : p == 6 ? NDer6##NAME ARGS : NDer8##NAME ARGS)
template <int N> static void scalar(Src& s, pbt::Case& c) {
	bool poly = s.b(), defh = s.b(); int p = PP[s.choice(4)]; SF<N> f; f.m = gen<N>(s, poly, poly ? p : 4); auto x = pt<N>(s); double h = poly ? s.uni(0.1, 1.5) : std::pow(10.0, -s.uni(1, 4)); c.say([&](auto& o) { o << f.m.str() << " at " << x << " order " << p << " h " << fmt(h) << " default " << defh; });
	VectorN<Real, N> ev, g = defh ? EACH(p, PartialByAll, (f, x, &ev)) : EACH(p, PartialByAll, (f, x, h, &ev)), g2 = defh ? EACH(p, PartialByAll, (f, x)) : EACH(p, PartialByAll, (f, x, h));
	for (int i = 0; i < N; i++) { double e = -1, hh = defh ? ScaleStep(dh(p), x[i]) : h, v = defh ? EACH(p, Partial, (f, i, x, &e)) : EACH(p, Partial, (f, i, x, h, &e)); LD tl = tolv(f.m, x, p, 1, hh); NEAR(v, f.m.d(ix<N>(i), x), tl, "partial " + std::to_string(i)); NEAR(g[i], f.m.d(ix<N>(i), x), tl, "gradient component " + std::to_string(i)); CHECK(g2[i] == g[i], "gradient with and without error"); CHECK(e >= 0 && std::isfinite(e) && e <= 50 * tl + 1e-300, "error estimate " << e << " tolerance " << (double)tl); CHECK(std::fabs(ev[i] - e) <= 1e-6 * e + 50 * tl, "gradient error component " << ev[i] << " vs " << e); }
	if (!poly || p >= 3) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double e = -1; int q = s.b() ? 2 : 4; double hd = (q == 2 ? NDer2_h : NDer4_h) * std::max(1.0, std::max(std::fabs(x[i]), std::fabs(x[j]))), hh = defh ? hd : h; MF<N>& m = f.m; double v = q == 2 ? (defh ? NSecDer2Partial(f, i, j, x, &e) : NSecDer2Partial(f, i, j, x, h, &e)) : (defh ? NSecDer4Partial(f, i, j, x, &e) : NSecDer4Partial(f, i, j, x, h, &e)), v0 = q == 2 ? (defh ? NSecDer2Partial(f, j, i, x) : NSecDer2Partial(f, j, i, x, h)) : (defh ? NSecDer4Partial(f, j, i, x) : NSecDer4Partial(f, j, i, x, h));
		LD tl = tolv(m, x, q, 2, hh); NEAR(v, m.d(ix<N>(i, j), x), tl, "second partial " + std::to_string(i) + std::to_string(j) + " order " + std::to_string(q)); NEAR(v0, v, tl, "symmetry of second partials"); CHECK(e >= 0 && std::isfinite(e) && e <= 60 * tl, "second error estimate " << e << " tol " << (double)tl); }
	c.nontrivial(f.m.bound(1, 1) > 0); }
LAW(scalar_field, 700, 5000) { if (s.b()) scalar<3>(s, c); else if (s.b()) scalar<2>(s, c); else scalar<4>(s, c); }
LAW(vector_field, 400, 3000) { constexpr int N = 3;
	bool poly = s.b(), defh = s.b(); int p = PP[s.choice(4)]; VF<N> f; for (auto& m : f.m) m = gen<N>(s, poly, poly ? p : 4); auto x = pt<N>(s); double h = poly ? s.uni(0.1, 1.5) : std::pow(10.0, -s.uni(1, 4)); c.say([&](auto& o) { for (auto& m : f.m) o << "(" << m.str() << ") "; o << " at " << x << " order " << p << " h " << fmt(h) << " default " << defh; });
	MatrixNM<Real, N, N> E, J = defh ? EACH(p, PartialAllByAll, (f, x, &E)) : EACH(p, PartialAllByAll, (f, x, h, &E));
	for (int a = 0; a < N; a++) { VectorN<Real, N> ev, g = defh ? EACH(p, PartialByAll, (f, a, x, &ev)) : EACH(p, PartialByAll, (f, a, x, h, &ev)); for (int i = 0; i < N; i++) { double e = -1, hh = defh ? ScaleStep(dh(p), x[i]) : h, v = defh ? EACH(p, Partial, (f, a, i, x, &e)) : EACH(p, Partial, (f, a, i, x, h, &e)); LD ex = f.m[a].d(ix<N>(i), x), tl = tolv(f.m[a], x, p, 1, hh); std::string w = std::to_string(a) + std::to_string(i); NEAR(v, ex, tl, "partial " + w); NEAR(g[i], ex, tl, "ByAll " + w); NEAR(J(a, i), ex, tl, "AllByAll " + w); CHECK(e >= 0 && e <= 50 * tl + 1e-300, "error estimate " << e); CHECK(ev[i] >= 0 && std::fabs(ev[i] - e) <= 50 * tl && std::fabs(E(a, i) - e) <= 50 * tl, "error matrices"); } }
	auto K = calcJacobian(f, x); for (int a = 0; a < N; a++) for (int i = 0; i < N; i++) NEAR(K(a, i), f.m[a].d(ix<N>(i), x), tolv(f.m[a], x, 4, 1, ScaleStep(NDer4_h, x[i])), "calcJacobian " + std::to_string(a) + std::to_string(i)); c.nontrivial(f.m[0].bound(1, 1) > 0 || f.m[1].bound(1, 1) > 0); }
LAW(jacobians, 400, 3000) {
	VNM<3, 2> f; VNM<2, 4> g; for (auto& m : f.m) m = gen<3>(s, s.b(), 4); for (auto& m : g.m) m = gen<2>(s, s.b(), 4); auto x = pt<3>(s); auto y = pt<2>(s); c.say([&](auto& o) { for (auto& m : f.m) o << "(" << m.str() << ") "; for (auto& m : g.m) o << "(" << m.str() << ") "; o << x << y; });
	auto J = calcJacobian(f, x); auto K = calcJacobian(g, y); for (int a = 0; a < 2; a++) for (int i = 0; i < 3; i++) NEAR(J(a, i), f.m[a].d(ix<3>(i), x), tolv(f.m[a], x, 4, 1, ScaleStep(NDer4_h, x[i])), "2x3 Jacobian"); for (int a = 0; a < 4; a++) for (int i = 0; i < 2; i++) NEAR(K(a, i), g.m[a].d(ix<2>(i), y), tolv(g.m[a], y, 4, 1, ScaleStep(NDer4_h, y[i])), "4x2 Jacobian");
	MF<3> m[4]; for (auto& q : m) q = gen<3>(s, s.b(), 3); auto vn = [](const Vector<Real>& v) { VectorN<Real, 3> r; for (int i = 0; i < 3; i++) r[i] = v[i]; return r; };
	int M = 3; std::function<Vector<Real>(const Vector<Real>&)> F = [&](const Vector<Real>& v) { Vector<Real> r(M); for (int i = 0; i < M; i++) r[i] = (double)m[i].d({}, vn(v)); return r; }; Vector<Real> X(3); for (int i = 0; i < 3; i++) X[i] = x[i]; double h = s.b() ? 0 : std::pow(10.0, -s.uni(1, 4));
	auto cmp = [&](const Matrix<Real>& A, int rows, int p, bool scaled, double d0, const char* nm) { CHECK(A.rows() == rows && A.cols() == 3, nm << " shape " << A.rows() << "x" << A.cols()); double hh = h ? h : d0; for (int a = 0; a < rows; a++) for (int i = 0; i < 3; i++) NEAR(A(a, i), m[a].d(ix<3>(i), x), tolv(m[a], x, p, 1, scaled ? ScaleStep(hh, x[i]) : hh), nm + std::string(" ") + std::to_string(a) + std::to_string(i)); };
	double d4 = std::pow(EPS, 0.2), d2 = std::pow(EPS, 1.0 / 3), d1 = std::sqrt(EPS); cmp(h ? calcJacobianDyn(F, X, h) : calcJacobianDyn(F, X), 3, 4, false, d4, "calcJacobianDyn"); Matrix<Real> P(s.i(1, 4), s.i(1, 4)); calcJacobianDynInPlace(F, X, P, h); cmp(P, 3, 4, false, d4, "InPlace"); cmp(calcJacobianDyn2(F, X, h), 3, 2, false, d2, "Dyn2"); calcJacobianMap(F, X, P, h); cmp(P, 3, 2, true, d1, "Map");
	double tt = s.uni(-5, 5), seen = 1e9; auto ode = [&](Real t, const Vector<Real>& v, Vector<Real>& o) { seen = t; for (int i = 0; i < 3; i++) o[i] = (double)m[i].d({}, vn(v)); }; cmp(calcJacobianODE(ode, tt, X, h), 3, 2, true, d1, "ODE"); CHECK(seen == tt, "time passed " << seen);
	M = 4; cmp(calcJacobianDyn(F, X, 4, h), 4, 4, false, d4, "Dyn 4x3"); M = 2; cmp(calcJacobianDyn(F, X, 2, h), 2, 4, false, d4, "Dyn 2x3"); c.nontrivial(true); }
LAW(curve, 500, 4000) {
	bool poly = s.b(), defh = s.b(); int p = PP[s.choice(4)]; Cv f; for (auto& m : f.m) m = gen<1>(s, poly, poly ? p : 5); double t = s.uni(-3, 3), h = poly ? s.uni(0.1, 1.5) : std::pow(10.0, -s.uni(1, 3.5)); VectorN<Real, 1> x{t}; c.say([&](auto& o) { for (auto& m : f.m) o << "(" << m.str() << ") "; o << " at " << fmt(t) << " order " << p << " h " << fmt(h) << " default " << defh; });
	double e = -1; auto v = defh ? EACH(p, , (f, t, &e)) : EACH(p, , (f, t, h, &e)); double hh = defh ? ScaleStep(dh(p), t) : h; LD T = 0; for (int a = 0; a < 3; a++) { LD tl = tolv(f.m[a], x, p, 1, hh); T += tl; NEAR(v[a], f.m[a].d({1}, x), tl, "derivative component " + std::to_string(a)); } CHECK(e >= 0 && e <= 60 * T + 1e-300, "error estimate " << e << " tol " << (double)T);
	int q = s.b() ? 2 : 4; auto w = q == 2 ? (defh ? NSecDer2(f, t, &e) : NSecDer2(f, t, h, &e)) : (defh ? NSecDer4(f, t, &e) : NSecDer4(f, t, h, &e)); hh = defh ? ScaleStep(q == 2 ? NDer2_h : NDer4_h, t) : h; for (int a = 0; a < 3; a++) NEAR(w[a], f.m[a].d({2}, x), tolv(f.m[a], x, q, 2, hh), "second derivative " + std::to_string(a)); CHECK(e >= 0 && e <= 60 * (tolv(f.m[0], x, q, 2, hh) + tolv(f.m[1], x, q, 2, hh) + tolv(f.m[2], x, q, 2, hh)), "second derivative error estimate " << e);
	auto z = q == 2 ? (defh ? NThirdDer2(f, t, &e) : NThirdDer2(f, t, h, &e)) : (defh ? NThirdDer4(f, t, &e) : NThirdDer4(f, t, h, &e)); hh = defh ? ScaleStep(NDer2_h, t) : h; if (defh) hh = 0; else CHECK(e >= 0 && e <= 60 * (tolv(f.m[0], x, q, 3, hh) + tolv(f.m[1], x, q, 3, hh) + tolv(f.m[2], x, q, 3, hh)), "third derivative error estimate " << e); for (int a = 0; a < 3; a++) { LD tl = hh ? tolv(f.m[a], x, q, 3, hh) : std::max(tolv(f.m[a], x, q, 3, ScaleStep(NDer2_h, t)), tolv(f.m[a], x, q, 3, ScaleStep(NDer4_h, t))); NEAR(z[a], f.m[a].d({3}, x), tl, "third derivative " + std::to_string(a)); } CHECK(e >= 0, "third error"); c.nontrivial(true); }
LAW(surface, 500, 4000) {
	bool poly = s.b(), defh = s.b(); Sfc f; for (auto& m : f.m) m = gen<2>(s, poly, poly ? 2 : 4); double u = s.uni(-3, 3), w = s.uni(-8, 8), h = poly ? s.uni(0.1, 1.5) : std::pow(10.0, -s.uni(1, 3.5)), h2 = h * s.uni(0.5, 2), e; VectorN<Real, 2> x{u, w}; c.say([&](auto& o) { for (auto& m : f.m) o << "(" << m.str() << ") "; o << " at " << x << " h " << fmt(h) << " default " << defh; });
	auto cmp = [&](const VectorN<Real, 3>& v, MF<2>::Ix k, int p, double hh, const char* nm) { for (int a = 0; a < 3; a++) { LD tl = tolv(f.m[a], x, p, k[0] + k[1], hh, k[0] + k[1] == 2 ? 2 : 1); NEAR(v[a], f.m[a].d(k, x), tl, nm + std::string(" component ") + std::to_string(a)); } CHECK(e >= 0 && std::isfinite(e), nm << " error estimate " << e); };
	double hu1 = defh ? ScaleStep(NDer1_h, u) : h, hw1 = defh ? ScaleStep(NDer1_h, w) : h, hu = defh ? ScaleStep(NDer2_h, u) : h, hw = defh ? ScaleStep(NDer2_h, w) : h;
	cmp(defh ? NDer1_u(f, u, w, &e) : NDer1_u(f, u, w, h, &e), {1, 0}, 1, hu1, "u"); cmp(defh ? NDer1_w(f, u, w, &e) : NDer1_w(f, u, w, h, &e), {0, 1}, 1, hw1, "w"); cmp(defh ? NDer2_u(f, u, w, &e) : NDer2_u(f, u, w, h, &e), {1, 0}, 2, hu, "u2"); cmp(defh ? NDer2_w(f, u, w, &e) : NDer2_w(f, u, w, h, &e), {0, 1}, 2, hw, "w2");
	cmp(defh ? NDer2_uu(f, u, w, &e) : NDer2_uu(f, u, w, h, &e), {2, 0}, 2, hu, "uu"); cmp(defh ? NDer2_ww(f, u, w, &e) : NDer2_ww(f, u, w, h, &e), {0, 2}, 2, hw, "ww");
	if (defh) { auto v = NDer2_uw(f, u, w, &e); for (int a = 0; a < 3; a++) NEAR(v[a], f.m[a].d({1, 1}, x), std::max(tolv(f.m[a], x, 2, 2, hu, 2), tolv(f.m[a], x, 2, 2, hw, 2)) + tolv(f.m[a], x, 2, 2, std::sqrt(hu * hw), 2), "uw"); } else { auto v = NDer2_uw(f, u, w, h, h2, &e); for (int a = 0; a < 3; a++) NEAR(v[a], f.m[a].d({1, 1}, x), tolv(f.m[a], x, 2, 2, h, 2) + tolv(f.m[a], x, 2, 2, h2, 2), "uw h h2"); cmp(NDer2_uw(f, u, w, h, &e), {1, 1}, 2, h, "uw h"); } c.nontrivial(true); }
template <int N, int R> struct Idx { int k[4]; };
struct T2 : ITensorField2<3> { MF<3>* m; T2(MF<3>* q) : ITensorField2<3>(1, 1), m(q) {} Real Component(int i, int j, const VectorN<Real, 3>& x) const override { return (double)m[i * 3 + j].d({}, x); } Tensor2<3> operator()(const VectorN<Real, 3>& x) const override { Tensor2<3> t(1, 1); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t(i, j) = Component(i, j, x); return t; } };
struct T3 : ITensorField3<2> { MF<2>* m; T3(MF<2>* q) : ITensorField3<2>(1, 2), m(q) {} Real Component(int i, int j, int k, const VectorN<Real, 2>& x) const override { return (double)m[i * 4 + j * 2 + k].d({}, x); } Tensor3<2> operator()(const VectorN<Real, 2>&) const override { return Tensor3<2>(1, 2); } };
struct T4 : ITensorField4<2> { MF<2>* m; T4(MF<2>* q) : ITensorField4<2>(2, 2), m(q) {} Real Component(int i, int j, int k, int l, const VectorN<Real, 2>& x) const override { return (double)m[i * 8 + j * 4 + k * 2 + l].d({}, x); } Tensor4<2> operator()(const VectorN<Real, 2>&) const override { return Tensor4<2>(2, 2); } };
#define EACH3(p, ARGS) (p == 1 ? NDer1Partial ARGS : p == 2 ? NDer2Partial ARGS : NDer4Partial ARGS)
LAW(tensor_field, 300, 2000) {
	bool poly = s.b(), defh = s.b(); int p = PP[s.choice(2)]; MF<3> m[9]; MF<2> q[16]; for (auto& a : m) a = gen<3>(s, poly, poly ? p : 4); for (auto& a : q) a = gen<2>(s, poly, poly ? p : 4); auto x = pt<3>(s); auto y = pt<2>(s); double h = poly ? s.uni(0.1, 1.5) : std::pow(10.0, -s.uni(1, 4)), e; T2 A(m); T3 B(q); T4 C(q); c.say([&](auto& o) { o << "order " << p << " at " << x << y << " default " << defh << " h " << h << " fields " << m[0].str() << " ..."; });
	for (int d = 0; d < 3; d++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double v = defh ? EACH3(p, (A, i, j, d, x, &e)) : EACH3(p, (A, i, j, d, x, h, &e)); double hh = defh ? ScaleStep(dh(p), x[d]) : h; LD tl = tolv(m[i * 3 + j], x, p, 1, hh); NEAR(v, m[i * 3 + j].d(ix<3>(d), x), tl, "rank 2"); CHECK(e >= 0 && e <= 50 * tl + 1e-300, "error estimate"); }
	for (int d = 0; d < 2; d++) for (int i = 0; i < 16; i++) { int a = i >> 3, b = i >> 2 & 1, g = i >> 1 & 1, l = i & 1; double hh = defh ? ScaleStep(dh(p), y[d]) : h; double v = defh ? EACH3(p, (C, a, b, g, l, d, y, &e)) : EACH3(p, (C, a, b, g, l, d, y, h, &e)); NEAR(v, q[i].d(ix<2>(d), y), tolv(q[i], y, p, 1, hh), "rank 4"); CHECK(e >= 0, "err"); if (i < 8) { v = defh ? EACH3(p, (B, b, g, l, d, y, &e)) : EACH3(p, (B, b, g, l, d, y, h, &e)); NEAR(v, q[i].d(ix<2>(d), y), tolv(q[i], y, p, 1, hh), "rank 3"); CHECK(e >= 0, "err"); } } c.nontrivial(true); }
// forward AD: random expression trees evaluated with dual numbers against a complex-free long double derivative propagated independently
struct Node { int op; double k; int a, b; };
template <class T> static T ev(const std::vector<Node>& t, int i, const std::vector<T>& x) { using std::sin; using std::cos; using std::exp; using std::log; using std::sqrt; using std::pow; using std::atan; using std::tanh; using std::sinh; using std::cosh; using std::tan; using std::asin; using std::acos; using std::abs; using std::log10; using std::atan2; const Node& n = t[i]; auto A = [&] { return ev(t, n.a, x); }; auto B = [&] { return ev(t, n.b, x); };
	switch (n.op) { case 0: return x[n.a % x.size()]; case 1: return T(n.k) ; case 2: return A() + B(); case 3: return A() - B(); case 4: return A() * B(); case 5: return A() / (B() * B() + 0.5); case 6: return -A(); case 7: return sin(A()); case 8: return cos(A()); case 9: return exp(tanh(A())); case 10: return log(A() * A() + 1.25); case 11: return sqrt(A() * A() + 0.5); case 12: return atan(A()); case 13: return tanh(A()); case 14: return sinh(sin(A())); case 15: return cosh(cos(A())); case 16: return tan(atan(A()) * 0.5); case 17: return asin(tanh(A()) * 0.9); case 18: return acos(sin(A()) * 0.8); case 19: return log10(A() * A() + 2); case 20: return pow(A() * A() + 0.5, n.k); case 21: return pow(A() * A() + 0.7, sin(B())); case 22: return pow(1.5, tanh(A())); case 23: return atan2(A(), B() * B() + 1.0); case 24: return n.k * A() - 2 ; case 25: return 3 - A() * n.k; case 26: { T r = A(); r += B(); r *= A(); r -= B(); r /= (B() * B() + 1.5); return r; } case 27: return abs(A() + 0.001); default: return 1.0 / (A() * A() + 2.0) + A() / 2.0; } }
LAW(forward_ad, 1500, 12000) {
	int n = s.size(1, 12), nv = s.i(1, 3); std::vector<Node> t; for (int i = 0; i < n + nv; i++) { Node d; d.op = i < nv ? 0 : s.i(1, 28); d.k = s.uni(-2, 2); d.a = i < nv ? i : s.i(0, i - 1); d.b = i < nv ? 0 : s.i(0, i - 1); if (i >= nv && s.chance(1, 2)) d.a = i - 1; t.push_back(d); } std::vector<double> x(nv); for (auto& v : x) v = s.uni(-2, 2); int top = n + nv - 1; c.say([&](auto& o) { o << "vars"; for (double v : x) o << " " << fmt(v); o << " tree"; for (auto& d : t) o << " (" << d.op << " " << d.k << " " << d.a << " " << d.b << ")"; });
	auto F = [&](const std::vector<Symbolic::Dual<LD>>& v) { return ev(t, top, v); }; (void)F; std::function<LD(const std::vector<LD>&)> plain = [&](const std::vector<LD>& v) { return ev(t, top, v); };
	std::vector<LD> xl(x.begin(), x.end()); LD v0 = plain(xl); auto g = Symbolic::gradient([&](const std::vector<Symbolic::Dual<double>>& v) { return ev(t, top, v); }, x); CHECK((int)g.size() == nv, "gradient size"); double sc = std::fabs((double)v0); bool any = false; if (!std::isfinite(sc) || sc > 1e8) { c.label("skipped large"); return; }
	for (int i = 0; i < nv; i++) { // extrapolated central difference in long double
		auto at = [&](LD d) { auto y = xl; y[i] += d; return plain(y); }; LD T[7][7]; for (int a = 0; a < 7; a++) { LD h = 0.02L / (1 << a); T[a][0] = (at(h) - at(-h)) / (2 * h); LD f = 4; for (int b = 1; b <= a; b++, f *= 4) T[a][b] = (T[a][b - 1] * f - T[a - 1][b - 1]) / (f - 1); } LD ref = T[6][6], un = fabsl(T[6][6] - T[5][5]) + fabsl(T[6][6] - T[6][5]); if (!(un < 1e-7L * (fabsl(ref) + 1))) { c.label("reference unresolved"); continue; }
		any |= fabsl(ref) > 1e-6; NEAR(g[i], ref, 30 * un + 1e-11L * (fabsl(ref) + sc + 1) , "dual derivative d/dx" + std::to_string(i)); }
	if (nv == 1) { auto pr = Symbolic::derivative([&](const Symbolic::Dual<double>& v) { return ev(t, top, std::vector<Symbolic::Dual<double>>{v}); }, x[0]); CHECK(std::fabs(pr.first - (double)v0) <= 1e-10 * (sc + 1) && pr.second == g[0], "derivative()"); }
	c.nontrivial(any); }
