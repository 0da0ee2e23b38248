// C50: field analysis and field-line tracing on polynomial fields with exact derivatives
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Function.h"
#include "base/Vector/VectorN.h"
#include "core/Derivation.h"
#include "core/FieldOperations.h"
#include "algorithms/FieldAnalyzers.h"
#include "algorithms/FieldLineTracer.h"
struct Mono { double c; int e[3]; };
struct Poly { std::vector<Mono> t;
  LD at(const LD* x) const { LD r = 0; for (auto& m : t) { LD v = m.c; for (int d = 0; d < 3; d++) for (int k = 0; k < m.e[d]; k++) v *= x[d]; r += v; } return r; }
  LD mag(const LD* x) const { LD r = 0; for (auto& m : t) { LD v = std::fabs(m.c); for (int d = 0; d < 3; d++) for (int k = 0; k < m.e[d]; k++) v *= 1 + fabsl(x[d]); r += v; } return r; }
  Poly d(int a) const { Poly r; for (auto m : t) if (m.e[a] > 0) { m.c *= m.e[a]; m.e[a]--; r.t.push_back(m); } return r; }
  Poly operator+(const Poly& o) const { Poly r = *this; r.t.insert(r.t.end(), o.t.begin(), o.t.end()); return r; }
  Poly operator*(double k) const { Poly r = *this; for (auto& m : r.t) m.c *= k; return r; }
  std::string str() const { std::ostringstream o; for (auto& m : t) o << " " << fmt(m.c) << "x" << m.e[0] << "y" << m.e[1] << "z" << m.e[2]; return o.str(); } };
static Poly genPoly(Src& s, int dg, int dims = 3) { Poly p; int n = (int)s.i(1, 5); for (int i = 0; i < n; i++) { Mono m; m.c = (double)s.i(-5, 5) * (s.chance(1, 4) ? 0.37 : 1.0); int left = (int)s.i(0, dg); for (int d = 0; d < 3; d++) { m.e[d] = d < dims ? (int)s.i(0, left) : 0; left -= m.e[d]; } p.t.push_back(m); } return p; }
struct SF : IScalarFunction<3> { Poly p; SF(const Poly& q) : p(q) {} Real operator()(const VectorN<Real, 3>& x) const override { LD v[3] = {x[0], x[1], x[2]}; return (Real)p.at(v); } };
struct VF3 : IVectorFunction<3> { Poly p[3]; VectorN<Real, 3> operator()(const VectorN<Real, 3>& x) const override { LD v[3] = {x[0], x[1], x[2]}; VectorN<Real, 3> r; for (int i = 0; i < 3; i++) r[i] = (Real)p[i].at(v); return r; } };
static void lv(const Vec3Cart& p, LD* x) { x[0] = p.X(); x[1] = p.Y(); x[2] = p.Z(); }
static Poly lap(const Poly& p) { return p.d(0).d(0) + p.d(1).d(1) + p.d(2).d(2); }
static Poly harmonic(Src& s) { static const std::vector<std::vector<Mono>> H = {{{1, {1, 0, 0}}}, {{1, {0, 1, 1}}}, {{1, {2, 0, 0}}, {-1, {0, 2, 0}}}, {{2, {0, 0, 2}}, {-1, {2, 0, 0}}, {-1, {0, 2, 0}}}, {{1, {3, 0, 0}}, {-3, {1, 2, 0}}}, {{1, {1, 1, 1}}}, {{2, {0, 0, 3}}, {-3, {2, 0, 1}}, {-3, {0, 2, 1}}}, {{1, {1, 0, 2}}, {-1, {1, 2, 0}}}};
  Poly p; int n = (int)s.i(1, 4); for (int i = 0; i < n; i++) { Poly q; q.t = H[s.choice(H.size() - 1)]; p = p + q * (double)s.i(-3, 3); } return p; }
struct Grid { Vec3Cart lo, hi; int n; template <class F> void each(F f) const { for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) for (int k = 0; k <= n; k++) { LD x[3] = {(LD)lo.X() + (LD)(hi.X() - lo.X()) * i / n, (LD)lo.Y() + (LD)(hi.Y() - lo.Y()) * j / n, (LD)lo.Z() + (LD)(hi.Z() - lo.Z()) * k / n}; f(x); } } };
static Grid genGrid(Src& s, int nmax) { Grid g; int n = (int)s.i(1, nmax); g.n = n; double a[3]; int w[3]; for (int i = 0; i < 3; i++) { a[i] = (double)s.i(-2, 1); w[i] = (int)s.i(1, 2) * n; } double h = s.pick({0.25, 0.5, 1.0}); while (h * n > 4) h /= 2; g.lo = Vec3Cart(a[0], a[1], a[2]); g.hi = Vec3Cart(a[0] + h * w[0], a[1] + h * w[1], a[2] + h * w[2]); return g; }
// verdict of "every sample below tol" from exact values: 1 yes, 0 no, -1 undecided
template <class F> static int verdict(const Grid& g, double tol, F val) { int r = 1; g.each([&](const LD* x) { LD v = val(x); if (v > 3 * tol) { r = 0; } else if (v > tol / 3 && r == 1) r = -1; }); return r; }

LAW(scalar_fields, 3000, 60000) {
  bool hm = s.b(); Poly p = hm ? harmonic(s) : genPoly(s, 4); SF f(p); ScalarFieldAnalyzer A(f); Vec3Cart q((double)s.i(-8, 8) / 4, (double)s.i(-8, 8) / 4, (double)s.i(-8, 8) / 4); Grid g = genGrid(s, 4); double tol = s.pick({1e-2, 1e-3}); c.nontrivial(p.t.size() > 1); c.label(hm ? "harmonic" : "general");
  c.say([&](auto& o) { o << p.str() << " at " << fmt(q.X()) << " " << fmt(q.Y()) << " " << fmt(q.Z()) << " grid " << g.n << " from " << fmt(g.lo.X()) << "," << fmt(g.lo.Y()) << "," << fmt(g.lo.Z()) << " to " << fmt(g.hi.X()) << "," << fmt(g.hi.Y()) << "," << fmt(g.hi.Z()); });
  LD x[3]; lv(q, x); LD m = 1 + p.mag(x), gr[3], gn = 0; for (int i = 0; i < 3; i++) { gr[i] = p.d(i).at(x); gn += gr[i] * gr[i]; } gn = sqrtl(gn); Vec3Cart G = A.GradientAt(q);
  CHECK_NEAR((LD)G.X(), gr[0], 1e-8L * m, "d/dx"); CHECK_NEAR((LD)G.Y(), gr[1], 1e-8L * m, "d/dy"); CHECK_NEAR((LD)G.Z(), gr[2], 1e-8L * m, "d/dz");
  CHECK_NEAR((LD)A.LaplacianAt(q), lap(p).at(x), 2e-5L * m, "Laplacian"); if (gn < 1e-4L) CHECK(A.IsCriticalPoint(q, 1e-3), "critical point not recognised"); if (gn > 1e-2L) CHECK(!A.IsCriticalPoint(q, 1e-3), "regular point reported critical");
  LD big = 0; g.each([&](const LD* y) { big = std::max(big, p.mag(y)); }); DISCARD_IF(2e-5L * big > tol / 3); Poly L = lap(p); int v = verdict(g, tol, [&](const LD* y) { return fabsl(L.at(y)); }); if (v >= 0) CHECK((int)A.IsHarmonic(g.lo, g.hi, g.n, tol) == v, "harmonic on the box: expected " << v); if (hm) CHECK(A.IsHarmonic(g.lo, g.hi, g.n, tol), "harmonic polynomial rejected");
  auto C = A.FindCriticalPoints(g.lo, g.hi, g.n, 1e-3); size_t sure = 0, maybe = 0; g.each([&](const LD* y) { LD n2 = 0; for (int i = 0; i < 3; i++) { LD d = p.d(i).at(y); n2 += d * d; } n2 = sqrtl(n2); bool in = false; for (auto& w : C) if (fabsl(w.X() - y[0]) + fabsl(w.Y() - y[1]) + fabsl(w.Z() - y[2]) < 1e-9L) in = true; if (n2 < 1e-4L) { sure++; CHECK(in, "critical sample missing"); } else if (n2 > 1e-2L) CHECK(!in, "regular sample listed as critical"); else maybe += in; });
  CHECK(C.size() <= sure + maybe && C.size() >= sure, C.size() << " critical points listed, expected " << sure); }

LAW(vector_fields, 3000, 60000) {
  VF3 F; int kind = (int)s.i(0, 2); Poly a[3]; if (kind == 0) { Poly P = genPoly(s, 4); for (int i = 0; i < 3; i++) F.p[i] = P.d(i); } else if (kind == 1) { for (auto& q : a) q = genPoly(s, 3); for (int i = 0; i < 3; i++) F.p[i] = a[(i + 2) % 3].d((i + 1) % 3) + a[(i + 1) % 3].d((i + 2) % 3) * -1; } else for (int i = 0; i < 3; i++) F.p[i] = genPoly(s, 3);
  VectorFieldAnalyzer A(F); Vec3Cart q((double)s.i(-8, 8) / 4, (double)s.i(-8, 8) / 4, (double)s.i(-8, 8) / 4); Grid g = genGrid(s, 4); double tol = s.pick({1e-2, 1e-4}); c.nontrivial(true); c.label(kind == 0 ? "gradient" : kind == 1 ? "curl" : "general");
  c.say([&](auto& o) { o << "F = (" << F.p[0].str() << " |" << F.p[1].str() << " |" << F.p[2].str() << ") at " << fmt(q.X()) << " " << fmt(q.Y()) << " " << fmt(q.Z()) << " grid " << g.n; });
  LD x[3]; lv(q, x); LD m = 1 + F.p[0].mag(x) + F.p[1].mag(x) + F.p[2].mag(x); Poly D = F.p[0].d(0) + F.p[1].d(1) + F.p[2].d(2), K[3]; for (int i = 0; i < 3; i++) K[i] = F.p[(i + 2) % 3].d((i + 1) % 3) + F.p[(i + 1) % 3].d((i + 2) % 3) * -1;
  CHECK_NEAR((LD)A.DivergenceAt(q), D.at(x), 1e-8L * m, "divergence"); Vec3Cart C = A.CurlAt(q); LD cv[3] = {C.X(), C.Y(), C.Z()}; for (int i = 0; i < 3; i++) CHECK_NEAR(cv[i], K[i].at(x), 1e-8L * m, "curl component " << i);
  auto kn = [&](const LD* y) { LD r = 0; for (auto& k : K) { LD v = k.at(y); r += v * v; } return sqrtl(r); }; auto dn = [&](const LD* y) { return fabsl(D.at(y)); }; LD big = 0, md = 0, mk = 0; g.each([&](const LD* y) { big = std::max(big, F.p[0].mag(y) + F.p[1].mag(y) + F.p[2].mag(y)); md = std::max(md, dn(y)); mk = std::max(mk, kn(y)); });
  CHECK_NEAR((LD)A.MaxDivergence(g.lo, g.hi, g.n), md, 1e-8L * (1 + big), "largest divergence"); CHECK_NEAR((LD)A.MaxCurlMagnitude(g.lo, g.hi, g.n), mk, 2e-8L * (1 + big), "largest curl"); DISCARD_IF(2e-8L * big > tol / 3);
  int vd = verdict(g, tol, dn), vk = verdict(g, tol, kn); if (vd >= 0) CHECK((int)A.IsSolenoidal(g.lo, g.hi, g.n, tol) == vd, "solenoidal: expected " << vd); if (vk >= 0) { CHECK((int)A.IsIrrotational(g.lo, g.hi, g.n, tol) == vk, "irrotational: expected " << vk); CHECK((int)A.IsConservative(g.lo, g.hi, g.n, tol) == vk, "conservative: expected " << vk); }
  if (dn(x) < tol / 3) CHECK(A.IsSolenoidalAt(q, tol), "zero divergence at the point not recognised"); if (dn(x) > 3 * tol) CHECK(!A.IsSolenoidalAt(q, tol), "divergence at the point missed"); if (kn(x) < tol / 3) CHECK(A.IsIrrotationalAt(q, tol), "zero curl at the point not recognised"); if (kn(x) > 3 * tol) CHECK(!A.IsIrrotationalAt(q, tol), "curl at the point missed"); }

LAW(circulation, 3000, 60000) { VF3 F; bool lin = s.b(); for (auto& p : F.p) p = genPoly(s, lin ? 1 : 3); Vec3Cart ctr(s.uni(-2, 2), s.uni(-2, 2), s.uni(-2, 2)); double nv[3]; for (double& v : nv) v = s.chance(1, 3) ? 0 : s.chance(1, 2) ? (double)s.i(-2, 2) : s.uni(-3, 3); double nn = std::sqrt(nv[0] * nv[0] + nv[1] * nv[1] + nv[2] * nv[2]); DISCARD_IF(nn < 1e-3); double r = s.uni(0.1, 2); int N = lin ? (int)s.i(3, 200) : (int)s.i(100, 400); VectorFieldAnalyzer A(F); c.nontrivial(true); c.label(lin ? "linear" : "cubic");
  c.say([&](auto& o) { o << "F = (" << F.p[0].str() << " |" << F.p[1].str() << " |" << F.p[2].str() << ") normal " << fmt(nv[0]) << "," << fmt(nv[1]) << "," << fmt(nv[2]) << " radius " << fmt(r) << " points " << N; });
  LD n[3] = {nv[0] / (LD)nn, nv[1] / (LD)nn, nv[2] / (LD)nn}, u[3], w[3]; int mi = 0; for (int i = 1; i < 3; i++) if (fabsl(n[i]) < fabsl(n[mi])) mi = i; LD e[3] = {0, 0, 0}; e[mi] = 1; LD un = 0; for (int i = 0; i < 3; i++) { u[i] = e[i] - n[mi] * n[i]; un += u[i] * u[i]; } un = sqrtl(un); for (auto& v : u) v /= un; for (int i = 0; i < 3; i++) w[i] = n[(i + 1) % 3] * u[(i + 2) % 3] - n[(i + 2) % 3] * u[(i + 1) % 3];
  LD cc[3] = {ctr.X(), ctr.Y(), ctr.Z()}, ref = 0, scale = 0; if (lin) { for (int i = 0; i < 3; i++) { LD k = F.p[(i + 2) % 3].d((i + 1) % 3).at(cc) - F.p[(i + 1) % 3].d((i + 2) % 3).at(cc); ref += k * n[i]; } ref *= N / 2.0L * r * r * sinl(2 * acosl(-1.0L) / N); for (auto& p : F.p) scale += p.mag(cc) * (1 + r); scale *= 1e-12L * (1 + r); }
  else { int M = 64; for (int j = 0; j < M; j++) { LD th = 2 * acosl(-1.0L) * j / M, x[3], f = 0; for (int i = 0; i < 3; i++) x[i] = cc[i] + r * (cosl(th) * u[i] + sinl(th) * w[i]); for (int i = 0; i < 3; i++) f += F.p[i].at(x) * r * (cosl(th) * w[i] - sinl(th) * u[i]); ref += f; } ref *= 2 * acosl(-1.0L) / M; for (auto& p : F.p) scale += p.mag(cc) * powl(1 + r, 3); scale *= 7 * r * 10.0L / N / N * 3; }
  CHECK_NEAR((LD)A.CirculationAroundCircle(ctr, Vec3Cart(nv[0], nv[1], nv[2]), r, N), ref, scale + 1e-12L, "circulation"); }

// -------- field lines
template <int N> struct VFN : IVectorFunction<N> { Poly p[N]; double cut = 1e300; // the field vanishes for x > cut
  VectorN<Real, N> operator()(const VectorN<Real, N>& x) const override { LD v[3] = {x[0], x[1], 0}; if (N > 2) v[2] = x[N - 1]; VectorN<Real, N> r; for (int i = 0; i < N; i++) r[i] = x[0] > cut ? 0.0 : (Real)p[i].at(v); return r; } };
template <int N> static bool unit(const VFN<N>& F, const LD* x, LD* o, LD* mag = nullptr) { LD v[3] = {x[0], x[1], N > 2 ? x[N - 1] : 0}, m = 0; for (int i = 0; i < N; i++) { o[i] = x[0] > F.cut ? 0 : F.p[i].at(v); m += o[i] * o[i]; } m = sqrtl(m); if (mag) *mag = m; if (m < 1e-12L) return false; for (int i = 0; i < N; i++) o[i] /= m; return true; }
static bool g_turn; // the direction turned sharply within the last step
// advance along the unit field with M small RK4 steps; minimum magnitude seen is returned
template <int N> static LD advance(const VFN<N>& F, LD* x, LD ds, int M) { LD mn = 1e300L, h = ds / M, f0[3]; bool first = true; g_turn = false; for (int k = 0; k < M; k++) { LD k1[3], k2[3], k3[3], k4[3], y[3], m; auto st = [&](LD a, LD* kk, LD* out) { for (int i = 0; i < N; i++) y[i] = x[i] + (kk ? a * kk[i] : 0); bool ok = unit(F, y, out, &m); mn = std::min(mn, m); if (first) { for (int i = 0; i < N; i++) f0[i] = out[i]; first = false; } else { LD dot = 0; for (int i = 0; i < N; i++) dot += f0[i] * out[i]; if (dot < 0.8L) g_turn = true; } return ok; }; if (!st(0, nullptr, k1) || !st(h / 2, k1, k2) || !st(h / 2, k2, k3) || !st(h, k3, k4)) return 0; for (int i = 0; i < N; i++) x[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]); } return mn; }
template <int N> static void tracing(Src& s, pbt::Case& c) {
  VFN<N> F; int kind = (int)s.i(0, 2); Poly H; if (kind == 0 || N == 3) for (int i = 0; i < N; i++) F.p[i] = genPoly(s, 2, N); else { H = genPoly(s, 3, 2); F.p[0] = H.d(1); F.p[1] = H.d(0) * -1; }
  bool zero = s.chance(1, 5); if (zero) F.cut = s.uni(-0.5, 1.5);
  typename FieldLineTracer<N>::Config cfg; cfg.stepSize = s.pick({0.01, 0.02, 0.05}); cfg.maxLength = s.chance(1, 2) ? s.uni(0.2, 4) : 100; cfg.maxPoints = (int)(s.chance(1, 3) ? s.i(1, 60) : s.i(100, 300)); int dir = (int)s.i(0, 2); cfg.traceForward = dir != 1; cfg.traceBackward = dir >= 1;
  BoundingBox<N> B; VectorN<Real, N> x0; for (int i = 0; i < N; i++) { B.minCorner[i] = -s.uni(0.5, 2); B.maxCorner[i] = s.uni(0.5, 2); x0[i] = s.chance(1, 12) ? 2.5 : s.chance(1, 3) ? (double)s.i(-1, 1) * 0.5 : s.uni(-0.5, 0.5); }
  bool inside = true; for (int i = 0; i < N; i++) inside = inside && x0[i] >= B.minCorner[i] && x0[i] <= B.maxCorner[i]; double ds = cfg.stepSize;
  c.say([&](auto& o) { o << "F ="; for (int i = 0; i < N; i++) o << " |" << F.p[i].str(); o << " zero beyond x=" << fmt(F.cut) << " step " << ds << " length " << fmt(cfg.maxLength) << " points " << cfg.maxPoints << " direction " << dir << " start"; for (int i = 0; i < N; i++) o << " " << fmt(x0[i]); o << " box"; for (int i = 0; i < N; i++) o << " " << fmt(B.minCorner[i]) << ".." << fmt(B.maxCorner[i]); });
  FieldLineTracer<N> T(cfg); FieldLine<N> L = T.Trace(F, x0, B); CHECK(L.size() == L.points.size() && L.empty() == L.points.empty(), "size and empty"); if (!inside) { CHECK(L.empty() && L.totalLength == 0, "line of " << L.size() << " points from a start outside the bounds"); c.nontrivial(false); return; }
  bool twice = false; size_t at = L.size(); for (size_t i = 0; i < L.size(); i++) { bool eq = true; for (int d = 0; d < N; d++) { CHECK(L.points[i][d] >= B.minCorner[d] && L.points[i][d] <= B.maxCorner[d], "point " << i << " outside the bounds"); eq = eq && L.points[i][d] == x0[d]; } if (eq) { if (at == L.size()) at = i; else if (i == at + 1) twice = true; } }
  // a start within a step of a zero the field reverses at: the discrete line may hop back onto it
  { bool degen = false; for (double sg : {ds, -ds}) { LD z[3] = {0, 0, 0}, w = 0; for (int d = 0; d < N; d++) z[d] = x0[d]; LD m = advance(F, z, sg, 1); bool g1 = g_turn; for (int d = 0; d < N; d++) z[d] = x0[d]; advance(F, z, sg * 2, 8); if (g1 || g_turn) degen = true; (void)m; (void)w; } if (degen) { c.label("reversal at the start"); CHECK(at < L.size(), "start missing from the line"); return; } }
  CHECK(!twice, "start listed twice"); CHECK(at < L.size(), "start missing from the line"); size_t nb = dir == 0 ? 0 : dir == 1 ? L.size() - 1 : at, nf = L.size() - 1 - nb; if (dir == 0) CHECK(at == 0, "forward line does not begin at the start"); if (dir == 1) CHECK(at == L.size() - 1, "backward line does not end at the start"); c.nontrivial(L.size() > 5); c.label(zero ? "vanishing" : "regular");
  CHECK_NEAR((double)L.totalLength, ds * (nb + nf), 1e-10 * (1 + ds * (nb + nf)), "length for " << nb + nf << " steps");
  // every step follows the unit field (an accurate integration of the same step)
  bool ambiguous = false; for (size_t i = 0; i + 1 < L.size(); i++) { bool fw = i >= nb; auto& p = fw ? L.points[i] : L.points[i + 1]; auto& q = fw ? L.points[i + 1] : L.points[i]; LD a[3] = {0, 0, 0}, b[3] = {0, 0, 0}, z[3]; for (int d = 0; d < N; d++) a[d] = b[d] = p[d]; LD sg = fw ? ds : -ds; LD m1 = advance(F, a, sg, 8); bool gt = g_turn; LD m2 = advance(F, b, sg, 1); gt = gt || g_turn; LD turn = 0, u0[3], u1[3]; for (int d = 0; d < N; d++) z[d] = p[d]; bool o1 = unit(F, z, u0); for (int d = 0; d < N; d++) z[d] = a[d]; bool o2 = unit(F, z, u1); if (o1 && o2) for (int d = 0; d < N; d++) turn += (u1[d] - u0[d]) * (u1[d] - u0[d]); if (m1 < 1e-6L || m2 < 1e-6L || turn > 0.2L || gt) { ambiguous = true; continue; }
    LD err = 0, len = 0, tr = 0; for (int d = 0; d < N; d++) { err += ((LD)q[d] - a[d]) * ((LD)q[d] - a[d]); tr += (b[d] - a[d]) * (b[d] - a[d]); len += ((LD)q[d] - p[d]) * ((LD)q[d] - p[d]); } err = sqrtl(err); tr = sqrtl(tr); len = sqrtl(len); CHECK(err <= 3 * tr + 1e-11L, "step " << i << " deviates by " << (double)err << " from the field line (RK4 step error " << (double)tr << ")"); CHECK(len <= ds * (1 + 1e-9) && len > 0.3L * ds, "step " << i << " has length " << (double)len); }
  // termination
  for (int side = 0; side < 2; side++) { if (side == 0 ? dir == 1 : dir == 0) continue; size_t n = side == 0 ? nf : nb; CHECK((int)n + 1 <= std::max(1, cfg.maxPoints), "too many points"); CHECK(n * ds < cfg.maxLength + ds * (1 + 1e-9), "longer than the limit"); bool limit = (int)n + 1 >= cfg.maxPoints || n * ds >= cfg.maxLength - 1e-9; if (limit) continue;
    auto& p = side == 0 ? L.points.back() : L.points.front(); LD a[3] = {0, 0, 0}; for (int d = 0; d < N; d++) a[d] = p[d]; LD m = advance(F, a, side == 0 ? ds : -ds, 1); bool out = false, near = false; for (int d = 0; d < N; d++) { if (a[d] < B.minCorner[d] || a[d] > B.maxCorner[d]) out = true; if (fabsl(a[d] - B.minCorner[d]) < 1e-9L || fabsl(a[d] - B.maxCorner[d]) < 1e-9L) near = true; } if (m < 1e-6L && m > 0) { continue; } if (near) continue;
    if (m == 0) CHECK(L.hitSingularity, "stopped at a zero of the field without reporting it"); else { CHECK(out, "stopped inside the bounds after " << n << " steps"); CHECK(L.hitBoundary, "left the bounds without reporting it"); } }
  if (dir != 2 && !ambiguous) CHECK(!(L.hitBoundary && L.hitSingularity), "both terminations reported");
  if (kind != 0 && N == 2 && !ambiguous) { LD h0 = 0; for (size_t i = 0; i < L.size(); i++) { LD z[3] = {L.points[i][0], L.points[i][1], 0}; LD h = H.at(z); if (i == 0) h0 = h; CHECK(fabsl(h - h0) <= 1e-2L * (1 + H.mag(z)), "stream function drifts from " << (double)h0 << " to " << (double)h); } }
}
LAW(lines_2d, 2500, 50000) { tracing<2>(s, c); }
LAW(lines_3d, 2000, 40000) { tracing<3>(s, c); }
LAW(circles, 1200, 20000) { // rotation about a centre with a drift along the axis: radius and pitch are known exactly
  double w = s.uni(0.5, 4) * (s.b() ? 1 : -1), v = s.chance(1, 3) ? 0 : s.uni(-2, 2), r = s.uni(0.3, 1.5), ph = s.uni(0, 6); VFN<3> F; F.p[0].t = {{-w, {0, 1, 0}}}; F.p[1].t = {{w, {1, 0, 0}}}; F.p[2].t = {{v, {0, 0, 0}}}; FieldLineTracer3D::Config cfg; cfg.stepSize = s.uni(0.005, 0.02); cfg.maxLength = s.uni(1, 8); cfg.maxPoints = 5000; FieldLineTracer3D T; T.SetConfig(cfg); CHECK(T.GetConfig().stepSize == cfg.stepSize && T.GetConfig().maxPoints == 5000, "configuration"); c.nontrivial(true); c.say([&](auto& o) { o << "w " << fmt(w) << " v " << fmt(v) << " r " << fmt(r) << " step " << fmt(cfg.stepSize) << " length " << fmt(cfg.maxLength); });
  auto L = T.Trace(F, VectorN<Real, 3>{r * std::cos(ph), r * std::sin(ph), 0.0}, BoundingBox3D::Create3D(-3, 3, -3, 3, -20, 20)); CHECK(!L.hitBoundary && !L.hitSingularity, "terminated early"); CHECK(L.totalLength >= cfg.maxLength * (1 - 1e-12) && L.totalLength < cfg.maxLength + cfg.stepSize * 1.0001, "length " << L.totalLength); double sp = std::sqrt(w * w * r * r + v * v); for (size_t i = 0; i < L.size(); i++) { double sl = i * cfg.stepSize, t = sl / sp, th = ph + w * t, tol = 1e-12 + sl * std::pow(cfg.stepSize / r, 4) * 0.1; CHECK_NEAR((double)L.points[i][0], r * std::cos(th), tol, "x of helix point " << i); CHECK_NEAR((double)L.points[i][1], r * std::sin(th), tol, "y of helix point " << i); CHECK_NEAR((double)L.points[i][2], v * t, tol, "z of helix point " << i); } }
LAW(sources, 1500, 30000) { // radial field: lines are rays through the seeds
  bool two = s.b(); int n = (int)s.i(0, 40); double R = s.uni(0.05, 0.5), cx = s.uni(-0.3, 0.3), cy = s.uni(-0.3, 0.3), cz = two ? 0 : s.uni(-0.3, 0.3); c.nontrivial(n > 2); c.say([&](auto& o) { o << (two ? "2D " : "3D ") << n << " lines radius " << fmt(R); });
  auto go = [&](auto tag) { constexpr int N = decltype(tag)::value; VFN<N> F; double ce[3] = {cx, cy, cz}; for (int i = 0; i < N; i++) { Mono m = {1, {0, 0, 0}}, k = {-ce[i], {0, 0, 0}}; m.e[i] = 1; F.p[i].t = {m, k}; } typename FieldLineTracer<N>::Config cfg; cfg.stepSize = 0.05; FieldLineTracer<N> T(cfg); BoundingBox<N> B; VectorN<Real, N> C; for (int i = 0; i < N; i++) { B.minCorner[i] = -1.5; B.maxCorner[i] = 1.5; C[i] = ce[i]; } auto L = T.TraceFromSource(F, C, n, R, B); CHECK((int)L.size() == n, L.size() << " lines for " << n); double mind = 1e300; for (int i = 0; i < n; i++) { CHECK(L[i].size() > 1 && L[i].hitBoundary && !L[i].hitSingularity, "ray does not reach the boundary"); double e0 = 0; for (int d = 0; d < N; d++) e0 += std::pow(L[i].points[0][d] - ce[d], 2); CHECK_NEAR(std::sqrt(e0), R, 1e-12, "seed distance"); for (size_t k = 0; k < L[i].size(); k++) for (int d = 0; d < N; d++) CHECK_NEAR((double)(L[i].points[k][d] - ce[d]), (L[i].points[0][d] - ce[d]) / R * (R + k * 0.05), 1e-10, "ray point"); for (int j = 0; j < i; j++) { double e = 0; for (int d = 0; d < N; d++) e += std::pow(L[i].points[0][d] - L[j].points[0][d], 2); mind = std::min(mind, std::sqrt(e)); } }
    if (n > 1) { if (N == 2) CHECK_NEAR(mind, 2 * R * std::sin(M_PI / n), 1e-10, "seeds not equally spaced"); else CHECK(mind > 0.5 * R / std::sqrt((double)n), "seeds cluster: closest " << mind); } };
  if (two) go(std::integral_constant<int, 2>()); else go(std::integral_constant<int, 3>()); }
