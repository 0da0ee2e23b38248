// C51: continuous dynamical systems against independent right-hand sides, tangent maps and systems with known spectra
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Function.h"
#include "interfaces/IDynamicalSystem.h"
#include "systems/DynamicalSystem.h"
#include "systems/DynamicalSystemAnalyzer.h"
using namespace MML::Systems; typedef std::vector<LD> W; typedef std::vector<double> V; typedef std::vector<W> WM;
// independent right-hand sides
static W rhs(int k, const V& p, const W& y) {
  switch (k) {
  case 0: return {p[0] * (y[1] - y[0]), y[0] * p[1] - y[0] * y[2] - y[1], y[0] * y[1] - p[2] * y[2]};
  case 1: return {-(y[1] + y[2]), y[0] + p[0] * y[1], p[1] + y[2] * y[0] - y[2] * p[2]};
  case 2: return {y[1], p[0] * y[1] - p[0] * y[0] * y[0] * y[1] - y[0]};
  case 3: return {y[1], p[3] * cosl(y[2]) - p[0] * y[1] - p[1] * y[0] - p[2] * y[0] * y[0] * y[0], p[4]};
  case 4: { LD x = y[0], f = fabsl(x) <= 1 ? p[2] * x : x > 1 ? p[3] * x + (p[2] - p[3]) : p[3] * x - (p[2] - p[3]); return {p[0] * (y[1] - x - f), x - y[1] + y[2], -p[1] * y[1]}; }
  case 5: return {y[2], y[3], -y[0] * (1 + 2 * y[1]), y[1] * y[1] - y[1] - y[0] * y[0]};
  default: { LD m1 = p[0], m2 = p[1], l1 = p[2], l2 = p[3], g = p[4], d = y[0] - y[1], a11 = (m1 + m2) * l1, a12 = m2 * l2 * cosl(d), a21 = l1 * cosl(d), a22 = l2, b1 = -m2 * l2 * y[3] * y[3] * sinl(d) - (m1 + m2) * g * sinl(y[0]), b2 = l1 * y[2] * y[2] * sinl(d) - g * sinl(y[1]), D = a11 * a22 - a12 * a21; return {y[2], y[3], (b1 * a22 - a12 * b2) / D, (a11 * b2 - a21 * b1) / D}; } } }
static const int DIM[] = {3, 3, 2, 3, 3, 4, 4}, NP[] = {3, 3, 1, 5, 4, 1, 5};
static std::unique_ptr<IDynamicalSystem> make(int k, const V& p) { switch (k) { case 0: return std::make_unique<LorenzSystem>(p[0], p[1], p[2]); case 1: return std::make_unique<RosslerSystem>(p[0], p[1], p[2]); case 2: return std::make_unique<VanDerPolSystem>(p[0]); case 3: return std::make_unique<DuffingSystem>(p[0], p[1], p[2], p[3], p[4]); case 4: return std::make_unique<ChuaCircuit>(p[0], p[1], p[2], p[3]); case 5: return std::make_unique<HenonHeilesSystem>(p[0]); default: return std::make_unique<DoublePendulumSystem>(p[0], p[1], p[2], p[3], p[4]); } }
static V params(Src& s, int k) { switch (k) { case 0: return {s.uni(0, 40), s.uni(0, 80), s.uni(0.1, 8)}; case 1: return {s.uni(0, 1), s.uni(0, 1), s.uni(0.5, 15)}; case 2: return {s.uni(0, 5)}; case 3: return {s.uni(0, 1), s.uni(-2, 2), s.uni(0, 2), s.uni(0, 1), s.uni(0, 3)}; case 4: return {s.uni(1, 25), s.uni(1, 40), s.uni(-2, -0.2), s.uni(-1, -0.1)}; case 5: return {s.uni(0, 0.16)}; default: return {s.uni(0.2, 5), s.uni(0.2, 5), s.uni(0.2, 3), s.uni(0.2, 3), s.uni(0, 15)}; } }
static V defaults(int k) { switch (k) { case 0: return {10, 28, 8.0 / 3}; case 1: return {0.2, 0.2, 5.7}; case 2: return {1}; case 3: return {0.3, -1, 1, 0.5, 1.2}; case 4: return {15.6, 28, -1.143, -0.714}; case 5: return {0.1}; default: return {1, 1, 1, 1, 9.80665}; } }
static WM jac(int k, const V& p, const W& y) { int n = DIM[k]; WM J(n, W(n)); for (int j = 0; j < n; j++) { LD h = 1e-5L * (1 + fabsl(y[j])); if (k == 4 && j == 0) h = 1e-7L; W a = y, b = y; a[j] += h; b[j] -= h; W fa = rhs(k, p, a), fb = rhs(k, p, b); W a2 = y, b2 = y; a2[j] += 2 * h; b2[j] -= 2 * h; W ga = rhs(k, p, a2), gb = rhs(k, p, b2); for (int i = 0; i < n; i++) J[i][j] = (8 * (fa[i] - fb[i]) - (ga[i] - gb[i])) / (12 * h); } return J; }
static Vector<Real> vec(const V& v) { Vector<Real> r((int)v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = v[i]; return r; }
static W wv(const Vector<Real>& v) { W r; for (int i = 0; i < v.size(); i++) r.push_back(v[i]); return r; }
static LD nrm(const W& v) { LD r = 0; for (LD x : v) r += x * x; return sqrtl(r); }
static std::string sv(const V& v) { std::ostringstream o; for (double x : v) o << " " << fmt(x); return o.str(); }
static const char* NM[] = {"Lorenz", "Rossler", "VanDerPol", "Duffing", "Chua", "HenonHeiles", "DoublePendulum"};

LAW(right_hand_sides, 6000, 150000) { int k = (int)s.i(0, 6); V p = s.chance(1, 6) ? defaults(k) : params(s, k); int n = DIM[k]; V y; for (int i = 0; i < n; i++) y.push_back(s.chance(1, 6) ? (double)s.i(-2, 2) : s.uni(-5, 5)); if (k == 4) DISCARD_IF(std::fabs(std::fabs(y[0]) - 1) < 1e-4); c.nontrivial(true); c.label(NM[k]); c.say([&](auto& o) { o << NM[k] << " parameters" << sv(p) << " state" << sv(y); });
  auto S = make(k, defaults(k)); CHECK(S->getDim() == n && S->getNumParam() == NP[k], "dimensions"); if (s.b()) S->setParams(vec(p)); else for (int i = 0; i < NP[k]; i++) S->setParam(i, p[i]); for (int i = 0; i < NP[k]; i++) CHECK(S->getParam(i) == p[i] && S->getParams()[i] == p[i], "parameter " << i << " not stored");
  auto S2 = make(k, p); for (int i = 0; i < NP[k]; i++) CHECK(S2->getParam(i) == p[i], "constructor parameter " << i); W yl(y.begin(), y.end()), f = rhs(k, p, yl); Vector<Real> d(n), d2(n); double t = s.uni(0, 10); S->derivs(t, vec(y), d); S2->derivs(0, vec(y), d2); LD sc = 1; for (LD v : f) sc = std::max(sc, fabsl(v)); for (double v : p) sc = std::max(sc, 200 * fabsl((LD)v)); for (int i = 0; i < n; i++) { CHECK_NEAR((LD)d[i], f[i], 1e-12L * sc * (k == 6 ? 100 : 1), "derivative " << i); CHECK(d[i] == d2[i], "equal systems differ"); }
  WM J = jac(k, p, yl); Matrix<Real> M(1, 1); S->jacobian(t, vec(y), M); CHECK(M.rows() == n && M.cols() == n, "Jacobian shape"); LD js = 1; for (auto& r : J) for (LD v : r) js = std::max(js, fabsl(v)); LD tol = k == 6 ? 1e-3L * js * js : 1e-9L * js; if (k == 6) DISCARD_IF(js > 300); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_NEAR((LD)M(i, j), J[i][j], tol, "Jacobian entry " << i << "," << j);
  if (k != 6) { Matrix<Real> N(1, 1); S->IDynamicalSystem::jacobian(t, vec(y), N); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_NEAR((LD)N(i, j), J[i][j], 1e-5L * js * sc, "generic numerical Jacobian entry " << i << "," << j); }
  if (k == 0) CHECK_NEAR((LD)static_cast<LorenzSystem&>(*S).getDivergence(), J[0][0] + J[1][1] + J[2][2], 1e-9L * js, "divergence");
  for (int i = 0; i < NP[k]; i++) { auto r = make(k, p)->getParamRange(i); CHECK(r.first <= defaults(k)[i] && defaults(k)[i] <= r.second, "default of parameter " << i << " outside its range"); CHECK(!S->getParamName(i).empty(), "name"); for (int j = 0; j < i; j++) CHECK(S->getParamName(i) != S->getParamName(j), "duplicate parameter names"); } for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) CHECK(S->getStateName(i) != S->getStateName(j), "duplicate state names"); CHECK(S->getDefaultInitialCondition().size() == n, "default start"); if (k == 0 || k == 1 || k == 4) CHECK(S->isAutonomous(), "autonomous flag"); if (S->isHamiltonian()) CHECK(S->getNumInvariants() > 0, "Hamiltonian system without an invariant");
  CHECK((S->getNumInvariants() > 0) == (k >= 5), "number of invariants"); for (int q = 0; q < S->getNumInvariants(); q++) { CHECK(!S->getInvariantName(q).empty(), "invariant name"); LD dot = 0, ms = 0; for (int i = 0; i < n; i++) { double h = 1e-3 * (1 + std::fabs(y[i])); auto I = [&](double dd) { V z = y; z[i] += dd; return (LD)S->computeInvariant(q, vec(z)); }; LD g = (45 * (I(h) - I(-h)) - 9 * (I(2 * h) - I(-2 * h)) + (I(3 * h) - I(-3 * h))) / (60 * h); dot += g * f[i]; ms = std::max(ms, fabsl(g * f[i])); } CHECK(fabsl(dot) <= 1e-7L * (1 + ms) + 1e-9L * fabsl(S->computeInvariant(q, vec(y))), "invariant changes along the flow at rate " << (double)dot << " (terms up to " << (double)ms << ")"); } }

LAW(invariants_by_formula, 2000, 40000) { bool hh = s.b(); V y; for (int i = 0; i < 4; i++) y.push_back(s.uni(-3, 3)); c.nontrivial(true); c.say([&](auto& o) { o << (hh ? "HenonHeiles" : "pendulum") << sv(y); }); LD E; double got; if (hh) { HenonHeilesSystem S; E = (y[0] * (LD)y[0] + y[1] * (LD)y[1] + y[2] * (LD)y[2] + y[3] * (LD)y[3]) / 2 + y[0] * (LD)y[0] * y[1] - y[1] * (LD)y[1] * y[1] / 3; got = S.getEnergy(vec(y)); CHECK(S.computeInvariant(0, vec(y)) == got, "invariant is not the energy"); } else { V p = params(s, 6); DoublePendulumSystem S(p[0], p[1], p[2], p[3], p[4]); LD x1 = p[2] * cosl(y[0]) * y[2], z1 = p[2] * sinl(y[0]) * y[2], x2 = x1 + p[3] * cosl(y[1]) * y[3], z2 = z1 + p[3] * sinl(y[1]) * y[3]; E = p[0] * (x1 * x1 + z1 * z1) / 2 + p[1] * (x2 * x2 + z2 * z2) / 2 - p[0] * p[4] * p[2] * cosl(y[0]) - p[1] * p[4] * (p[2] * cosl(y[0]) + p[3] * cosl(y[1])); got = S.getEnergy(vec(y)); CHECK(S.computeInvariant(0, vec(y)) == got, "invariant is not the energy"); } CHECK_NEAR((LD)got, E, 1e-11L * (1 + fabsl(E)) + 1e-11L * 500, "energy"); }

// linear systems with a prescribed real block spectrum, conjugated by a unimodular integer matrix and shifted
struct Lin : IDynamicalSystem { int n; WM A; W x0; int np = 1; V par = {1}; int calls = 0; bool own = true;
  int getDim() const override { return n; } int getNumParam() const override { return 1; } Real getParam(int) const override { return par[0]; } void setParam(int, Real v) override { par[0] = v; } Vector<Real> getParams() const override { return vec(par); } void setParams(const Vector<Real>& p) override { par[0] = p[0]; }
  void derivs(Real, const Vector<Real>& y, Vector<Real>& d) const override { for (int i = 0; i < n; i++) { LD r = 0; for (int j = 0; j < n; j++) r += A[i][j] * ((LD)y[j] - x0[j]); d[i] = (Real)(r * par[0]); } }
  void jacobian(Real t, const Vector<Real>& x, Matrix<Real>& J) const override { if (!own) { IDynamicalSystem::jacobian(t, x, J); return; } J.Resize(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) J(i, j) = (Real)(A[i][j] * par[0]); } };
struct Spec { Lin L; std::vector<std::complex<double>> ev; };
static void conj(Src& s, Lin& L, int ops) { int n = L.n; for (int q = 0; q < ops; q++) { int a = (int)s.i(0, n - 1), b = (int)s.i(0, n - 1); if (a == b) continue; double m = s.b() ? 1 : -1; for (int j = 0; j < n; j++) L.A[a][j] += m * L.A[b][j]; for (int i = 0; i < n; i++) L.A[i][b] -= m * L.A[i][a]; } }
static void genSpec(Src& s, Spec& S, bool ctr) { int n = (int)s.i(1, 4); S.L.n = n; S.L.A.assign(n, W(n, 0)); for (int i = 0; i < n; i++) S.L.x0.push_back(s.uni(-2, 2)); int sign = (int)s.i(0, 2); auto re = [&]() { double v = (double)s.i(1, 6) / 2; return sign == 0 ? -v : sign == 1 ? v : s.b() ? v : -v; }; for (int i = 0; i < n;) { if (i + 1 < n && s.b()) { double a = ctr ? 0 : re(), b = (double)s.i(1, 6) / 2; S.L.A[i][i] = S.L.A[i + 1][i + 1] = a; S.L.A[i][i + 1] = -b; S.L.A[i + 1][i] = b; S.ev.push_back({a, b}); S.ev.push_back({a, -b}); i += 2; } else { double a = re(); S.L.A[i][i] = a; S.ev.push_back({a, 0}); i++; } } }
static void show(std::ostream& o, const Spec& S) { o << "eigenvalues"; for (auto& e : S.ev) o << " " << e.real() << (e.imag() ? (e.imag() > 0 ? "+i" : "-i") : "") << (e.imag() ? fmt(std::fabs(e.imag())) : ""); o << " A"; for (auto& r : S.L.A) for (LD v : r) o << " " << (double)v; }

LAW(linear_fixed_points, 3000, 60000) { Spec S; genSpec(s, S, s.chance(1, 10)); conj(s, S.L, (int)s.i(0, 4)); S.L.own = s.chance(2, 3); int n = S.L.n; Vector<Real> g(n); for (int i = 0; i < n; i++) g[i] = s.uni(-4, 4); c.nontrivial(n > 1); c.say([&](auto& o) { show(o, S); });
  int pos = 0, neg = 0; bool cx = false, sep = true; double mx = 0; for (size_t i = 0; i < S.ev.size(); i++) { pos += S.ev[i].real() > 0; neg += S.ev[i].real() < 0; cx = cx || S.ev[i].imag() != 0; mx = std::max(mx, std::abs(S.ev[i])); for (size_t j = 0; j < i; j++) if (std::abs(S.ev[i] - S.ev[j]) < 0.1) sep = false; } LD an = 0; for (auto& r : S.L.A) for (LD v : r) an = std::max(an, fabsl(v));
  auto fp = FixedPointFinder::Find(S.L, g, 1e-9); CHECK(fp.convergenceResidual < 1e-9, "no fixed point of a linear system: residual " << fp.convergenceResidual); for (int i = 0; i < n; i++) CHECK_NEAR((LD)fp.location[i], S.L.x0[i], 1e-6L * (1 + an * an * an), "coordinate " << i); CHECK(fp.iterations >= 0 && fp.iterations <= 50, "iterations"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_NEAR((LD)fp.jacobian(i, j), S.L.A[i][j], 1e-5L * (1 + an), "Jacobian at the fixed point"); CHECK((int)fp.eigenvalues.size() == n, "number of eigenvalues");
  if (sep) { for (auto& e : S.ev) { double b = 1e300; for (auto& q : fp.eigenvalues) b = std::min(b, std::abs(q - e)); CHECK(b < 1e-4 * (1 + mx), "eigenvalue " << e.real() << "," << e.imag() << " missing by " << b); } }
  if (pos + neg < n || !sep) return; CHECK(fp.isStable == (pos == 0), "stability reported as " << fp.isStable << " with " << pos << " growing modes"); FixedPointType w = cx ? (pos && neg ? FixedPointType::SaddleFocus : pos ? FixedPointType::UnstableFocus : FixedPointType::StableFocus) : (pos && neg ? FixedPointType::Saddle : pos ? FixedPointType::UnstableNode : FixedPointType::StableNode); CHECK(fp.type == w || (pos == 0 && fp.type == FixedPointType::StableStarNode && !cx) || (neg == 0 && fp.type == FixedPointType::UnstableStarNode && !cx), "classified as " << ToString(fp.type) << ", expected " << ToString(w));
  auto D = FindFixedPointDetailed(S.L, g, 1e-9); CHECK(D.IsSuccess() && D.fixed_point.type == fp.type, "detailed result"); }

LAW(centers, 800, 10000) { double w = s.uni(0.2, 5), a = s.uni(0.3, 3), tr = s.chance(1, 3) ? 0 : s.uni(-2, 2); Lin L; L.n = 2; L.x0 = {0.0L, 0.0L}; L.A = {{tr, -w * a}, {(w * w + tr * tr) / (w * a), -tr}}; c.nontrivial(true); c.say([&](auto& o) { o << "trace-free centre w " << fmt(w) << " a " << fmt(a) << " t " << fmt(tr); }); if (tr != 0) { auto fp = FixedPointFinder::Find(L, Vector<Real>({0.3, 0.2}), 1e-9); CHECK(!fp.isStable || fp.eigenvalues[0].real() < 0, "centre stable"); CHECK(std::fabs(fp.eigenvalues[0].real()) < 1e-9 && std::fabs(std::fabs(fp.eigenvalues[0].imag()) - w) < 1e-8 * (1 + w), "eigenvalues of a centre"); return; } auto fp = FixedPointFinder::Find(L, Vector<Real>({0.3, 0.2}), 1e-9); CHECK(fp.type == FixedPointType::Center && !fp.isStable, "centre classified as " << ToString(fp.type)); }

LAW(builtin_fixed_points, 2500, 50000) { int k = s.pick({0, 1, 2, 4, 5}); V p = params(s, k); auto S = make(k, p); std::vector<W> want; if (k == 0) { want = {{0, 0, 0}}; if (p[1] > 1) { LD q = sqrtl(p[2] * (LD)(p[1] - 1)); want.push_back({q, q, p[1] - 1.0L}); want.push_back({-q, -q, p[1] - 1.0L}); } } else if (k == 1) { LD D = (LD)p[2] * p[2] - 4 * (LD)p[0] * p[1]; DISCARD_IF(p[0] < 1e-2 || D < 1e-2); for (int sg = -1; sg <= 1; sg += 2) { LD z = (p[2] + sg * sqrtl(D)) / (2 * p[0]); want.push_back({p[0] * z, -z, z}); } } else if (k == 2) want = {{0, 0}}; else if (k == 4) { DISCARD_IF(std::fabs(1 + p[3]) < 1e-2 || std::fabs(1 + p[2]) < 1e-2); want = {{0, 0, 0}}; LD x = (p[3] - (LD)p[2]) / (1 + (LD)p[3]); if (x > 1.01L) { want.push_back({x, 0, -x}); want.push_back({-x, 0, x}); } } else { LD h = sqrtl(3.0L) / 2; want = {{0, 0, 0, 0}, {0, 1, 0, 0}, {h, -0.5L, 0, 0}, {-h, -0.5L, 0, 0}}; }
  int n = DIM[k]; LD gap = 1e300L, big = 1; for (size_t i = 0; i < want.size(); i++) { big = std::max(big, nrm(want[i])); for (size_t j = 0; j < i; j++) { LD d = 0; for (int q = 0; q < n; q++) d += (want[i][q] - want[j][q]) * (want[i][q] - want[j][q]); gap = std::min(gap, sqrtl(d)); } } DISCARD_IF(gap < 1e-2L); std::vector<Vector<Real>> g; for (auto& w : want) for (int r = 0; r < 2; r++) { V z; for (int q = 0; q < n; q++) z.push_back((double)w[q] + s.uni(-1e-3, 1e-3) * (k == 0 || k == 1 ? std::min<double>(1, gap) : 1)); g.push_back(vec(z)); } c.nontrivial(want.size() > 1); c.label(NM[k]); c.say([&](auto& o) { o << NM[k] << sv(p); });
  auto R = FixedPointFinder::FindMultiple(*S, g, 1e-9, 1e-5); size_t found = 0; for (auto& f : R) CHECK(nrm(rhs(k, p, wv(f.location))) < 2e-9L + 1e-13L * big * big, "reported fixed point is no zero"); for (size_t i = 0; i < R.size(); i++) for (size_t j = 0; j < i; j++) CHECK((R[i].location - R[j].location).NormL2() >= 1e-5, "duplicate fixed points"); LD cond = 1e-4L; for (auto& w : want) for (auto& f : R) { LD d = 0; for (int q = 0; q < n; q++) d += powl(f.location[q] - w[q], 2); if (sqrtl(d) < cond * big) { found++; WM J = jac(k, p, w); LD tr = 0; std::complex<LD> es = 0; for (int q = 0; q < n; q++) { tr += J[q][q]; es += std::complex<LD>(f.eigenvalues[q].real(), f.eigenvalues[q].imag()); } LD js = 1; for (auto& r : J) for (LD v : r) js = std::max(js, fabsl(v)); CHECK(fabsl(es.real() - tr) < 1e-3L * js && fabsl(es.imag()) < 1e-6L * js, "eigenvalue sum " << (double)es.real() << " vs trace " << (double)tr);
      bool st = true, any = false; for (auto& e : f.eigenvalues) { if (e.real() > 1e-6) st = false; if (std::fabs(e.real()) <= 1e-6) any = true; } if (!any) CHECK(f.isStable == st, "stability does not follow the eigenvalues"); break; } }
  CHECK(found == want.size(), found << " of " << want.size() << " known fixed points found"); }

// ---- Lyapunov exponents
LAW(lyapunov_linear, 500, 8000) { Spec S; genSpec(s, S, false); int n = S.L.n; double T = s.uni(2, 20), orth = s.pick({0.25, 0.5, 1.0}), h = s.pick({0.01, 0.005}); bool cj = s.b(); if (cj) conj(s, S.L, (int)s.i(1, 3)); V x; for (int i = 0; i < n; i++) x.push_back((double)S.L.x0[i]); V want; for (auto& e : S.ev) want.push_back(e.real()); std::sort(want.rbegin(), want.rend()); c.nontrivial(n > 1); c.say([&](auto& o) { show(o, S); o << " T " << fmt(T) << " orth " << orth << " h " << h; });
  auto R = LyapunovAnalyzer::Compute(S.L, vec(x), T, orth, h); LD tr = 0; double sum = 0; for (int i = 0; i < n; i++) { tr += S.L.A[i][i]; sum += R.exponents[i]; } CHECK_NEAR((LD)R.sum, tr, 1e-4L * (1 + fabsl(tr)), "sum of the exponents"); CHECK_NEAR(sum, (double)R.sum, 1e-10 * (1 + std::fabs(sum)), "sum field"); CHECK(R.maxExponent == R.exponents[0] && R.totalTime == T, "fields"); CHECK_NEAR((double)R.numOrthonormalizations, std::ceil(T / orth), 1.0, "number of orthonormalisations"); for (int i = 0; i + 1 < n; i++) CHECK(R.exponents[i] >= R.exponents[i + 1], "exponents unsorted"); if (!cj) for (int i = 0; i < n; i++) CHECK_NEAR((double)R.exponents[i], want[i], 1e-4 * (1 + std::fabs(want[i])), "exponent " << i); else CHECK((double)R.maxExponent >= want[0] - 40.0 / T && (double)R.maxExponent <= want[0] + 12.0 / T, "largest exponent " << R.maxExponent << ", expected " << want[0]);
  CHECK(R.isChaotic == (R.maxExponent > 1e-10) || std::fabs(R.maxExponent) < 1e-6, "chaos flag"); LD cum = 0, ky = 0; int j = 0; for (; j < n; j++) { if (cum + R.exponents[j] < 0) break; cum += R.exponents[j]; } ky = j == n ? n : j == 0 ? 0 : j + cum / fabsl(R.exponents[j]); CHECK_NEAR((LD)R.kaplanYorkeDimension, ky, 1e-9L * n, "Kaplan-Yorke dimension"); }
LAW(lyapunov_tangent, 150, 2500) { // finite-time exponents against an independent tangent-map integration
  int k = (int)s.i(0, 6); if (k == 4) k = 0; V p = s.b() ? defaults(k) : params(s, k); if (k == 0 && !(p[0] > 0.5 && p[0] < 20 && p[1] < 40)) p = defaults(0); int n = DIM[k]; V y; double amp = k == 5 ? 0.3 : 1.5; for (int i = 0; i < n; i++) y.push_back(s.uni(-amp, amp)); double T = s.uni(1, 4), orth = s.pick({0.2, 0.5, 1.0}); auto S = make(k, p); c.nontrivial(true); c.label(NM[k]); c.say([&](auto& o) { o << NM[k] << sv(p) << " start" << sv(y) << " T " << fmt(T) << " orth " << orth; });
  auto R = LyapunovAnalyzer::Compute(*S, vec(y), T, orth, 0.002), R2 = LyapunovAnalyzer::Compute(*S, vec(y), T, orth, 0.001); W x(y.begin(), y.end()); WM Q(n, W(n, 0)); for (int i = 0; i < n; i++) Q[i][i] = 1; W sums(n, 0); LD trI = 0, t = 0, js = 1; while (t < T - 1e-12L) { LD te = std::min<LD>(t + orth, T); int m = (int)ceill((te - t) / 0.002L); LD h = (te - t) / m; for (int q = 0; q < m; q++) { W kx[4]; WM kq[4]; for (int st = 0; st < 4; st++) { LD cc = st == 0 ? 0 : st == 3 ? h : h / 2; W xs = x; WM qs = Q; if (st) for (int i = 0; i < n; i++) { xs[i] += cc * kx[st - 1][i]; for (int j = 0; j < n; j++) qs[i][j] += cc * kq[st - 1][i][j]; } kx[st] = rhs(k, p, xs); WM J = jac(k, p, xs); for (auto& r : J) for (LD v : r) js = std::max(js, fabsl(v)); kq[st].assign(n, W(n, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int l = 0; l < n; l++) kq[st][i][j] += J[i][l] * qs[l][j]; LD tr = 0; for (int i = 0; i < n; i++) tr += J[i][i]; trI += tr * h * (st == 0 || st == 3 ? 1 : 2) / 6; } for (int i = 0; i < n; i++) { x[i] += h / 6 * (kx[0][i] + 2 * kx[1][i] + 2 * kx[2][i] + kx[3][i]); for (int j = 0; j < n; j++) Q[i][j] += h / 6 * (kq[0][i][j] + 2 * kq[1][i][j] + 2 * kq[2][i][j] + kq[3][i][j]); } } for (int j = 0; j < n; j++) { for (int l = 0; l < j; l++) { LD d = 0; for (int i = 0; i < n; i++) d += Q[i][j] * Q[i][l]; for (int i = 0; i < n; i++) Q[i][j] -= d * Q[i][l]; } LD nn = 0; for (int i = 0; i < n; i++) nn += Q[i][j] * Q[i][j]; nn = sqrtl(nn); sums[j] += logl(nn); for (int i = 0; i < n; i++) Q[i][j] /= nn; } t = te; }
  DISCARD_IF(!(nrm(x) < 200) || js > 60); for (LD& v : sums) v /= T; std::sort(sums.rbegin(), sums.rend()); LD tol = 2e-3L * (k == 6 ? 10 : 1) * (1 + js / 10); CHECK_NEAR((LD)R.sum, trI / T, tol, "sum vs mean divergence"); for (int i = 0; i < n; i++) CHECK_NEAR((LD)R2.exponents[i], sums[i], tol + 2 * fabsl((LD)R2.exponents[i] - R.exponents[i]), "finite-time exponent " << i);
  if (k == 0 || k == 3 || k == 5) { LD w = k == 0 ? -(p[0] + 1 + p[2]) : k == 3 ? -p[0] : 0; CHECK_NEAR((LD)R.sum, w, 1e-3L * (1 + fabsl(w)), "sum rule"); } auto D = ComputeLyapunovDetailed(*S, vec(y), T, orth, 0.002); CHECK(D.IsSuccess() && D.lyapunov.maxExponent == R.maxExponent, "detailed result"); }

// ---- trajectories, sections, sweeps
static W flow(int k, const V& p, W x, LD T, int m) { LD h = T / m; int n = DIM[k]; for (int q = 0; q < m; q++) { W a = rhs(k, p, x), y = x; for (int i = 0; i < n; i++) y[i] = x[i] + h / 2 * a[i]; W b = rhs(k, p, y); for (int i = 0; i < n; i++) y[i] = x[i] + h / 2 * b[i]; W c = rhs(k, p, y); for (int i = 0; i < n; i++) y[i] = x[i] + h * c[i]; W d = rhs(k, p, y); for (int i = 0; i < n; i++) x[i] += h / 6 * (a[i] + 2 * b[i] + 2 * c[i] + d[i]); } return x; }
LAW(trajectories, 300, 5000) { int k = s.pick({1, 2, 3, 5}); V p = defaults(k); int n = DIM[k]; V y; for (int i = 0; i < n; i++) y.push_back(s.uni(-0.3, 0.3)); double h = s.pick({0.01, 0.02, 0.0078125}); int every = (int)s.i(1, 12), outs = (int)s.i(1, 15); double dt = h * every, T = dt * outs; auto S = make(k, p); c.nontrivial(outs > 1 && every > 1); c.say([&](auto& o) { o << NM[k] << sv(y) << " step " << h << " output every " << every << " for " << outs << " outputs"; });
  auto R = PhaseSpaceAnalyzer::IntegrateTrajectory(*S, vec(y), T, dt, h); CHECK((int)R.size() == outs + 1, R.size() << " points for " << outs << " output intervals"); W x(y.begin(), y.end()); for (int j = 0; j <= outs; j++) { if (j) x = flow(k, p, x, dt, 4 * every); for (int i = 0; i < n; i++) CHECK_NEAR((LD)R[j][i], x[i], 1e-6L, "state " << i << " at output " << j); }
  auto D = IntegrateTrajectoryDetailed(*S, vec(y), T, dt, h); CHECK(D.IsSuccess() && D.points.size() == R.size(), "detailed"); }
LAW(sections, 250, 4000) { // rotation (with a drifting third coordinate): all crossings of a plane are known
  double w = s.chance(1, 3) ? (double)s.i(1, 3) : s.uni(0.5, 3), r = s.uni(0.5, 2), v = s.uni(-0.9, 0.9), ph = s.uni(0, 6); int dir = (int)s.i(-1, 1), N = (int)s.i(1, 12); bool clock = s.chance(1, 3); Lin L; L.n = 2; L.x0 = {0.0L, 0.0L}; L.A = {{0, -w}, {w, 0}}; double h = 0.01; c.nontrivial(true); c.label(clock ? "clock" : "circle");
  struct Clock : Lin { double w; void derivs(Real, const Vector<Real>& y, Vector<Real>& d) const override { d[0] = 1; d[1] = -y[1] * y[0] * 0; } }; c.say([&](auto& o) { o << (clock ? "clock " : "circle ") << "w " << fmt(w) << " r " << fmt(r) << " level " << fmt(v * r) << " direction " << dir << " " << N << " crossings"; });
  if (clock) { // x' = 1 : one single upward crossing, also when a step lands exactly on the plane
    Clock C; C.n = 2; C.w = w; double hh = 1.0 / 64, lev = 100 + (double)s.i(1, 20) + (s.b() ? 0.3 : 0.0); if (dir < 0) dir = 1; auto R = PhaseSpaceAnalyzer::ComputePoincareSection(C, Vector<Real>({0.0, 0.5}), PoincareSection<Real>(0, lev, dir), 1, hh); CHECK(R.size() == 1, R.size() << " crossings of x=" << lev << " by x'=1"); CHECK_NEAR((double)R[0][0], lev, 1e-9, "crossing position"); return; }
  auto R = PhaseSpaceAnalyzer::ComputePoincareSection(L, Vector<Real>({r * std::cos(ph), r * std::sin(ph)}), PoincareSection<Real>(0, v * r, dir), N, h); CHECK((int)R.size() == N, R.size() << " crossings"); double b = std::sqrt(1 - v * v) * r; for (int i = 0; i < N; i++) { CHECK_NEAR((double)R[i][0], v * r, 1e-9, "crossing not on the plane"); CHECK_NEAR(std::fabs((double)R[i][1]), b, 1e-3 * r * (1 + w * w) / std::sqrt(1 - v * v), "crossing off the orbit"); double vx = -w * R[i][1]; if (dir) CHECK((vx > 0) == (dir > 0), "crossing in the wrong direction"); else if (i) CHECK(R[i][1] * R[i - 1][1] < 0, "consecutive crossings on the same side"); }
  auto D = ComputePoincareSectionDetailed(L, Vector<Real>({r, 0.0}), PoincareSection<Real>(0, v * r, dir), N, h); CHECK(D.IsSuccess() && (int)D.intersections.size() == N, "detailed"); }
LAW(section_never_reached, 3, 10) { Lin L; L.n = 2; L.x0 = {0.0L, 0.0L}; L.A = {{-1, 0}, {0, -2}}; auto R = PhaseSpaceAnalyzer::ComputePoincareSection(L, Vector<Real>({s.uni(0, 1), 0.4}), PoincareSection<Real>(0, 5.0, 0), 3, 0.05); CHECK(R.empty(), "crossings of a plane the orbit never meets"); c.nontrivial(true); }
LAW(sweeps, 12, 150) { double m0 = s.uni(0.3, 1), m1 = m0 + s.uni(0.2, 2); int ns = (int)s.i(1, 4); VanDerPolSystem S(1.23); c.nontrivial(ns > 1); c.say([&](auto& o) { o << "mu " << fmt(m0) << ".." << fmt(m1) << " in " << ns; }); auto B = BifurcationAnalyzer::Sweep(S, 0, m0, m1, ns, Vector<Real>({0.5, 0.0}), 0, 60, 40, 0.01); CHECK(S.getParam(0) == 1.23, "parameter not restored: " << S.getParam(0)); CHECK(B.parameterName == "mu" && (int)B.parameterValues.size() == ns && (int)B.attractorValues.size() == ns, "diagram shape"); for (int i = 0; i < ns; i++) { double mu = ns == 1 ? m0 : m0 + (m1 - m0) * i / (ns - 1); CHECK_NEAR((double)B.parameterValues[i], mu, 1e-12, "parameter value " << i);
    // amplitude and period of the limit cycle from an independent integration
    W x = {2, 0}; x = flow(2, {mu}, x, 60, 20000); LD t = 0, h = 0.001L, amp = 0, first = -1, last = 0; int cnt = 0; W pv = x; for (; t < 30; t += h) { pv = x; x = flow(2, {mu}, x, h, 1); if (pv[1] > 0 && x[1] <= 0) { amp = std::max(pv[0], x[0]); if (first < 0) first = t; last = t; cnt++; } } LD per = (last - first) / (cnt - 1); for (Real v : B.attractorValues[i]) CHECK_NEAR((LD)v, amp, 2e-3L, "local maximum on the attractor"); CHECK(fabsl(B.attractorValues[i].size() - 40 / per) <= 1.1L, B.attractorValues[i].size() << " maxima in " << (double)(40 / per) << " periods"); }
  DynamicalSystemAnalyzer<> A(S); if (ns > 1) { auto Z = A.ScanChaosVsParameter(0, m0, m1, ns, Vector<Real>({0.5, 0.0}), 20); CHECK(S.getParam(0) == 1.23 && (int)Z.size() == ns, "scan"); for (int i = 0; i < ns; i++) { S.setParam(0, Z[i].first); CHECK(Z[i].second == A.ComputeMaxLyapunov(Vector<Real>({0.5, 0.0}), 20), "scanned exponent differs from a direct one"); } } }
LAW(reports, 60, 800) { Spec S; genSpec(s, S, false); int n = S.L.n; DynamicalSystemAnalyzer<> A(S.L); Vector<Real> x(n); for (int i = 0; i < n; i++) x[i] = s.uni(-1, 1); c.nontrivial(n > 1); c.say([&](auto& o) { show(o, S); }); double T = 4; double rmax = -1e9, sum = 0; int pos = 0, neg = 0; bool cx = false; for (auto& e : S.ev) { rmax = std::max(rmax, e.real()); sum += e.real(); pos += e.real() > 0; neg += e.real() < 0; cx = cx || e.imag() != 0; } auto R = A.Analyze(x, {}, T); CHECK(R.dimension == n && R.numParameters == 1 && R.currentParams[0] == 1 && (int)R.stateNames.size() == n, "report header"); CHECK(R.fixedPoints.size() == 1, R.fixedPoints.size() << " fixed points of a linear system"); CHECK(R.numStableFixedPoints == (pos == 0) && R.numSaddlePoints == (pos && neg && !cx) && R.numStableFixedPoints + R.numUnstableFixedPoints + R.numSaddlePoints == 1, "fixed-point counts " << R.numStableFixedPoints << " " << R.numUnstableFixedPoints << " " << R.numSaddlePoints); CHECK(R.isDissipative == (sum < -1e-6) && R.isChaotic == (rmax > 0), "classification"); if (sum != 0) CHECK(!R.isConservative, "conservative"); if (rmax > 0) CHECK_NEAR((double)R.lyapunovTime, 1 / rmax, 1e-3 / rmax, "Lyapunov time"); else CHECK(std::isinf(R.lyapunovTime), "Lyapunov time"); CHECK(!R.summary.empty(), "summary");
  CHECK(A.IsDissipative(x, T) == (sum < -1e-6) && A.IsChaotic(x, T) == (rmax > 0), "direct queries"); CHECK(A.GetFractalDimension(x, T) == R.kaplanYorkeDimension, "fractal dimension"); int gp = (int)s.i(1, 3); Vector<Real> lo(n), hi(n); for (int i = 0; i < n; i++) { lo[i] = -3; hi[i] = 3; } auto F = A.FindFixedPointsInBox(lo, hi, gp); CHECK(F.size() == 1, F.size() << " fixed points in the box"); }
