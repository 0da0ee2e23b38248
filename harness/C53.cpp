// C53: discrete maps against their formulas, exact cycles and maps with known exponents
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "base/Matrix/Matrix.h"
#include <algorithm>
#include <functional>
#include "systems/DiscreteMaps.h"
using namespace MML::Systems; typedef std::vector<LD> W; typedef std::vector<double> V;
static Vector<Real> vec(const V& v) { Vector<Real> r((int)v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = v[i]; return r; }
static std::string sv(const V& v) { std::ostringstream o; for (double x : v) o << " " << fmt(x); return o.str(); }
static const LD TP = 2 * acosl(-1.0L);
// reference: 0 logistic, 1 Henon, 2 standard (lifted), 3 tent
static W ref(int k, const V& p, const W& x) { switch (k) { case 0: return {p[0] * x[0] - p[0] * x[0] * x[0]}; case 1: return {1 + x[1] - p[0] * x[0] * x[0], p[1] * x[0]}; case 2: return {x[0] + p[0] * sinl(x[1]), x[1] + x[0] + p[0] * sinl(x[1])}; default: return {x[0] < 0.5L ? p[0] * x[0] : p[0] * (1 - x[0])}; } }
static LD wrapd(LD a, LD b) { LD d = fmodl(fabsl(a - b), TP); return std::min(d, TP - d); }
template <class F> static void with(int k, const V& p, F f) { switch (k) { case 0: { LogisticMap m(p[0]); f(m); break; } case 1: { HenonMap m(p[0], p[1]); f(m); break; } case 2: { StandardMap m(p[0]); f(m); break; } default: { TentMap m(p[0]); f(m); } } }
static V params(Src& s, int k) { switch (k) { case 0: return {s.uni(0, 4)}; case 1: return {s.uni(0, 2), s.uni(-1, 1)}; case 2: return {s.uni(-5, 5)}; default: return {s.uni(0, 2)}; } }
static V state(Src& s, int k) { switch (k) { case 0: case 3: return {s.chance(1, 6) ? s.pick({0.0, 0.5, 1.0}) : s.uni(-0.5, 1.5)}; case 1: return {s.uni(-2, 2), s.uni(-2, 2)}; default: return {s.uni(-7, 13), s.uni(-7, 13)}; } }
static const char* NM[] = {"logistic", "Henon", "standard", "tent"};
LAW(formulas, 8000, 200000) { int k = (int)s.i(0, 3), n = k == 1 || k == 2 ? 2 : 1; V p = params(s, k), x = state(s, k); bool edge = k == 3 && std::fabs(x[0] - 0.5) < 1e-6; c.nontrivial(true); c.label(NM[k]); c.say([&](auto& o) { o << NM[k] << " parameters" << sv(p) << " state" << sv(x); });
  with(k, p, [&](auto& m) { CHECK(m.getDim() == n, "dimension"); for (size_t i = 0; i < p.size(); i++) { CHECK(m.getParam((int)i) == p[i], "constructor parameter " << i); m.setParam((int)i, p[i] + 1); CHECK(m.getParam((int)i) == p[i] + 1, "set parameter " << i); for (size_t j = 0; j < p.size(); j++) if (j != i) CHECK(m.getParam((int)j) == p[j], "setting parameter " << i << " changed " << j); m.setParam((int)i, p[i]); CHECK(!m.getParamName((int)i).empty(), "name"); } if (n == 2) CHECK(m.getStateName(0) != m.getStateName(1), "state names"); if (k == 1) CHECK(m.getParamName(0) != m.getParamName(1), "parameter names");
    W xl(x.begin(), x.end()), y = ref(k, p, xl); Vector<Real> a(n), b = m.iterate(vec(x)); m.map(vec(x), a); for (int i = 0; i < n; i++) { CHECK(a[i] == b[i], "iterate differs from map"); if (k == 2) { CHECK(a[i] >= 0 && a[i] <= TP, "angle " << fmt(a[i]) << " not wrapped"); CHECK(wrapd(a[i], y[i]) < 1e-13L * 30, "component " << i << " is " << fmt(a[i]) << " expected " << (double)y[i] << " mod 2pi"); } else CHECK_NEAR((LD)a[i], y[i], 1e-14L * 10, "component " << i); }
    Matrix<Real> J(1, 1); m.jacobian(vec(x), J); CHECK(J.rows() == n && J.cols() == n, "Jacobian shape"); if (!edge) for (int j = 0; j < n; j++) { LD h = k == 3 ? 1e-8L : 1e-4L; auto at = [&](LD d) { W z = xl; z[j] += d; return ref(k, p, z); }; W u = at(h), v = at(-h), u2 = at(2 * h), v2 = at(-2 * h); for (int i = 0; i < n; i++) CHECK_NEAR((LD)J(i, j), (8 * (u[i] - v[i]) - (u2[i] - v2[i])) / (12 * h), 1e-9L, "Jacobian entry " << i << "," << j); } LD det = n == 1 ? (LD)J(0, 0) : (LD)J(0, 0) * J(1, 1) - (LD)J(0, 1) * J(1, 0); if (k == 2) { CHECK_NEAR(det, 1.0L, 1e-13L, "area preservation"); } if (k == 1) CHECK_NEAR(det, (LD)-p[1], 1e-14L, "determinant"); });
  if (k == 1) { HenonMap m(p[0], p[1]); CHECK(m.jacobianDeterminant() == -p[1] && m.getA() == p[0] && m.getB() == p[1], "accessors"); } if (k == 2) CHECK(StandardMap(p[0]).isAreaPreserving(), "flag"); if (k == 0) CHECK_NEAR((double)LogisticMap(4.0).analyticalLyapunov(), std::log(2.0), 1e-15, "analytic exponent"); if (k == 3 && p[0] > 0.01) CHECK_NEAR((double)TentMap(p[0]).analyticalLyapunov(), std::log(p[0]), 1e-14, "analytic exponent"); }
LAW(orbits, 3000, 60000) { bool he = s.b(); V p = he ? V{s.uni(0, 1.4), s.uni(-0.5, 0.5)} : V{s.uni(0, 4)}, x = he ? V{s.uni(-0.5, 0.5), s.uni(-0.5, 0.5)} : V{s.unit()}; int n = (int)s.i(0, 40); c.nontrivial(n > 2); c.label(he ? "Henon" : "logistic"); c.say([&](auto& o) { o << sv(p) << " from" << sv(x) << " for " << n; });
  auto go = [&](auto& m, int d) { auto R = m.orbit(vec(x), n); CHECK((int)R.size() == n, R.size() << " points in an orbit of " << n); Vector<Real> y = vec(x); for (int i = 0; i < n; i++) { Vector<Real> z(d); m.map(y, z); for (int j = 0; j < d; j++) CHECK(R[i][j] == z[j] || (std::isnan(R[i][j]) && std::isnan(z[j])), "orbit point " << i << " is not the image of its predecessor"); y = z; } int q = n ? (int)s.i(0, n - 1) : 0; if (n) { auto A = m.orbit(vec(x), q + 1); auto B = m.orbit(A.back(), n - q - 1); for (int i = q + 1; i < n; i++) for (int j = 0; j < d; j++) CHECK(R[i][j] == B[i - q - 1][j] || std::isnan(R[i][j]), "continued orbit differs"); } }; if (he) { HenonMap m(p[0], p[1]); go(m, 2); } else { LogisticMap m(p[0]); go(m, 1); } }
LAW(cycles, 3000, 50000) { // points whose exact cycle is known stay on it to first order
  int k = (int)s.i(0, 4); c.nontrivial(true); if (k == 0) { double r = s.uni(1, 4); LogisticMap m(r); double x = 1 - 1 / r; CHECK_NEAR((double)m.iterate(vec({x}))[0], x, 1e-14, "fixed point of the logistic map"); Matrix<Real> J(1, 1); m.jacobian(vec({x}), J); CHECK_NEAR((double)J(0, 0), 2 - r, 1e-13, "multiplier"); } else if (k == 1) { double r = s.uni(3.01, 4), q = std::sqrt((r - 3) * (r + 1)), a = (r + 1 + q) / (2 * r), b = (r + 1 - q) / (2 * r); LogisticMap m(r); CHECK_NEAR((double)m.iterate(vec({a}))[0], b, 1e-13, "two-cycle"); CHECK_NEAR((double)m.iterate(vec({b}))[0], a, 1e-13, "two-cycle"); Matrix<Real> J(1, 1), K(1, 1); m.jacobian(vec({a}), J); m.jacobian(vec({b}), K); CHECK_NEAR((double)(J(0, 0) * K(0, 0)), 4 + 2 * r - r * r, 1e-11, "two-cycle multiplier"); }
  else if (k == 2) { double a = s.uni(0.1, 1.5), b = s.uni(-0.9, 0.9), D = (1 - b) * (1 - b) + 4 * a, x = (b - 1 + (s.b() ? 1 : -1) * std::sqrt(D)) / (2 * a); HenonMap m(a, b); auto y = m.iterate(vec({x, b * x})); CHECK_NEAR((double)y[0], x, 1e-12 * (1 + a * x * x), "fixed point of the Henon map"); CHECK_NEAR((double)y[1], b * x, 1e-12 * (1 + std::fabs(x)), "fixed point of the Henon map"); } else if (k == 3) { double mu = s.uni(1, 2), x = mu / (1 + mu); TentMap m(mu); CHECK_NEAR((double)m.iterate(vec({x}))[0], x, 1e-14, "fixed point of the tent map"); int j = (int)s.i(3, 30), i = (int)s.i(1, j); TentMap t(2.0); double d = std::ldexp(1.0, j), z = i / d; Vector<Real> y = vec({z}); long a = i, N = 1L << j; for (int q = 0; q < 60; q++) { y = t.iterate(y); a = a <= N / 2 ? 2 * a : 2 * (N - a); CHECK(y[0] == a / d, "dyadic orbit of the tent map at step " << q); } } else { double K = s.uni(-4, 4); StandardMap m(K); auto y = m.iterate(vec({0.0, s.b() ? 0.0 : M_PI})); CHECK(wrapd(y[0], 0) < 1e-14L * 20, "fixed point of the standard map"); double p = s.uni(-3, 3), q = s.uni(-3, 3); auto u = m.iterate(vec({p, q})), v = m.iterate(vec({p + 2 * M_PI, q - 2 * M_PI})); CHECK(wrapd(u[0], v[0]) < 1e-13L && wrapd(u[1], v[1]) < 1e-13L, "periodicity of the standard map"); auto w = m.iterate(vec({-p, -q})); CHECK(wrapd(-(LD)u[0], w[0]) < 1e-13L && wrapd(-(LD)u[1], w[1]) < 1e-13L, "odd symmetry of the standard map"); } }
// user maps
struct User : IDiscreteMap<3> { LD A[3][3]; LD nl = 0; void map(const Vector<Real>& x, Vector<Real>& y) const override { for (int i = 0; i < 3; i++) { LD t = 0; for (int j = 0; j < 3; j++) t += A[i][j] * x[j]; y[i] = (Real)(t + nl * sinl(x[i])); } } void jacobian(const Vector<Real>& x, Matrix<Real>& J) const override { J.Resize(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) J(i, j) = (Real)(A[i][j] + (i == j ? nl * cosl(x[i]) : 0)); } Real getParam(int) const override { return 0; } void setParam(int, Real) override {} std::string getParamName(int) const override { return ""; } std::string getStateName(int) const override { return ""; } };
LAW(lyapunov_linear, 1500, 20000) { User m; double ev[3]; bool rot = s.b(); for (double& v : ev) v = s.uni(0.2, 3) * (s.b() ? 1 : -1); if (rot) ev[1] = ev[0]; for (auto& r : m.A) for (LD& v : r) v = 0; double th = s.uni(0.1, 3); for (int i = 0; i < 3; i++) m.A[i][i] = ev[i]; if (rot) { m.A[0][0] = m.A[1][1] = ev[0] * cosl(th); m.A[0][1] = -ev[0] * sinl(th); m.A[1][0] = ev[0] * sinl(th); } int pr = (int)s.i(0, 2); for (int q = 0; q < pr; q++) for (int i = 0; i < 3; i++) { for (int a = 0; a < 3; a++) (void)a; }
  int N = (int)s.i(1, 200), T = (int)s.i(0, 20); V e; for (double v : ev) e.push_back(std::log(std::fabs(v))); std::sort(e.rbegin(), e.rend()); int perm = (int)s.i(0, 2); if (perm) { User o = m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o.A[(i + perm) % 3][(j + perm) % 3] = m.A[i][j]; m = o; } c.nontrivial(true); c.say([&](auto& o) { o << "moduli " << fmt(ev[0]) << " " << fmt(ev[1]) << " " << fmt(ev[2]) << (rot ? " rotating" : "") << " shift " << perm << " iterations " << N; });
  auto R = DiscreteMapLyapunov<3>::Compute(m, vec({0.0, 0.0, 0.0}), N, T); for (int i = 0; i < 3; i++) CHECK_NEAR((double)R.exponents[i], e[i], 1e-11 * (1 + std::fabs(e[i])), "exponent " << i); CHECK(R.maxExponent == R.exponents[0], "largest exponent " << R.maxExponent); if (std::fabs(e[0] - 0.01) > 1e-6) CHECK(R.isChaotic == (e[0] > 0.01), "chaos flag"); }
LAW(lyapunov_average, 800, 12000) { // exponents are orbit averages: the largest of a 1-D map, and the sum of any map
  int k = (int)s.i(0, 3); V p = k == 0 ? V{s.chance(1, 4) ? 4.0 : s.uni(2.5, 4)} : k == 1 ? V{s.uni(0.2, 1.4), s.uni(0.05, 0.3)} : k == 2 ? V{s.uni(-3, 3)} : V{s.uni(1.01, 2)}, x = k == 1 ? V{s.uni(-0.1, 0.1), s.uni(-0.1, 0.1)} : k == 2 ? V{s.uni(0, 6), s.uni(0, 6)} : V{s.uni(0.05, 0.95)}; int N = (int)s.i(1, 1500), T = (int)s.i(0, 100); c.nontrivial(N > 50); c.label(NM[k]); c.say([&](auto& o) { o << NM[k] << sv(p) << " from" << sv(x) << " " << N << " iterations after " << T; });
  with(k, p, [&](auto& m) { constexpr int D = std::is_base_of_v<IDiscreteMap<1>, std::decay_t<decltype(m)>> ? 1 : 2; auto R = DiscreteMapLyapunov<D>::Compute(m, vec(x), N, T); Vector<Real> y = vec(x); for (int i = 0; i < T; i++) y = m.iterate(y); LD sum = 0, smallest = 1e300L; LD u[2] = {1, 0}, lead = 0; bool dead = false; for (int i = 0; i < N; i++) { Matrix<Real> J(D, D); m.jacobian(y, J); LD det = D == 1 ? (LD)J(0, 0) : (LD)J(0, 0) * J(D - 1, D - 1) - (LD)J(0, D - 1) * J(D - 1, 0); smallest = std::min(smallest, fabsl(det)); sum += logl(fabsl(det)); LD v[2] = {J(0, 0) * u[0], 0}; if (D == 2) { v[0] = J(0, 0) * u[0] + J(0, D - 1) * u[1]; v[1] = J(D - 1, 0) * u[0] + J(D - 1, D - 1) * u[1]; } LD nn = sqrtl(v[0] * v[0] + v[1] * v[1]); if (nn < 1e-9L) dead = true; lead += logl(nn); u[0] = v[0] / nn; u[1] = v[1] / nn; y = m.iterate(y); } DISCARD_IF(dead || smallest < 1e-9L || !std::isfinite((double)sum)); LD tot = 0; for (int i = 0; i < D; i++) tot += R.exponents[i]; CHECK_NEAR(tot, sum / N, 1e-9L * (1 + fabsl(sum / N)), "sum of exponents vs average log determinant"); LD a = lead / N, b = sum / N - a; if (D == 1) b = a; CHECK_NEAR((LD)R.exponents[0], std::max(a, b), 1e-8L * (1 + fabsl(a)), "largest exponent"); CHECK(R.maxExponent == R.exponents[0], "largest exponent field"); for (int i = 0; i + 1 < D; i++) CHECK(R.exponents[i] >= R.exponents[i + 1], "exponents unsorted"); if (k == 1) CHECK_NEAR(tot, logl(fabsl((LD)p[1])), 1e-9L, "Henon sum rule"); if (k == 2) CHECK_NEAR(tot, 0.0L, 1e-9L, "standard-map sum rule"); if (k == 3) CHECK_NEAR(tot, logl((LD)p[0]), 1e-9L, "tent exponent"); }); }
