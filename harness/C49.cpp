// C49: function analysis on functions whose roots, extrema, inflections, jumps and integrals are known by construction
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Function.h"
#include "core/Derivation.h"
#include "core/Integration.h"
#include "algorithms/Statistics.h"
#include "algorithms/RootFinding.h"
#include "algorithms/FunctionsAnalyzer.h"
typedef std::vector<double> V; static const double INF = std::numeric_limits<double>::infinity(), QN = std::numeric_limits<double>::quiet_NaN();
struct Fn : IRealFunction { std::function<double(double)> f; Fn(std::function<double(double)> g) : f(g) {} Real operator()(Real x) const override { return f(x); } };
static double hor(const V& a, double x) { double r = 0; for (size_t i = a.size(); i-- > 0;) r = r * x + a[i]; return r; }
static LD horL(const V& a, LD x) { LD r = 0; for (size_t i = a.size(); i-- > 0;) r = r * x + a[i]; return r; }
static V der(const V& a) { V r; for (size_t i = 1; i < a.size(); i++) r.push_back(a[i] * i); if (r.empty()) r.push_back(0); return r; }
static V integ(const V& a, double c0) { V r = {c0}; for (size_t i = 0; i < a.size(); i++) r.push_back(a[i] / (i + 1)); return r; }
static V mul(const V& a, const V& b) { V r(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j]; return r; }
static std::string sv(const V& v) { std::ostringstream o; for (double x : v) o << " " << fmt(x); return o.str(); }
// separated points inside (lo,hi)
static V points(Src& s, int n, double lo, double hi) { V r; double w = (hi - lo) / n; for (int i = 0; i < n; i++) r.push_back(lo + w * (i + s.uni(0.15, 0.85))); if (s.chance(1, 3)) for (auto& x : r) x = std::round(x * 64) / 64; return r; }
static V fromRoots(const V& r, double k) { V p = {k}; for (double x : r) p = mul(p, V{-x, 1}); return p; }

LAW(roots, 2000, 60000) {
  double lo = s.uni(-3, 0), hi = lo + s.uni(1, 4); int n = (int)s.i(0, 5); V r = n ? points(s, n, lo, hi) : V{}; double k = s.pick({1.0, -1.0, 0.05, -0.2, 5.0}); V p = fromRoots(r, k); int ev = (int)s.i(0, 1); if (ev) { double m = s.uni(lo, hi); p = mul(p, V{m * m + 0.5, -2 * m, 1}); }
  double eps = s.pick({1e-6, 1e-6, 1e-8, 1e-4}); Fn f([p](double x) { return hor(p, x); }); V d = der(p); double step = (hi - lo) / 1000; V all = r; if (s.chance(1, 4)) { hi = n ? r.back() : hi; step = (hi - lo) / 1000; } DISCARD_IF(hi - lo < 0.3);
  c.nontrivial(n > 1); c.say([&](auto& o) { o << "roots" << sv(r) << " factor " << fmt(k) << " on [" << fmt(lo) << "," << fmt(hi) << "] eps " << fmt(eps); });
  for (double x : r) DISCARD_IF(std::fabs(horL(d, x)) < 0.02 * std::sqrt(eps) * 1e3 * std::fabs(k) || std::fabs(horL(d, x)) * step < 6 * eps); for (size_t i = 1; i < r.size(); i++) DISCARD_IF(r[i] - r[i - 1] < 4 * step);
  if (!n) { bool small = false; for (int i = 0; i <= 1000; i++) small = small || std::fabs(hor(p, lo + i * step)) < 2 * eps; DISCARD_IF(small); }
  auto g = RealFunctionAnalyzer(f).GetRoots(lo, hi, eps); CHECK(g.size() == r.size(), g.size() << " roots reported (" << sv(V(g.begin(), g.end())) << " ), the function has " << r.size()); for (size_t i = 0; i < r.size(); i++) CHECK_NEAR((double)g[i], r[i], eps + 2 * eps / std::fabs((double)horL(d, r[i])), "root " << i);
}
LAW(extrema, 1500, 40000) {
  double lo = s.uni(-2, 0), hi = lo + s.uni(1, 3); int n = (int)s.i(1, 4); V r = points(s, n, lo, hi); double k = s.pick({1.0, -1.0, 3.0, -20.0, 40.0}); V d1 = fromRoots(r, k), p = integ(d1, s.uni(-1, 1)), d2 = der(d1); Fn f([p](double x) { return hor(p, x); }); double eps = 1e-6; 
  c.nontrivial(n > 1); c.say([&](auto& o) { o << "critical points" << sv(r) << " factor " << fmt(k) << " on [" << fmt(lo) << "," << fmt(hi) << "]"; }); double big = 0; for (double x = lo; x <= hi; x += 0.05) big = std::max(big, std::fabs(hor(p, x))); for (double x : r) DISCARD_IF(std::fabs(hor(d2, x)) < 0.02 || std::fabs(hor(d2, x)) * (hi - lo) / 1000 < 1e-5); DISCARD_IF(big > 50);
  RealFunctionAnalyzer A(f); auto o = A.GetLocalOptimums(lo, hi, eps); auto cl = A.GetLocalOptimumsClassified(lo, hi, eps); CHECK((size_t)o.size() == r.size() && cl.size() == r.size(), o.size() << "/" << cl.size() << " extrema reported, the function has " << r.size());
  for (size_t i = 0; i < r.size(); i++) { double t = 3e-6 + 3e-6 / std::fabs(hor(d2, r[i])); CHECK_NEAR((double)o[(int)i], r[i], t, "extremum " << i); CHECK_NEAR((double)cl[i].x, r[i], t, "classified extremum " << i); CHECK_NEAR((double)cl[i].value, hor(p, cl[i].x), 1e-12 * (1 + big), "value at the extremum"); bool mn = hor(d2, r[i]) > 0; CHECK(cl[i].type == (mn ? CriticalPointType::LOCAL_MINIMUM : CriticalPointType::LOCAL_MAXIMUM), (mn ? "minimum" : "maximum") << " at " << fmt(r[i]) << " misclassified"); }
}
LAW(inflections, 1000, 30000) {
  double lo = s.uni(-1.5, 0), hi = lo + s.uni(1, 3); int n = (int)s.i(1, 3); V r = points(s, n, lo, hi); double k = s.pick({1.0, -1.0, 4.0, -10.0}); V d2 = fromRoots(r, k), p = integ(integ(d2, s.uni(-1, 1)), s.uni(-1, 1)), d3 = der(d2); Fn f([p](double x) { return hor(p, x); });
  c.nontrivial(n > 1); c.say([&](auto& o) { o << "inflections" << sv(r) << " factor " << fmt(k) << " on [" << fmt(lo) << "," << fmt(hi) << "]"; }); double big = 0; for (double x = lo; x <= hi; x += 0.05) big = std::max(big, std::fabs(hor(p, x))); DISCARD_IF(big > 20); for (double x : r) DISCARD_IF(std::fabs(hor(d3, x)) < 0.3);
  double eps = 1e-4; auto g = RealFunctionAnalyzer(f).GetInflectionPoints(lo, hi, eps); CHECK((size_t)g.size() == r.size(), g.size() << " inflection points reported, the function has " << r.size()); for (size_t i = 0; i < r.size(); i++) { CHECK_NEAR((double)g[(int)i], r[i], 3e-4 + 3e-4 / std::fabs(hor(d3, r[i])), "inflection point " << i); CHECK(RealFunctionAnalyzer(f).isInflectionPoint(r[i], eps), "true inflection point not recognised"); }
}
LAW(sampled_measures, 2500, 60000) { // extreme values and monotonicity on samples, NaN and infinite samples skipped
  int n = (int)s.i(2, 30), kind = (int)s.i(0, 5); double lo = (double)s.i(-4, 4), hi = lo + n; V y; double t = 0; for (int i = 0; i <= n; i++) { if (kind <= 1) t += (double)s.i(0, 3) * (s.chance(1, 3) ? 0 : 1); else if (kind == 2) t += i == n ? -1 : (double)s.i(0, 3); else t = (double)s.i(-5, 5); y.push_back(kind == 1 ? -t : t); } bool special = kind == 5; if (special) for (int j = 0; j < 3; j++) y[s.i(0, n)] = s.pick({QN, INF, -INF});
  Fn f([=](double x) { int i = (int)std::floor(x - lo + 0.5); i = std::max(0, std::min(n, i)); return y[i]; }); RealFunctionAnalyzer A(f); c.nontrivial(true); c.say([&](auto& o) { o << "samples" << sv(y); }); double mn = INF, mx = -INF; bool any = false; for (double v : y) if (std::isfinite(v)) { any = true; mn = std::min(mn, v); mx = std::max(mx, v); }
  double a = A.MinInNPoints(lo, hi, n), b = A.MaxInNPoints(lo, hi, n); if (any) { CHECK(a == mn && b == mx, "extremes " << fmt(a) << ".." << fmt(b) << ", samples have " << fmt(mn) << ".." << fmt(mx)); } else CHECK(std::isnan(a) && std::isnan(b), "extremes of an undefined function");
  if (!special) { bool up = true, dn = true; for (int i = 1; i <= n; i++) { up = up && y[i] >= y[i - 1]; dn = dn && y[i] <= y[i - 1]; } c.label(up || dn ? "monotonic" : "not monotonic"); CHECK(A.isMonotonic(lo, hi, n) == (up || dn), (up || dn ? "monotonic samples called non-monotonic" : "non-monotonic samples called monotonic")); }
  for (int i = 0; i <= n; i++) CHECK(A.isDefinedAtPoint(lo + i) == std::isfinite(y[i]), "definedness at sample " << i);
  auto R = A.AnalyzeInterval(lo, hi, n); double m2 = INF, x2 = -INF; size_t bad = 0; for (int i = 0; i < n; i++) if (std::isfinite(y[i])) { m2 = std::min(m2, y[i]); x2 = std::max(x2, y[i]); } else bad++; CHECK(R.undefinedPoints.size() == bad && R.isDefinedEverywhere == (bad == 0), "undefined points of the interval"); if (bad < (size_t)n) CHECK(R.minValue == m2 && R.maxValue == x2, "interval extremes"); if (!special) CHECK(R.isMonotonic == A.isMonotonic(lo, hi, n), "interval monotonicity");
}
// piecewise smooth function: smooth pieces between knots, each knot a jump, a removable point, a kink or a pole
struct Piece { V k; std::vector<int> type; V jump, slope; double base; };   // type 0 jump, 1 removable (value moved), 2 removable (undefined), 3 kink
static double smooth(double x) { return std::sin(1.3 * x) + 0.2 * x; }
static double evalP(const Piece& p, double x) { double v = p.base + smooth(x); for (size_t i = 0; i < p.k.size(); i++) { if (p.type[i] == 0 && x >= p.k[i]) v += p.jump[i]; if (p.type[i] == 3 && x > p.k[i]) v += p.slope[i] * (x - p.k[i]); } for (size_t i = 0; i < p.k.size(); i++) if (x == p.k[i]) { if (p.type[i] == 1) v += p.jump[i]; if (p.type[i] == 2) return QN; } return v; }
static Piece genPiece(Src& s, double lo, double hi, bool onGrid) { Piece p; int n = (int)s.i(1, 3); p.k = points(s, n, lo, hi); p.base = s.uni(-1, 1); for (int i = 0; i < n; i++) { if (onGrid) p.k[i] = std::round(p.k[i] * 8) / 8; p.type.push_back((int)s.i(0, 3)); double j = s.uni(0.05, 3) * (s.b() ? 1 : -1); p.jump.push_back(j); p.slope.push_back(s.uni(0.5, 3) * (s.b() ? 1 : -1)); } return p; }
static std::string showPc(const Piece& p) { std::ostringstream o; for (size_t i = 0; i < p.k.size(); i++) o << (p.type[i] == 0 ? " jump " : p.type[i] == 1 ? " moved value " : p.type[i] == 2 ? " hole " : " kink ") << fmt(p.type[i] == 3 ? p.slope[i] : p.jump[i]) << " at " << fmt(p.k[i]); return o.str(); }

LAW(point_properties, 2000, 60000) {
  Piece p = genPiece(s, -2, 2, false); Fn f([p](double x) { return evalP(p, x); }); RealFunctionAnalyzer A(f); c.nontrivial(true); c.say([&](auto& o) { o << showPc(p); });
  for (size_t i = 0; i < p.k.size(); i++) { double x = p.k[i]; bool cont = p.type[i] == 3; c.label(std::string("type ") + char('0' + p.type[i])); CHECK(A.isDefinedAtPoint(x) == (p.type[i] != 2), "definedness at the knot"); CHECK(A.isContinuousAtPoint(x, 1e-6) == cont, "continuity at the knot " << fmt(x) << " is " << !cont); CHECK(!A.isDerivativeDefinedAtPoint(x), "derivative reported at the knot " << fmt(x));
    auto d = A.ClassifyDiscontinuity(x); double L = p.base + smooth(x), R = L; for (size_t j = 0; j < p.k.size(); j++) { if (p.type[j] == 0 && p.k[j] < x) L += p.jump[j]; if (p.type[j] == 3 && p.k[j] < x) L += p.slope[j] * (x - p.k[j]); } R = L + (p.type[i] == 0 ? p.jump[i] : 0); double tol = 4e-5 + 2e-5 * std::fabs(L);
    CHECK_NEAR((double)d.leftLimit, L, tol, "left limit at " << fmt(x)); CHECK_NEAR((double)d.rightLimit, R, tol, "right limit at " << fmt(x)); CHECK(d.x == x, "place"); if (p.type[i] == 0) { CHECK(d.type == DiscontinuityType::JUMP, "jump classified as type " << (int)d.type); CHECK_NEAR((double)d.jumpSize, std::fabs(p.jump[i]), 2 * tol, "jump size"); } else if (p.type[i] < 3) CHECK(d.type == DiscontinuityType::REMOVABLE, "removable discontinuity classified as type " << (int)d.type); else CHECK(d.type == DiscontinuityType::UNKNOWN, "continuous point classified as discontinuity " << (int)d.type); if (p.type[i] == 2) CHECK(std::isnan(d.valueAtPoint), "value at a hole"); else CHECK(d.valueAtPoint == evalP(p, x), "value at the point"); }
  for (int q = 0; q < 5; q++) { double x = s.uni(-2, 2), dist = 1; for (double k : p.k) dist = std::min(dist, std::fabs(k - x)); if (dist < 0.02) continue; auto r = A.AnalyzePoint(x); double sl = 1.3 * std::cos(1.3 * x) + 0.2, cv = -1.69 * std::sin(1.3 * x); for (size_t j = 0; j < p.k.size(); j++) if (p.type[j] == 3 && p.k[j] < x) sl += p.slope[j]; CHECK(r.isDefined && r.isContinuous && r.isDerivativeDefined, "smooth point " << fmt(x) << " reported as irregular"); CHECK(r.x == x && r.value == evalP(p, x), "value at " << fmt(x)); CHECK_NEAR((double)r.derivative, sl, 1e-8, "derivative at " << fmt(x)); CHECK_NEAR((double)r.secondDerivative, cv, 1e-5, "second derivative at " << fmt(x)); }
}
LAW(discontinuity_search, 600, 15000) {
  double lo = -2 + s.uni(-0.1, 0.1), hi = lo + 4; int n = (int)s.i(40, 300); bool grid = s.chance(1, 4); if (grid) { lo = -2; hi = 2; n = 32 * (int)s.i(1, 8); } Piece p = genPiece(s, -1.9, 1.8, grid); double step = (hi - lo) / n; if (!grid) for (auto& t : p.type) if (t == 1 || t == 2) t = 0; // isolated points are only visible on the grid
  for (size_t i = 1; i < p.k.size(); i++) DISCARD_IF(p.k[i] - p.k[i - 1] < 3 * step);
  // the search works on samples: a jump has to dominate the smooth variation over one step on either side
  for (size_t i = 0; i < p.k.size(); i++) if (p.type[i] != 3) { double q = p.k[i], e = 1e-9, l = evalP(p, q - e), r = evalP(p, q + e), dl = std::fabs(l - evalP(p, q - step)), dr = std::fabs(evalP(p, q + step) - r); if (std::isfinite(l) && std::isfinite(r) && l != r) DISCARD_IF(std::fabs(r - l) > 1e-6 && std::fabs(r - l) < 2 * (dl + dr)); }
 Fn f([p](double x) { return evalP(p, x); }); RealFunctionAnalyzer A(f); c.nontrivial(true); c.say([&](auto& o) { o << showPc(p) << " on [" << fmt(lo) << "," << fmt(hi) << "] in " << n << " steps"; });
  auto d = A.FindDiscontinuities(lo, hi, n, 1e-6); size_t want = 0, k = 0; for (int t : p.type) want += t != 3; std::vector<Real> list; bool cont = A.isContinuous(lo, hi, n, 1e-6, &list); if (want == 0) CHECK(d.empty(), d.size() << " discontinuities invented, first at " << fmt(d[0].x)); for (size_t i = 1; i < d.size(); i++) CHECK(d[i - 1].x <= d[i].x, "discontinuities not sorted");
  for (size_t i = 0; i < p.k.size(); i++) { if (p.type[i] == 3) continue; size_t hits = 0, at = 0; for (size_t j = 0; j < d.size(); j++) if (std::fabs(d[j].x - p.k[i]) < 2e-5) { hits++; at = j; } CHECK(hits, "discontinuity at " << fmt(p.k[i]) << " not found among " << d.size()); CHECK(hits == 1, "discontinuity at " << fmt(p.k[i]) << " reported " << hits << " times"); k += hits; if (p.type[i] == 0) { CHECK(std::fabs(d[at].x - p.k[i]) > 1e-9 || d[at].type == DiscontinuityType::JUMP, "jump found at " << fmt(d[at].x) << " (" << hits << " hits, limits " << d[at].leftLimit << "," << d[at].rightLimit << ") but classified as type " << (int)d[at].type); if (std::fabs(d[at].x - p.k[i]) <= 1e-9) CHECK_NEAR((double)d[at].jumpSize, std::fabs(p.jump[i]), 2e-3 + 1e-4 * std::fabs(p.jump[i]), "size of the found jump"); } } CHECK(k == d.size(), d.size() - k << " discontinuities invented");
  if (grid || want == 0) CHECK(cont == (want == 0), "continuity over the interval is " << cont << " with " << want << " discontinuities on samples");
}
LAW(poles, 1500, 30000) {
  double x0 = s.chance(1, 2) ? 0.0 : s.uni(-2, 2), k = s.uni(0.5, 5) * (s.b() ? 1 : -1); int kind = (int)s.i(0, 4); Fn f([=](double x) { double t = x - x0; if (t == 0) return kind == 0 ? QN : k * INF; switch (kind) { case 0: case 1: return k / t; case 2: return k / (t * t); case 3: return k / (t * t * t); default: return k * std::exp(1 / std::fabs(t)); } }); RealFunctionAnalyzer A(f); c.nontrivial(true); c.label(kind < 2 ? "1/t" : kind == 2 ? "1/t^2" : kind == 3 ? "1/t^3" : "exp(1/|t|)"); c.say([&](auto& o) { o << fmt(k) << " kind " << kind << " at " << fmt(x0); });
  auto d = A.ClassifyDiscontinuity(x0); CHECK(!A.isContinuousAtPoint(x0, 1e-6), "pole reported continuous"); bool even = kind == 2 || kind == 4; CHECK(d.type == DiscontinuityType::INFINITE, "pole classified as type " << (int)d.type << " with limits " << fmt((double)d.leftLimit) << " and " << fmt((double)d.rightLimit)); if (!std::isnan(d.rightLimit)) CHECK((d.rightLimit > 0) == (k > 0), "sign of the right limit"); if (!std::isnan(d.leftLimit)) CHECK((d.leftLimit > 0) == ((k > 0) == even), "sign of the left limit " << fmt((double)d.leftLimit)); }
LAW(comparison, 1500, 40000) {
  V p, q; int dg = (int)s.i(0, 4); for (int i = 0; i <= dg; i++) { p.push_back((double)s.i(-4, 4)); q.push_back((double)s.i(-4, 4)); } double a = (double)s.i(-2, 1), b = a + (double)s.i(1, 3); int n = (int)s.i(1, 40); Fn f([p](double x) { return hor(p, x); }), g([q](double x) { return hor(q, x); }); RealFunctionComparer R(f, g); c.nontrivial(p != q); c.say([&](auto& o) { o << "f" << sv(p) << " g" << sv(q) << " on [" << fmt(a) << "," << fmt(b) << "] n " << n; });
  LD sum = 0, mx = 0, rs = 0, rm = 0, big = 0; double st = (b - a) / n; for (int i = 0; i < n; i++) { double x = a + i * st; LD u = hor(p, x), w = hor(q, x), e = fabsl(u - w); sum += e; mx = std::max(mx, e); if (u != 0) { rs += e / fabsl(u); rm = std::max(rm, e / fabsl(u)); } big = std::max(big, fabsl(u) + fabsl(w)); }
  LD tol = 1e-12L * (1 + big) * n; CHECK_NEAR((LD)R.getAbsDiffSum(a, b, n), sum, tol, "sum of differences"); CHECK_NEAR((LD)R.getAbsDiffAvg(a, b, n), sum / n, tol, "average difference"); CHECK_NEAR((LD)R.getAbsDiffMax(a, b, n), mx, tol, "largest difference"); LD rt = 1e-12L * (1 + rs); CHECK_NEAR((LD)R.getRelDiffSum(a, b, n), rs, rt, "sum of relative differences"); CHECK_NEAR((LD)R.getRelDiffAvg(a, b, n), rs / n, rt, "average relative difference"); CHECK_NEAR((LD)R.getRelDiffMax(a, b, n), rm, rt, "largest relative difference");
  V dd(dg + 1); for (int i = 0; i <= dg; i++) dd[i] = p[i] - q[i]; V I = integ(dd, 0), I2 = integ(mul(dd, dd), 0); LD ex = horL(I, b) - horL(I, a), ex2 = horL(I2, b) - horL(I2, a); // |d|: integrate between the sign changes found by fine sampling
  LD ab = 0; { int N = 6000; LD pa = a; for (int i = 1; i <= N; i++) { LD x = a + (LD)(b - a) * i / N, xl = a + (LD)(b - a) * (i - 1) / N; if (i == N || (horL(dd, xl) < 0) != (horL(dd, x) < 0)) { LD l = xl, h = x; if (i < N || (horL(dd, xl) < 0) != (horL(dd, x) < 0)) for (int it = 0; it < 80; it++) { LD m = (l + h) / 2; if ((horL(dd, l) < 0) != (horL(dd, m) < 0)) h = m; else l = m; } LD cut = (i == N && (horL(dd, xl) < 0) == (horL(dd, x) < 0)) ? x : l; ab += fabsl(horL(I, cut) - horL(I, pa)); pa = cut; } } ab += fabsl(horL(I, b) - horL(I, pa)); }
  for (auto m : {IntegrationMethod::TRAP, IntegrationMethod::SIMPSON, IntegrationMethod::ROMBERG}) { LD t = 1e-3L * (1 + fabsl(ex) + ab); CHECK_NEAR((LD)R.getIntegratedDiff(a, b, m), ex, t, "integral of the difference, method " << (int)m); CHECK_NEAR((LD)RealFunctionComparer::getIntegratedDiff(f, g, a, b, m), ex, t, "static integral of the difference"); CHECK_NEAR((LD)R.getIntegratedSqrDiff(a, b, m), ex2, 1e-3L * (1 + ex2), "integral of the squared difference, method " << (int)m); if (m != IntegrationMethod::ROMBERG) CHECK_NEAR((LD)R.getIntegratedAbsDiff(a, b, m), ab, 1e-2L * (1 + ab), "integral of the absolute difference, method " << (int)m); }
}
LAW(root_period, 800, 20000) { double w = s.uni(0.5, 6), ph = s.uni(0, 6), a = s.uni(-5, 5), len = s.uni(0.5, 12) * M_PI / w; Fn f([=](double x) { return std::sin(w * x + ph); }); int n = (int)std::ceil(len / (M_PI / w) * 20) + 5; int cnt = 0; double lastR = 0; for (int k = -40; k < 60; k++) { double r = (k * M_PI - ph) / w; if (r > a && r < a + len) { cnt++; lastR = r; } DISCARD_IF(std::fabs(r - a) < 1e-6 || std::fabs(r - a - len) < 1e-6); } (void)lastR; c.nontrivial(cnt > 2); if (cnt > 10) c.label("more than ten roots"); c.say([&](auto& o) { o << "sin(" << fmt(w) << "x+" << fmt(ph) << ") on [" << fmt(a) << "," << fmt(a + len) << "], " << cnt << " roots"; }); double T = RealFunctionAnalyzer(f).calcRootsPeriod(a, a + len, n); if (cnt < 2) CHECK(T == 0, "period " << fmt(T) << " from " << cnt << " roots"); else CHECK_NEAR(T, M_PI / w, 2e-7, "average distance of roots"); }
