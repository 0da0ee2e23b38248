// C45: k-d tree queries against a scan of all points, over histories of build / clear / query
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Geometry/Geometry2D.h"
#include "base/Geometry/Geometry3D.h"
#include "algorithms/CompGeometry/KDTree.h"


template<int D> using Pt = VectorN<Real, D>;
template<int D> static std::string showP(const Pt<D>& p) { std::ostringstream o; o << "("; for (int i = 0; i < D; i++) o << (i ? "," : "") << fmt(p[i]); o << ")"; return o.str(); }

// one coordinate generator per case: lattice, few values, clustered, wide
struct CoordGen {
  int kind, m; double scale;
  CoordGen(Src& s) { kind = (int)s.i(0, 4); m = (int)s.i(1, 12); scale = std::ldexp(1.0, (int)s.i(-40, 40)); }
  double operator()(Src& s) const {
    switch (kind) {
      case 0: return (double)s.i(-m, m);
      case 1: return (double)s.i(0, 1);
      case 2: return s.real(-1, 1) * scale;
      case 3: return (double)s.i(-3, 3) * 1000 + (double)s.i(-2, 2) * 0.25;
      default: return (double)s.i(-m, m) * scale;
    }
  }
};
template<int D> static Pt<D> genP(Src& s, const CoordGen& g, int degenerateAxis) { Pt<D> p; for (int i = 0; i < D; i++) p[i] = i == degenerateAxis ? 1.0 * g.scale : g(s); return p; }
template<int D> static double d2(const Pt<D>& a, const Pt<D>& b) { double t = 0; for (int i = 0; i < D; i++) { double d = a[i] - b[i]; t += d * d; } return t; }

template<int D> struct Direct {
  typedef KDTree<D> Tree;
  static void build(Tree& t, const std::vector<Pt<D>>& v, const KDTreeConfig& c) { t.build(v, c); }
  static Pt<D> q(const Pt<D>& p) { return p; }
  static Pt<D> at(const Tree& t, size_t i) { return t.point(i); }
};
struct Via2 {
  typedef KDTree2D Tree; static Point2Cartesian q(const Pt<2>& p) { return Point2Cartesian(p[0], p[1]); }
  static void build(Tree& t, const std::vector<Pt<2>>& v, const KDTreeConfig& c) { std::vector<Point2Cartesian> w; for (auto& p : v) w.push_back(q(p)); t.build(w, c); }
};
struct Via3 {
  typedef KDTree3D Tree; static Point3Cartesian q(const Pt<3>& p) { return Point3Cartesian(p[0], p[1], p[2]); }
  static void build(Tree& t, const std::vector<Pt<3>>& v, const KDTreeConfig& c) { std::vector<Point3Cartesian> w; for (auto& p : v) w.push_back(q(p)); t.build(w, c); }
};

template<int D> static void ckNearest(const NearestNeighborResult& r, const std::vector<Pt<D>>& v, const Pt<D>& q, const char* who) {
  if (v.empty()) { CHECK(!r.found && r.status == AlgorithmStatus::InvalidInput, who << ": nearest in an empty tree not reported"); return; }
  double best = d2<D>(v[0], q); for (auto& p : v) best = std::min(best, d2<D>(p, q));
  CHECK(r.found, who << ": nearest not found among " << v.size() << " points");
  CHECK(r.index < v.size(), who << ": index out of range");
  CHECK(d2<D>(v[r.index], q) == best, who << ": reported point " << showP<D>(v[r.index]) << " at " << fmt(std::sqrt(d2<D>(v[r.index], q))) << " but the nearest to " << showP<D>(q) << " is at " << fmt(std::sqrt(best)));
  CHECK(r.distance == std::sqrt(best), who << ": distance " << fmt(r.distance) << " is not that of the nearest, " << fmt(std::sqrt(best)));
}
template<int D> static void ckK(const KNearestResult& r, const std::vector<Pt<D>>& v, const Pt<D>& q, int k, const char* who) {
  if (k <= 0) { CHECK(r.indices.empty() && r.status == AlgorithmStatus::InvalidInput, who << ": k=" << k << " not reported"); return; }
  std::vector<double> ref; for (auto& p : v) ref.push_back(d2<D>(p, q)); std::sort(ref.begin(), ref.end());
  size_t n = std::min<size_t>(k, v.size());
  CHECK(r.indices.size() == n && r.distances.size() == n, who << ": k=" << k << " of " << v.size() << " points gave " << r.indices.size() << " results");
  std::set<size_t> seen;
  for (size_t i = 0; i < n; i++) {
    CHECK(r.indices[i] < v.size(), who << ": index out of range");
    CHECK(seen.insert(r.indices[i]).second, who << ": point " << r.indices[i] << " reported twice");
    CHECK(d2<D>(v[r.indices[i]], q) == ref[i], who << ": result " << i << " of k=" << k << " is at " << fmt(std::sqrt(d2<D>(v[r.indices[i]], q))) << ", brute force has " << fmt(std::sqrt(ref[i])));
    CHECK(r.distances[i] == std::sqrt(ref[i]), who << ": distance " << i << " is " << fmt(r.distances[i]) << " not " << fmt(std::sqrt(ref[i])));
  }
}
template<int D> static void ckRadius(const RadiusSearchResult& r, const std::vector<Pt<D>>& v, const Pt<D>& q, double rad, const char* who) {
  if (rad < 0) { CHECK(r.indices.empty(), who << ": points within a negative radius"); if (!v.empty()) CHECK(r.status == AlgorithmStatus::InvalidInput, who << ": negative radius not reported"); return; }
  std::set<size_t> got; CHECK(r.indices.size() == r.distances.size(), who << ": radius result lengths differ");
  for (size_t i = 0; i < r.indices.size(); i++) {
    size_t k = r.indices[i]; CHECK(k < v.size(), who << ": index out of range"); CHECK(got.insert(k).second, who << ": point " << k << " reported twice");
    CHECK(r.distances[i] == std::sqrt(d2<D>(v[k], q)), who << ": distance of point " << k << " is " << fmt(r.distances[i]));
  }
  for (size_t k = 0; k < v.size(); k++) {
    double t = d2<D>(v[k], q), R = rad * rad;
    if (t <= R * (1 - 4 * EPS) || (t == R)) CHECK(got.count(k), who << ": point " << showP<D>(v[k]) << " at " << fmt(std::sqrt(t)) << " missing within radius " << fmt(rad) << " of " << showP<D>(q));
    if (t > R * (1 + 4 * EPS)) CHECK(!got.count(k), who << ": point " << showP<D>(v[k]) << " at " << fmt(std::sqrt(t)) << " reported within radius " << fmt(rad));
  }
}
template<int D> static void ckBox(const std::vector<size_t>& r, const std::vector<Pt<D>>& v, const Pt<D>& lo, const Pt<D>& hi, const char* who) {
  std::set<size_t> got; for (size_t k : r) { CHECK(k < v.size(), who << ": index out of range"); CHECK(got.insert(k).second, who << ": point " << k << " reported twice in the box"); }
  for (size_t k = 0; k < v.size(); k++) { bool in = true; for (int a = 0; a < D; a++) in = in && v[k][a] >= lo[a] && v[k][a] <= hi[a];
    CHECK(in == (bool)got.count(k), who << ": point " << showP<D>(v[k]) << (in ? " missing from" : " wrongly in") << " the box " << showP<D>(lo) << " - " << showP<D>(hi)); }
}

template<int D, class A> static void history(Src& s, Case& c, const char* who) {
  CoordGen g(s); std::vector<Pt<D>> v; typename A::Tree t; int rounds = (int)s.i(1, 3), hits = 0; bool dup = false, deep = false;
  CHECK(t.empty() && t.size() == 0, who << ": new tree not empty");
  for (int rd = 0; rd < rounds; rd++) {
    if (rd && s.chance(1, 5)) { t.clear(); v.clear(); CHECK(t.empty() && t.size() == 0, who << ": cleared tree not empty"); }
    else {
      int n = s.chance(1, 8) ? (int)s.i(0, 2) : (int)s.i(1, 90); int deg = s.chance(1, 3) ? (int)s.i(0, D - 1) : -1; v.clear();
      for (int i = 0; i < n; i++) { if (i && s.chance(1, 6)) v.push_back(v[s.i(0, i - 1)]); else v.push_back(genP<D>(s, g, deg)); }
      if (s.chance(1, 6)) std::sort(v.begin(), v.end(), [](const Pt<D>& a, const Pt<D>& b) { return a[0] < b[0]; });
      KDTreeConfig k; k.max_leaf_size = s.chance(1, 10) ? (int)s.i(-1, 0) : (int)s.pick({1, 1, 2, 3, 7, 10, 100}); k.balanced = s.b();
      A::build(t, v, k);
      CHECK(t.size() == v.size() && t.empty() == v.empty(), who << ": size " << t.size() << " after building from " << v.size() << " points");
      deep = deep || n > 3 * std::max(1, k.max_leaf_size); 
    }
    int qs = (int)s.i(1, 6);
    for (int j = 0; j < qs; j++) {
      Pt<D> q = (!v.empty() && s.chance(1, 3)) ? v[s.i(0, (int64_t)v.size() - 1)] : genP<D>(s, g, -1);
      if (s.chance(1, 6)) q[(int)s.i(0, D - 1)] *= 50;
      switch (s.i(0, 3)) {
        case 0: ckNearest<D>(t.findNearest(A::q(q)), v, q, who); break;
        case 1: { int k = s.chance(1, 8) ? (int)s.i(-2, 0) : (int)s.i(1, 12) * (s.chance(1, 5) ? 12 : 1); ckK<D>(t.findKNearest(A::q(q), k), v, q, k, who); break; }
        case 2: { double rad = s.chance(1, 10) ? -g.scale : g.kind == 2 || s.b() ? s.real(0, 3) * (g.kind == 2 || g.kind == 4 ? g.scale : 1.0) : (double)s.i(0, 8);
          if (!v.empty() && s.chance(1, 4)) rad = std::sqrt(d2<D>(v[s.i(0, (int64_t)v.size() - 1)], q));
          ckRadius<D>(t.findInRadius(A::q(q), rad), v, q, rad, who); break; }
        default: { Pt<D> q2 = (!v.empty() && s.chance(1, 3)) ? v[s.i(0, (int64_t)v.size() - 1)] : genP<D>(s, g, -1); Pt<D> lo = q, hi = q2;
          if (!s.chance(1, 8)) for (int a = 0; a < D; a++) { lo[a] = std::min(q[a], q2[a]); hi[a] = std::max(q[a], q2[a]); }
          ckBox<D>(t.findInBox(A::q(lo), A::q(hi)), v, lo, hi, who); }
      }
      hits++;
    }
  }
  std::set<std::vector<double>> u; for (auto& p : v) { std::vector<double> w; for (int i = 0; i < D; i++) w.push_back(p[i]); u.insert(w); } dup = u.size() < v.size();
  c.nontrivial(deep && hits > 0); if (dup) c.label("duplicates"); c.label(std::string(who)); if (deep) c.label("several leaves");
  c.say([&](auto& o) { o << who << " coordinate kind " << g.kind << ", " << v.size() << " points in the last round, " << hits << " queries"; });
}
LAW(line_tree, 1500, 60000) { history<1, Direct<1>>(s, c, "1D"); }
LAW(plane_tree, 3000, 150000) { history<2, Direct<2>>(s, c, "2D"); }
LAW(space_tree, 2500, 120000) { history<3, Direct<3>>(s, c, "3D"); }
LAW(five_dim_tree, 1500, 80000) { history<5, Direct<5>>(s, c, "5D"); }
LAW(plane_wrapper, 2500, 100000) { history<2, Via2>(s, c, "KDTree2D"); }
LAW(space_wrapper, 2500, 100000) { history<3, Via3>(s, c, "KDTree3D"); }

LAW(brute_force_helpers, 2000, 60000) {
  CoordGen g(s); int n = (int)s.i(0, 40); std::vector<Pt<3>> v; for (int i = 0; i < n; i++) v.push_back(genP<3>(s, g, -1)); Pt<3> q = genP<3>(s, g, -1);
  std::vector<Point3Cartesian> a; std::vector<Point2Cartesian> b; std::vector<Pt<2>> v2; for (auto& p : v) { a.push_back(Via3::q(p)); Pt<2> w; w[0] = p[0]; w[1] = p[1]; v2.push_back(w); b.push_back(Via2::q(w)); }
  Pt<2> q2; q2[0] = q[0]; q2[1] = q[1];
  auto r3 = FindNearestBruteForce3D(a, Via3::q(q)); auto r2 = FindNearestBruteForce2D(b, Via2::q(q2));
  if (n) { CHECK(r3.found && r3.index < v.size() && r2.found && r2.index < v.size(), "brute force found nothing among " << n);
    double e3 = d2<3>(v[0], q), e2 = d2<2>(v2[0], q2); for (auto& p : v) e3 = std::min(e3, d2<3>(p, q)); for (auto& p : v2) e2 = std::min(e2, d2<2>(p, q2));
    CHECK_NEAR((double)std::sqrt(d2<3>(v[r3.index], q)), (double)std::sqrt(e3), 4 * EPS * std::sqrt(e3), "3D brute force nearest"); CHECK_NEAR((double)r3.distance, (double)std::sqrt(e3), 4 * EPS * std::sqrt(e3), "3D brute force distance");
    CHECK_NEAR((double)std::sqrt(d2<2>(v2[r2.index], q2)), (double)std::sqrt(e2), 4 * EPS * std::sqrt(e2), "2D brute force nearest"); CHECK_NEAR((double)r2.distance, (double)std::sqrt(e2), 4 * EPS * std::sqrt(e2), "2D brute force distance");
  } else CHECK(!r3.found && !r2.found, "nearest found in an empty set");
  c.nontrivial(n > 1); c.say([&](auto& o) { o << n << " points"; });
}
