// C46: intersections of segments, lines and rays (exact on integer lattices), convex clipping, smallest enclosing circle, closest pair
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Geometry/Geometry2D.h"
#include "base/Geometry/Geometry3D.h"
#include "algorithms/CompGeometry/CompGeometryBase.h"
#include "algorithms/CompGeometry/Intersections.h"
#include "algorithms/CompGeometry/ConvexHull.h"
#include "algorithms/CompGeometry/PolygonOps.h"
#include "algorithms/CompGeometry/Circles.h"
using namespace MML::CompGeometry;
typedef Point2Cartesian P2; typedef Point3Cartesian P3; typedef std::array<LD, 2> L2; typedef std::vector<L2> Poly;
typedef long long ll;
static std::string show(const std::vector<P2>& v) { std::ostringstream o; for (auto& p : v) o << " (" << fmt(p.X()) << "," << fmt(p.Y()) << ")"; return o.str(); }
static ll crossI(const ll* o, const ll* a, const ll* b) { return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0]); }
static int sg(ll x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }

// ---- segments on a lattice, scaled by a power of two: exact classification
LAW(segment_pairs, 6000, 300000) {
  int m = (int)s.i(1, 9); double sc = std::ldexp(1.0, (int)s.i(-4, 8)); ll q[4][2]; for (auto& r : q) for (auto& x : r) x = s.i(-m, m);
  if (s.chance(1, 3)) { ll a = s.i(-3, 3), b = s.i(-3, 3); for (int k = 1; k < 4; k++) { ll t = s.i(-3, 3); q[k][0] = q[0][0] + t * a; q[k][1] = q[0][1] + t * b; } }   // collinear
  if (s.chance(1, 5)) { int k = (int)s.i(2, 3), j = (int)s.i(0, 1); q[k][0] = q[j][0]; q[k][1] = q[j][1]; }                                    // shared end
  P2 p[4]; for (int k = 0; k < 4; k++) p[k] = P2(q[k][0] * sc, q[k][1] * sc);
  bool pt1 = q[0][0] == q[1][0] && q[0][1] == q[1][1], pt2 = q[2][0] == q[3][0] && q[2][1] == q[3][1];
  // exact answer: 0 none, 1 point, 2 overlap
  int kind = 0; LD X = 0, Y = 0; L2 oa{}, ob{};
  ll D = (q[1][0] - q[0][0]) * (q[3][1] - q[2][1]) - (q[1][1] - q[0][1]) * (q[3][0] - q[2][0]);
  if (D != 0) { ll tn = (q[2][0] - q[0][0]) * (q[3][1] - q[2][1]) - (q[2][1] - q[0][1]) * (q[3][0] - q[2][0]), un = (q[2][0] - q[0][0]) * (q[1][1] - q[0][1]) - (q[2][1] - q[0][1]) * (q[1][0] - q[0][0]);
    if (D < 0) { D = -D; tn = -tn; un = -un; } if (tn >= 0 && tn <= D && un >= 0 && un <= D) { kind = 1; X = (q[0][0] + (LD)tn / D * (q[1][0] - q[0][0])) * sc; Y = (q[0][1] + (LD)tn / D * (q[1][1] - q[0][1])) * sc; } }
  else { // parallel or degenerate: candidates are end points lying on the other segment
    auto on = [&](const ll* a, const ll* b, const ll* r) { return crossI(a, b, r) == 0 && std::min(a[0], b[0]) <= r[0] && r[0] <= std::max(a[0], b[0]) && std::min(a[1], b[1]) <= r[1] && r[1] <= std::max(a[1], b[1]); };
    std::set<std::pair<ll, ll>> u; for (int k = 0; k < 4; k++) { const ll *a = k < 2 ? q[2] : q[0], *b = k < 2 ? q[3] : q[1]; if (on(a, b, q[k])) u.insert({q[k][0], q[k][1]}); }
    if (u.size() == 1) { kind = 1; X = u.begin()->first * sc; Y = u.begin()->second * sc; }
    if (u.size() > 1) { kind = 2; oa = {u.begin()->first * (LD)sc, u.begin()->second * (LD)sc}; ob = {u.rbegin()->first * (LD)sc, u.rbegin()->second * (LD)sc}; } }
  c.nontrivial(!pt1 && !pt2); c.label(kind == 0 ? "disjoint" : kind == 1 ? (D ? "proper or touching point" : "collinear touching point") : "overlap");
  c.say([&](auto& o) { o << "segments" << show({p[0], p[1]}) << " and" << show({p[2], p[3]}) << " exact kind " << kind; });
  for (int perm = 0; perm < 8; perm++) {
    P2 a = p[0], b = p[1], d = p[2], e = p[3]; if (perm & 1) std::swap(a, b); if (perm & 2) std::swap(d, e); if (perm & 4) { std::swap(a, d); std::swap(b, e); }
    auto r = perm & 1 ? Intersections::IntersectSegments(a, b, d, e) : Intersections::IntersectSegments(SegmentLine2D(a, b), SegmentLine2D(d, e));
    CHECK(r.HasIntersection() == (kind != 0), "segments " << (kind ? "meet but none reported" : "do not meet but an intersection is reported") << ", order " << perm);
    if (kind == 1) { CHECK(r.IsPointIntersection(), "single common point reported as overlap, order " << perm); CHECK_NEAR((LD)r.point.X(), X, 1e-13L * m * sc, "x of the common point"); CHECK_NEAR((LD)r.point.Y(), Y, 1e-13L * m * sc, "y of the common point"); }
    if (kind == 2) { CHECK(r.IsOverlap(), "overlap not reported as such, order " << perm); L2 ga = {r.overlapStart.X(), r.overlapStart.Y()}, gb = {r.overlapEnd.X(), r.overlapEnd.Y()}; if (gb < ga) std::swap(ga, gb); CHECK(ga == oa && gb == ob, "overlap ends" << show({r.overlapStart, r.overlapEnd}) << " expected (" << fmt((double)oa[0]) << "," << fmt((double)oa[1]) << ") (" << fmt((double)ob[0]) << "," << fmt((double)ob[1]) << ")"); }
  }
}
LAW(line_pairs_2d, 3000, 100000) {
  int m = (int)s.i(1, 12); ll v[4][2]; for (auto& r : v) for (auto& x : r) x = s.i(-m, m); if (s.chance(1, 3)) { ll k = s.i(1, 3) * (s.b() ? 1 : -1); v[3][0] = k * v[1][0]; v[3][1] = k * v[1][1]; if (s.b()) { ll t = s.i(-2, 2); v[2][0] = v[0][0] + t * v[1][0]; v[2][1] = v[0][1] + t * v[1][1]; } }
  DISCARD_IF((!v[1][0] && !v[1][1]) || (!v[3][0] && !v[3][1])); ll D = v[1][0] * v[3][1] - v[1][1] * v[3][0]; ll w = (v[2][0] - v[0][0]) * v[1][1] - (v[2][1] - v[0][1]) * v[1][0];
  P2 a((double)v[0][0], (double)v[0][1]), b((double)v[2][0], (double)v[2][1]); Vector2Cartesian da((double)v[1][0], (double)v[1][1]), db((double)v[3][0], (double)v[3][1]);
  auto r = Intersections::IntersectLines2D(a, da, b, db); auto r2 = Intersections::IntersectLines2D(Line2D(a, da), Line2D(b, db));
  c.nontrivial(true); c.label(D ? "crossing" : w ? "parallel" : "coincident"); c.say([&](auto& o) { o << "lines through" << show({a, b}) << " directions (" << v[1][0] << "," << v[1][1] << ") (" << v[3][0] << "," << v[3][1] << ")"; });
  CHECK(r.IsPoint() == (D != 0) && r.IsParallel() == (D == 0 && w != 0) && r.IsCoincident() == (D == 0 && w == 0), "lines misclassified"); CHECK(r.type == r2.type, "overloads disagree");
  if (D) { LD t = ((LD)(v[2][0] - v[0][0]) * v[3][1] - (LD)(v[2][1] - v[0][1]) * v[3][0]) / D, X = v[0][0] + t * v[1][0], Y = v[0][1] + t * v[1][1]; LD tol = 1e-13L * (1 + fabsl(X) + fabsl(Y)) * m * m; 
    CHECK_NEAR((LD)r.point.X(), X, tol, "x of the crossing"); CHECK_NEAR((LD)r.point.Y(), Y, tol, "y of the crossing");
    P2 q1 = Line2D(a, da)(r.t1), q2 = Line2D(b, db)(r.t2); CHECK_NEAR((LD)q1.X(), X, tol, "t1"); CHECK_NEAR((LD)q1.Y(), Y, tol, "t1"); CHECK_NEAR((LD)q2.X(), X, tol, "t2"); CHECK_NEAR((LD)q2.Y(), Y, tol, "t2"); }
}
static std::array<ll, 3> cr(const std::array<ll, 3>& a, const std::array<ll, 3>& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static ll dt(const std::array<ll, 3>& a, const std::array<ll, 3>& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static std::array<ll, 3> sb(const std::array<ll, 3>& a, const std::array<ll, 3>& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static std::array<ll, 3> gi(Src& s, int m) { std::array<ll, 3> r; for (auto& x : r) x = s.i(-m, m); return r; }
static bool zero(const std::array<ll, 3>& a) { return !a[0] && !a[1] && !a[2]; }
static P3 pt(const std::array<ll, 3>& a) { return P3((double)a[0], (double)a[1], (double)a[2]); }
static Vector3Cartesian vc(const std::array<ll, 3>& a) { return Vector3Cartesian((double)a[0], (double)a[1], (double)a[2]); }

LAW(line_pairs_3d, 3000, 100000) {
  int m = (int)s.i(1, 8); auto p = gi(s, m), d = gi(s, m), q = gi(s, m), e = gi(s, m); int how = (int)s.i(0, 4);
  if (how == 1) for (int k = 0; k < 3; k++) { ll f = m % 2 ? 2 : -1; e[k] = f * d[k]; } else if (how == 2) { ll t = s.i(-3, 3); for (int k = 0; k < 3; k++) { e[k] = -2 * d[k]; q[k] = p[k] + t * d[k]; } }
  else if (how == 3) { ll t = s.i(-3, 3), u = s.i(-3, 3); for (int k = 0; k < 3; k++) q[k] = p[k] + t * d[k] - u * e[k]; }   // crossing
  DISCARD_IF(zero(d) || zero(e)); auto n = cr(d, e); bool par = zero(n), coin = par && zero(cr(sb(q, p), d)); ll tri = dt(sb(q, p), n);
  auto r = Intersections::IntersectLines3D(pt(p), vc(d), pt(q), vc(e));
  c.nontrivial(true); c.label(coin ? "coincident" : par ? "parallel" : tri ? "skew" : "crossing"); c.say([&](auto& o) { for (auto& z : {p, d, q, e}) o << "(" << z[0] << "," << z[1] << "," << z[2] << ") "; });
  CHECK(r.IsCoincident() == coin && r.IsParallel() == (par && !coin) && r.IsSkew() == (!par && tri != 0) && r.IsIntersecting() == (!par && tri == 0), "lines misclassified (type " << (int)r.type << ")");
  if (!par) { LD dist = fabsl((LD)tri) / sqrtl((LD)dt(n, n)); LD tol = 1e-11L * m * m * m; CHECK_NEAR((LD)r.distance, dist, tol, "distance of the lines");
    // common perpendicular: t1 = det(q-p,e,n)/|n|^2
    LD t1 = (LD)dt(cr(sb(q, p), e), n) / dt(n, n), t2 = (LD)dt(cr(sb(q, p), d), n) / dt(n, n); tol *= (1 + fabsl(t1) + fabsl(t2));
    double g1[3] = {r.point1.X(), r.point1.Y(), r.point1.Z()}, g2[3] = {r.point2.X(), r.point2.Y(), r.point2.Z()};
    for (int k = 0; k < 3; k++) { CHECK_NEAR((LD)g1[k], p[k] + t1 * d[k], tol, "closest point on the first line"); CHECK_NEAR((LD)g2[k], q[k] + t2 * e[k], tol, "closest point on the second line"); } 
    P3 a1 = Line3D(pt(p), vc(d))(r.t1); CHECK_NEAR((LD)a1.X(), p[0] + t1 * d[0], tol, "t1"); }
}
LAW(ray_triangle, 6000, 300000) {
  int m = (int)s.i(1, 7); auto o3 = gi(s, m), d = gi(s, m), a = gi(s, m), b = gi(s, m), e = gi(s, m); DISCARD_IF(zero(d));
  if (s.chance(1, 3)) { int w0 = (int)s.i(0, 3), w1 = (int)s.i(0, 3 - w0), w2 = 3 - w0 - w1; for (int k = 0; k < 3; k++) d[k] = w0 * a[k] + w1 * b[k] + w2 * e[k] - 3 * o3[k]; DISCARD_IF(zero(d)); } // aimed at a lattice point of the triangle
  auto e1 = sb(b, a), e2 = sb(e, a), pv = cr(d, e2), tv = sb(o3, a), qv = cr(tv, e1); ll det = dt(e1, pv), un = dt(tv, pv), vn = dt(d, qv), tn = dt(e2, qv); int sd = sg(det);
  ll D = det * sd, U = un * sd, V = vn * sd, T = tn * sd; bool inside = D > 0 && U >= 0 && V >= 0 && U + V <= D && T >= 0; bool edge = D > 0 && U + V == D; // rounding decides on the third edge
  c.nontrivial(D != 0 && !zero(cr(e1, e2))); c.label(D == 0 ? "parallel" : inside ? (sd > 0 ? "front hit" : "back hit") : "miss");
  c.say([&](auto& o) { for (auto& z : {o3, d, a, b, e}) o << "(" << z[0] << "," << z[1] << "," << z[2] << ") "; });
  Line3D ray(pt(o3), vc(d)); Triangle3D tri(pt(a), pt(b), pt(e)); LD len = sqrtl((LD)dt(d, d));
  for (int k = 0; k < 6; k++) { bool cull = k & 1; int form = k / 2; if (form == 2 && edge) continue;
    auto h = form == 0 ? Intersections::IntersectRayTriangle(pt(o3), vc(d), pt(a), pt(b), pt(e), cull) : form == 1 ? Intersections::IntersectRayTriangle(pt(o3), vc(d), tri, cull) : s.b() ? Intersections::IntersectRayTriangle(ray, tri, cull) : Intersections::IntersectRayTriangle(ray, pt(a), pt(b), pt(e), cull);
    bool want = inside && !(cull && sd < 0); if (edge && T >= 0 && U >= 0 && V >= 0) { if (cull && sd < 0) CHECK(!h.hit, "culled back face hit"); }
    else if (form == 2 && (U == 0 || V == 0 || T == 0)) {}  // the line's direction is normalised: boundary cases are decided by rounding
    else CHECK(h.hit == want, (want ? "ray hits the triangle but no hit is reported" : "hit reported for a ray that misses") << ", form " << form << (cull ? ", culling" : ""));
    if (h.hit && D) { LD t = (LD)T / D, u = (LD)U / D, v = (LD)V / D, tol = 1e-12L * m; CHECK_NEAR((LD)h.u, u, tol, "u"); CHECK_NEAR((LD)h.v, v, tol, "v"); CHECK_NEAR((LD)h.t, form == 2 ? t * len : t, tol * (1 + t * len), "t"); CHECK_NEAR((LD)h.BarycentricW(), 1 - u - v, tol, "w");
      double g[3] = {h.point.X(), h.point.Y(), h.point.Z()}; for (int j = 0; j < 3; j++) { CHECK_NEAR((LD)g[j], o3[j] + t * d[j], tol * (1 + t * len), "hit point on the ray"); CHECK_NEAR((LD)g[j], (1 - u - v) * a[j] + u * b[j] + v * e[j], tol * (1 + t * len), "hit point in the triangle"); } }
  }
}

// ---- clipping
static LD area2(const Poly& p) { LD t = 0; for (size_t i = 0; i < p.size(); i++) { auto &a = p[i], &b = p[(i + 1) % p.size()]; t += a[0] * b[1] - a[1] * b[0]; } return t; }
static Poly cut(const Poly& p, const L2& a, const L2& b) { Poly r; for (size_t i = 0; i < p.size(); i++) { auto &u = p[i], &v = p[(i + 1) % p.size()]; auto f = [&](const L2& q) { return (b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0]); }; LD fu = f(u), fv = f(v); if (fu >= 0) r.push_back(u); if ((fu > 0 && fv < 0) || (fu < 0 && fv > 0)) { LD t = fu / (fu - fv); r.push_back({u[0] + t * (v[0] - u[0]), u[1] + t * (v[1] - u[1])}); } } return r; }
// |A ∩ B| for simple A (any orientation) and convex counterclockwise B: signed fan of triangles, each clipped on its own
static LD interArea(const Poly& A, const Poly& B) {
  LD t = 0; L2 o = A[0]; for (size_t i = 1; i + 1 < A.size(); i++) { Poly tr = {o, A[i], A[i + 1]}; LD sgn = area2(tr); if (sgn == 0) continue; if (sgn < 0) std::swap(tr[1], tr[2]); for (size_t k = 0; k < B.size() && !tr.empty(); k++) tr = cut(tr, B[k], B[(k + 1) % B.size()]); t += (sgn > 0 ? 1 : -1) * fabsl(area2(tr)) / 2; }
  return fabsl(t);
}
static Poly genStar(Src& s, int n, double R, double cx, double cy) { std::vector<double> a; for (int i = 0; i < n; i++) a.push_back((i + 0.1 + 0.8 * s.unit()) * 2 * M_PI / n); Poly p; for (double t : a) { double r = R * (0.25 + 0.75 * s.unit()); p.push_back({(LD)(double)(cx + r * std::cos(t)), (LD)(double)(cy + r * std::sin(t))}); } return p; }
static Poly hullL(Poly v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); int n = (int)v.size(), k = 0; if (n < 3) return v; Poly h(2 * n); auto f = [](const L2& o, const L2& a, const L2& b) { return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0]); };
  for (int i = 0; i < n; i++) { while (k >= 2 && f(h[k - 2], h[k - 1], v[i]) <= 0) k--; h[k++] = v[i]; } for (int i = n - 2, t = k + 1; i >= 0; i--) { while (k >= t && f(h[k - 2], h[k - 1], v[i]) <= 0) k--; h[k++] = v[i]; } h.resize(k - 1); return h; }
static Poly genConvex(Src& s, double R, double cx, double cy, bool lattice) { Poly p; int n = (int)s.i(3, 9); for (int i = 0; i < n; i++) { if (lattice) p.push_back({(LD)(s.i(-6, 6) * R / 4 + cx), (LD)(s.i(-6, 6) * R / 4 + cy)}); else p.push_back({(LD)(double)(cx + R * s.uni(-1, 1)), (LD)(double)(cy + R * s.uni(-1, 1))}); } return hullL(p); }
static Polygon2D toP(const Poly& p, int rot, bool rev) { std::vector<P2> v; int n = (int)p.size(); for (int i = 0; i < n; i++) { auto& q = p[((rev ? -i : i) + rot + 2 * n) % n]; v.push_back(P2((double)q[0], (double)q[1])); } return Polygon2D(v); }
static Poly fromP(const Polygon2D& p) { Poly r; for (auto& q : p.Vertices()) r.push_back({(LD)q.X(), (LD)q.Y()}); return r; }
static LD edgeDist(const Poly& p, const L2& q) { LD best = 1e300L; for (size_t i = 0; i < p.size(); i++) { auto &a = p[i], &b = p[(i + 1) % p.size()]; LD dx = b[0] - a[0], dy = b[1] - a[1], l = dx * dx + dy * dy, t = l > 0 ? std::min<LD>(1, std::max<LD>(0, ((q[0] - a[0]) * dx + (q[1] - a[1]) * dy) / l)) : 0; best = std::min(best, hypotl(q[0] - a[0] - t * dx, q[1] - a[1] - t * dy)); } return best; }
static bool insideL(const Poly& p, const L2& q) { bool in = false; for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++) if ((p[i][1] > q[1]) != (p[j][1] > q[1]) && q[0] < (p[j][0] - p[i][0]) * (q[1] - p[i][1]) / (p[j][1] - p[i][1]) + p[i][0]) in = !in; return in; }

LAW(convex_clipping, 3000, 150000) {
  double sc = std::ldexp(1.0, (int)s.i(-24, 24)), off = s.chance(1, 4) ? sc * s.pick({100.0, -1000.0, 5000.0}) : 0; bool lattice = s.chance(1, 3); int mode = (int)s.i(0, 3);
  Poly B = genConvex(s, sc, off, -off, lattice); DISCARD_IF(B.size() < 3 || area2(B) < 1e-3L * sc * sc);
  if (mode == 1) { double x0 = s.uni(-1, 0.5) * sc + off, y0 = s.uni(-1, 0.5) * sc - off, x1 = x0 + s.uni(0.05, 1) * sc, y1 = y0 + s.uni(0.05, 1) * sc; B = {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}; }
  double sh = s.chance(1, 6) ? 3 : 0.6; double ax = off + sc * s.uni(-sh, sh), ay = -off + sc * s.uni(-sh, sh), ra = sc * s.pick({0.2, 1.0, 1.0, 4.0}); if (lattice) { ax = off; ay = -off; ra = sc; }
  Poly A = s.chance(1, 2) && !lattice ? genStar(s, (int)s.i(3, 12), ra, ax, ay) : genConvex(s, ra, ax, ay, lattice); DISCARD_IF(A.size() < 3 || fabsl(area2(A)) < 1e-3L * ra * ra);
  bool revA = s.b(), revB = s.b(); int rotA = (int)s.i(0, 20) % (int)A.size(), rotB = (int)s.i(0, 20) % (int)B.size(); Polygon2D PA = toP(A, rotA, revA), PB = toP(B, rotB, revB), R;
  if (mode == 1) R = PolygonOps::ClipToRect(PA, (double)B[0][0], (double)B[0][1], (double)B[2][0], (double)B[2][1]); else R = PolygonOps::ClipPolygon(PA, PB);
  LD want = interArea(A, B), ext = (ra + sc + fabs(ax - off) + fabs(ay + off)), tol = 1e-8L * ext * sc * 8 + 64 * EPS * fabsl(off) * ext; Poly r = fromP(R); LD got = r.size() < 3 ? 0 : fabsl(area2(r)) / 2;
  if (off) { LD t = 0; for (size_t i = 1; i + 1 < r.size(); i++) t += (r[i][0] - r[0][0]) * (r[i + 1][1] - r[0][1]) - (r[i][1] - r[0][1]) * (r[i + 1][0] - r[0][0]); got = fabsl(t) / 2; }
  c.nontrivial(want > 1e-6L * sc * sc && want < 0.999L * std::min(fabsl(area2(A)) / 2, area2(B) / 2)); c.label(mode == 1 ? "rectangle" : revB ? "clockwise region" : "counterclockwise region"); if (want <= 0) c.label("disjoint");
  c.say([&](auto& o) { o << "subject" << show(PA.Vertices()) << " region" << show(PB.Vertices()) << " exact area " << fmt((double)want); });
  CHECK_NEAR(got, want, tol, "area of the clipped polygon with " << r.size() << " vertices");
  bool aConv = hullL(A).size() == A.size(); /* bridges along the region's edges may leave a concave subject */ LD vt = 1e-8L * ext + 64 * EPS * fabsl(off); for (auto& v : r) { CHECK(!aConv || insideL(A, v) || edgeDist(A, v) <= vt, "vertex (" << fmt((double)v[0]) << "," << fmt((double)v[1]) << ") of the clipped polygon outside the subject"); CHECK(insideL(B, v) || edgeDist(B, v) <= vt, "vertex (" << fmt((double)v[0]) << "," << fmt((double)v[1]) << ") of the clipped polygon outside the region"); }
  for (int k = 0; k < 4; k++) { L2 q = {off + sc * (LD)s.uni(-1.2, 1.2), -off + sc * (LD)s.uni(-1.2, 1.2)}; if (edgeDist(A, q) < 10 * vt || edgeDist(B, q) < 10 * vt || (r.size() >= 3 && edgeDist(r, q) < 10 * vt)) continue; CHECK((r.size() >= 3 && insideL(r, q)) == (insideL(A, q) && insideL(B, q)), "point (" << fmt((double)q[0]) << "," << fmt((double)q[1]) << ") in exactly one of clipped polygon and intersection"); }
}
LAW(boolean_operations, 2000, 80000) {
  bool cA = s.b(), cB = s.chance(2, 3); double far = s.chance(1, 8) ? 5 : 0.7, ax = s.uni(-far, far), ay = s.uni(-far, far); Poly A = cA ? genConvex(s, 1, ax, ay, false) : genStar(s, (int)s.i(4, 9), 1, ax, ay), B = cB ? genConvex(s, 1, 0, 0, false) : genStar(s, (int)s.i(4, 9), 1, 0, 0);
  DISCARD_IF(A.size() < 3 || B.size() < 3 || fabsl(area2(A)) < 1e-3L || fabsl(area2(B)) < 1e-3L); bool ra = s.b(), rb = s.b(); Polygon2D PA = toP(A, 0, ra), PB = toP(B, 0, rb);
  bool bConv = hullL(B).size() == B.size(), aConv = hullL(A).size() == A.size(); c.nontrivial(true); c.label(bConv ? "convex region" : "general region"); c.label(ra || rb ? "clockwise operand" : "counterclockwise operands");
  c.say([&](auto& o) { o << "A" << show(PA.Vertices()) << " B" << show(PB.Vertices()); });
  auto I = PolygonOps::PolygonIntersectionApprox(PA, PB), U = PolygonOps::PolygonUnionApprox(PA, PB), Df = PolygonOps::PolygonDifferenceApprox(PA, PB);
  if (bConv || aConv) { LD want = bConv ? interArea(A, B) : interArea(B, A), got = 0; for (auto& p : I) got += fabsl(area2(fromP(p))) / 2; CHECK(I.size() <= 1, "more than one polygon");
    if (bConv) CHECK_NEAR(got, want, 1e-8L, "area of the intersection with a convex polygon"); else CHECK(got >= want - 1e-8L, "area of the hull of the intersection " << fmt((double)got) << " below the exact area " << fmt((double)want));
    if (want <= 0 && edgeDist(B, A[0]) > 1e-6L && I.empty()) { CHECK(Df.size() == 1 && fabsl(fabsl(area2(fromP(Df[0]))) - fabsl(area2(A))) < 1e-12L, "difference from a disjoint polygon is not the polygon itself"); c.label("disjoint"); } }
  if (!bConv) for (int k = 0; k < 6; k++) { L2 q = {(LD)s.uni(-1, 1), (LD)s.uni(-1, 1)}; if (edgeDist(A, q) < 1e-6L || edgeDist(B, q) < 1e-6L || !insideL(A, q) || !insideL(B, q)) continue; bool in = false; for (auto& p : I) { auto h = fromP(p); in = in || insideL(h, q) || edgeDist(h, q) < 1e-8L; } CHECK(in, "common point (" << fmt((double)q[0]) << "," << fmt((double)q[1]) << ") not in the hull of the intersection"); }
  Poly all = A; all.insert(all.end(), B.begin(), B.end()); CHECK(U.size() == 1, U.size() << " union polygons"); CHECK_NEAR(fabsl(area2(fromP(U[0]))), fabsl(area2(hullL(all))), 1e-8L, "area of the hull of the union");
}

// ---- smallest enclosing circle: reference in long double, incremental over all pairs and triples
struct Cir { LD x, y, r; };
static bool circ3(const L2& a, const L2& b, const L2& p, Cir& o) { LD bx = b[0] - a[0], by = b[1] - a[1], cx = p[0] - a[0], cy = p[1] - a[1], d = 2 * (bx * cy - by * cx); if (fabsl(d) < 1e-15L * (fabsl(bx * cy) + fabsl(by * cx)) || d == 0) return false; LD B = bx * bx + by * by, C = cx * cx + cy * cy; LD ux = (cy * B - by * C) / d, uy = (bx * C - cx * B) / d; o = {a[0] + ux, a[1] + uy, hypotl(ux, uy)}; return true; }
static Cir two(const L2& a, const L2& b) { return {(a[0] + b[0]) / 2, (a[1] + b[1]) / 2, hypotl(a[0] - b[0], a[1] - b[1]) / 2}; }
static Cir refMec(const Poly& p) { LD e = 0; for (auto& q : p) e = std::max(e, hypotl(q[0] - p[0][0], q[1] - p[0][1])); LD tol = 1e-14L * e; auto in = [&](const Cir& c, const L2& q) { return hypotl(q[0] - c.x, q[1] - c.y) <= c.r + tol; };
  Cir c{p[0][0], p[0][1], 0}; for (size_t i = 1; i < p.size(); i++) if (!in(c, p[i])) { c = {p[i][0], p[i][1], 0}; for (size_t j = 0; j < i; j++) if (!in(c, p[j])) { c = two(p[i], p[j]); for (size_t k = 0; k < j; k++) if (!in(c, p[k])) { Cir t; if (circ3(p[i], p[j], p[k], t)) c = t; } } } return c; }
LAW(smallest_circle, 4000, 200000) {
  int kind = (int)s.i(0, 5), n = s.chance(1, 12) ? (int)s.i(0, 1) : (int)s.i(2, 40); double sc = std::ldexp(1.0, (int)s.i(-50, 50)), off = s.chance(1, 4) ? sc * s.pick({50.0, -3000.0, 1e6}) : 0; int m = (int)s.i(1, 10); double dx = s.uni(-1, 1), dy = s.uni(-1, 1);
  std::vector<P2> v; for (int i = 0; i < n; i++) { double x, y; switch (kind) { case 0: x = (double)s.i(-m, m); y = (double)s.i(-m, m); break; case 1: { ll t = s.i(-m, m); x = (double)t; y = (double)(t * 2); break; } case 2: { static const int C5[12][2] = {{5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}}; int k = (int)s.i(0, 11); x = C5[k][0]; y = C5[k][1]; break; } case 3: { double t = s.uni(-1, 1); x = t * dx; y = t * dy; break; } default: x = s.uni(-1, 1); y = s.uni(-1, 1) * (kind == 5 ? 1e-3 : 1); } v.push_back(P2(x * sc + off, y * sc - off)); if (s.chance(1, 10) && i) v.back() = v[s.i(0, i - 1)]; }
  Poly p; for (auto& q : v) p.push_back({(LD)q.X(), (LD)q.Y()}); c.nontrivial(n > 2); c.label(kind == 1 || kind == 3 ? "collinear" : kind == 2 ? "cocircular" : kind == 0 ? "lattice" : "general"); c.say([&](auto& o) { o << "kind " << kind << " n " << n << show(std::vector<P2>(v.begin(), v.begin() + std::min<size_t>(12, v.size()))); });
  Circle2D g = n >= 3 && s.b() ? Circles::MinimumEnclosingCircle(Polygon2D(v)) : Circles::MinimumEnclosingCircle(v); LD cx = g.Center().X(), cy = g.Center().Y(), r = g.Radius();
  if (!n) { CHECK(r == 0, "circle of no points has radius " << fmt((double)r)); return; }
  Poly p0 = p; for (auto& q : p0) { q[0] -= p[0][0]; q[1] -= p[0][1]; } Cir w = refMec(p0); LD tol = 4e-10L * w.r + 16 * EPS * fabsl(off); // the reference is verified by the two certificates below
  for (auto& q : p) CHECK(hypotl(q[0] - cx, q[1] - cy) <= r + tol, "point (" << fmt((double)q[0]) << "," << fmt((double)q[1]) << ") is " << fmt((double)(hypotl(q[0] - cx, q[1] - cy) - r)) << " outside the circle at (" << fmt((double)cx) << "," << fmt((double)cy) << ") of radius " << fmt((double)r));
  CHECK(r <= w.r * (1 + 1e-9L) + tol, "radius " << fmt((double)r) << " but a circle of radius " << fmt((double)w.r) << " suffices");
}
LAW(closest_pair, 4000, 200000) {
  int kind = (int)s.i(0, 4), n = s.chance(1, 12) ? (int)s.i(0, 3) : (int)s.i(2, 70), m = (int)s.i(3, 300); double sc = std::ldexp(1.0, (int)s.i(-30, 30)); std::vector<P2> v;
  for (int i = 0; i < n; i++) { double x = (double)s.i(-m, m), y = (double)s.i(-m, m); if (kind == 1) x = (double)s.i(-1, 1); if (kind == 2) y = 0; if (kind >= 3) { x = s.uni(-1, 1); y = s.uni(-1, 1); } v.push_back(P2(x * sc, y * sc)); }
  auto r = Circles::ClosestPair(v); c.nontrivial(n > 4); c.label(kind == 1 ? "three columns" : kind == 2 ? "on a line" : kind >= 3 ? "general" : "lattice"); c.say([&](auto& o) { o << n << " points, kind " << kind; });
  if (n < 2) { CHECK(r.distance == std::numeric_limits<double>::max(), "distance " << fmt(r.distance) << " for " << n << " points"); return; }
  double best = INFINITY; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) best = std::min(best, v[i].Dist(v[j])); CHECK(r.distance == best, "closest pair at " << fmt(r.distance) << " but brute force has " << fmt(best));
  CHECK(r.p1.Dist(r.p2) == best, "reported points are " << fmt(r.p1.Dist(r.p2)) << " apart"); int f1 = 0, f2 = 0; for (auto& q : v) { f1 += q.X() == r.p1.X() && q.Y() == r.p1.Y(); f2 += q.X() == r.p2.X() && q.Y() == r.p2.Y(); } CHECK(f1 && f2 && (best > 0 || f1 > 1), "reported points are not two of the given ones");
}
