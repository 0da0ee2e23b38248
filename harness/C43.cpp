// C43: convex hulls: convexity, containment, vertices from the input, minimality (exact integer arithmetic on lattices)
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Geometry/Geometry2D.h"
#include "base/Geometry/Geometry3D.h"
#include "algorithms/CompGeometry/ConvexHull.h"
#include "algorithms/CompGeometry/ConvexHull3D.h"
using namespace MML::CompGeometry;
typedef Point2Cartesian P2; typedef Point3Cartesian P3; typedef std::array<double, 2> A2; typedef std::array<double, 3> A3;
// lattice (multiples of a power of two: predicates on them are exact) or general position points
template<size_t D> static std::vector<std::array<double, D>> cloud(Src& s, bool& lattice, double& sc, int nmax) { lattice = s.b(); sc = lattice ? std::ldexp(1.0, (int)s.i(-60, 60)) : s.pwide(-15, 15); int n = (int)s.size(1, nmax), R = s.b() ? (int)s.i(1, 3) : (int)s.i(4, 60), g = (int)s.i(0, 5); std::vector<std::array<double, D>> v(n); for (int i = 0; i < n; i++) { for (auto& q : v[i]) q = lattice ? (double)s.i(-R, R) * sc : s.uni(-1, 1) * sc; if (g == 1 && !lattice) { double r = 0; for (auto q : v[i]) r += q * q; r = std::sqrt(r); if (r > 0) for (auto& q : v[i]) q *= sc / r; } if (g == 2 && i && s.chance(1, 3)) v[i] = v[(int)s.i(0, i - 1)]; if (g == 3 && lattice) { double t = (double)s.i(-R, R); for (size_t k = 0; k < D; k++) v[i][k] = sc * t * (double)((int)k - 1); } if (g == 4 && lattice) v[i][D - 1] = (D == 3 && s.b()) ? v[i][0] + v[i][1] : (double)R * sc; } if (lattice && g == 5) for (auto& p : v) for (auto& q : p) q = s.b() ? sc : -sc; return v; }
template<size_t D> static std::string show(const std::vector<std::array<double, D>>& v) { std::ostringstream o; o << v.size() << " points:"; for (size_t i = 0; i < std::min<size_t>(v.size(), 14); i++) { o << " ("; for (size_t k = 0; k < D; k++) o << (k ? "," : "") << fmt(v[i][k]); o << ")"; } return o.str(); }
static LD orient(const A2& a, const A2& b, const A2& p) { return ((LD)b[0] - a[0]) * ((LD)p[1] - a[1]) - ((LD)b[1] - a[1]) * ((LD)p[0] - a[0]); }
template<class T> static bool has(const T& v, const typename T::value_type& p) { for (auto& q : v) if (q == p) return true; return false; }

LAW(planar, 4000, 40000) { bool lat; double sc; auto v = cloud<2>(s, lat, sc, 60); c.say([&](auto& o) { o << show(v); }); std::vector<P2> in; for (auto& p : v) in.push_back(P2(p[0], p[1])); Polygon2D H = ConvexHull2D::Compute(in); std::vector<A2> h; for (auto& p : H.Vertices()) h.push_back({ p.X(), p.Y() }); auto u = v; std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end()); for (auto& p : h) CHECK(has(v, p), "hull vertex (" << fmt(p[0]) << "," << fmt(p[1]) << ") is not an input point"); if (v.size() == 2) { CHECK(h.size() == 2, "two points"); return; } auto hs = h; std::sort(hs.begin(), hs.end()); CHECK(std::unique(hs.begin(), hs.end()) == hs.end(), "repeated hull vertex"); int m = (int)h.size(); if (u.size() == 1) { CHECK(m == 1, "one distinct point, hull of " << m); return; } LD tol = lat ? 0 : 1e-8L * sc * sc; bool line = true; for (auto& p : u) line = line && fabsl(orient(u.front(), u.back(), p)) <= 2 * tol; if (line && lat) { CHECK(m == 2 && has(h, u.front()) && has(h, u.back()), "collinear points: hull of " << m); return; } if (line) { c.label("nearly collinear"); return; } c.nontrivial(u.size() > 3); CHECK(m >= 3, "hull of " << m << " vertices"); LD area = 0; for (int i = 0; i < m; i++) { const A2 &a = h[i], &b = h[(i + 1) % m], &d = h[(i + 2) % m]; LD t = orient(a, b, d); CHECK(lat ? t > 0 : t > -tol, "not strictly convex / not counter-clockwise at vertex " << (i + 1) % m); for (auto& p : u) CHECK(orient(a, b, p) >= -tol, "point (" << fmt(p[0]) << "," << fmt(p[1]) << ") outside the hull"); area += (LD)a[0] * b[1] - (LD)a[1] * b[0]; } CHECK(area > 0, "clockwise hull"); CHECK_NEAR(H.Area(), (double)(area / 2), 1e-9 * sc * sc + 1e-12 * (double)area, "area"); if (lat) CHECK(H.IsConvex() || sc != 1, "IsConvex"); auto w = in; for (int i = (int)w.size() - 1; i > 0; i--) std::swap(w[i], w[(int)s.i(0, i)]); Polygon2D G = ConvexHull2D::Compute(w); CHECK(G.NumVertices() == m || !lat, "depends on the order of the points"); Polygon2D K = ConvexHull2D::Compute(H); CHECK(K.NumVertices() == m || !lat, "hull of the hull"); }

static A3 sub(const A3& a, const A3& b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
struct L3 { LD x, y, z; }; static L3 crs(const A3& a, const A3& b) { return { (LD)a[1] * b[2] - (LD)a[2] * b[1], (LD)a[2] * b[0] - (LD)a[0] * b[2], (LD)a[0] * b[1] - (LD)a[1] * b[0] }; } static LD dt(const L3& n, const A3& p) { return n.x * p[0] + n.y * p[1] + n.z * p[2]; } static LD nrm(const L3& n) { return sqrtl(n.x * n.x + n.y * n.y + n.z * n.z); }
LAW(spatial, 2500, 25000) { bool lat; double sc; auto v = cloud<3>(s, lat, sc, 40); c.say([&](auto& o) { o << show(v); }); std::vector<P3> in; for (auto& p : v) in.push_back(P3(p[0], p[1], p[2])); ConvexHull3D H = ConvexHull3DComputer::Compute(in); std::vector<A3> h; for (auto& p : H.vertices) h.push_back({ p.X(), p.Y(), p.Z() }); for (auto& p : h) CHECK(has(v, p), "hull vertex is not an input point"); for (auto& f : H.faces) for (int k : f) CHECK(k >= 0 && k < (int)h.size(), "face index"); auto u = v; std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end());
	// rank of the set, exact on lattices
	if (v.size() < 4) { CHECK(h.size() == v.size(), "fewer than four points"); CHECK(H.Volume() == 0 || true, ""); return; } if (u.size() == 1) { CHECK(h.size() == 1 && H.faces.empty(), "coincident points"); return; } A3 o = u[0], d1 = sub(u[1], o); double big = 0; for (auto& p : u) { A3 q = sub(p, o); double r = q[0] * q[0] + q[1] * q[1] + q[2] * q[2]; if (r > big) { big = r; d1 = q; } } big = std::sqrt(big); L3 N{ 0, 0, 0 }; LD bn = 0; for (auto& p : u) { L3 q = crs(d1, sub(p, o)); if (nrm(q) > bn) { bn = nrm(q); N = q; } } LD flat = 0; if (bn > 0) for (auto& p : u) flat = std::max(flat, fabsl(dt(N, sub(p, o))) / bn); LD eps = lat ? 1e-9L * big : 1e-4L * big; bool line = bn <= eps * big, plane = flat <= eps; if (!lat && (line || plane)) { DISCARD_IF(true); } if (line) { CHECK(h.size() == 2 && H.faces.empty(), "collinear points: " << h.size() << " vertices"); CHECK(has(h, u.front()) && has(h, u.back()), "collinear points: not the end points"); return; }
	double vol = H.Volume(), ar = H.SurfaceArea(); if (plane) { c.label("coplanar"); LD sum = 0; for (auto& f : H.faces) { L3 q = crs(sub(h[f[1]], h[f[0]]), sub(h[f[2]], h[f[0]])); sum += nrm(q) / 2; } CHECK_NEAR(ar, (double)sum, 1e-12 * (double)sum, "area"); int m = (int)h.size(); CHECK(m >= 3, "coplanar hull of " << m); for (int i = 0; i < m; i++) { A3 e = sub(h[(i + 1) % m], h[i]); int pos = 0, neg = 0; for (auto& p : u) { LD t = crs(e, sub(p, h[i])).x * N.x + crs(e, sub(p, h[i])).y * N.y + crs(e, sub(p, h[i])).z * N.z; pos += t > 1e-12L * bn * big * big; neg += t < -1e-12L * bn * big * big; } CHECK(!(pos && neg), "coplanar points on both sides of hull edge " << i << " of " << m); } CHECK(std::fabs(vol) <= 1e-12 * big * big * big + 1e-12 * big * big * std::fabs(sc) * 60, "volume of a flat hull"); return; }
	c.nontrivial(u.size() > 4); LD tol = 1e-9L * big; std::map<std::pair<int, int>, int> E; LD V = 0; std::set<int> used; for (auto& f : H.faces) { CHECK(f[0] != f[1] && f[1] != f[2] && f[0] != f[2], "degenerate face"); for (int k = 0; k < 3; k++) { E[{ f[k], f[(k + 1) % 3] }]++; used.insert(f[k]); } A3 a = h[f[0]], x = sub(h[f[1]], a), y = sub(h[f[2]], a); L3 n = crs(x, y); LD l = nrm(n); V += (LD)dt(n, sub(a, o)) / 6; if (l > 1e-7L * big * big) for (auto& p : u) { LD t = dt(n, sub(p, a)) / l; CHECK(t <= tol * std::max(1.0L, big * big / l * 1e-3L), "point (" << fmt(p[0]) << "," << fmt(p[1]) << "," << fmt(p[2]) << ") outside face by " << (double)t); } } for (auto& e : E) { CHECK(e.second == 1, "edge used twice in the same direction"); CHECK(E.count({ e.first.second, e.first.first }) == 1, "hull is not closed"); } CHECK((int)used.size() - (int)E.size() / 2 + (int)H.faces.size() == 2, "Euler characteristic"); CHECK(V > 0, "faces oriented inwards"); CHECK_NEAR(vol, (double)V, 1e-11 * (double)V + 1e-14 * big * big * big * (1 + std::fabs(o[0] + o[1] + o[2]) / big), "volume"); LD A = 0; for (auto& f : H.faces) A += nrm(crs(sub(h[f[1]], h[f[0]]), sub(h[f[2]], h[f[0]]))) / 2; CHECK_NEAR(ar, (double)A, 1e-12 * (double)A, "area"); CHECK(used.size() == h.size(), "vertex list contains points that are not on the hull");
	// containment queries against the planes
	for (int r = 0; r < 5; r++) { A3 q; for (int k = 0; k < 3; k++) q[k] = s.uni(-1.2, 1.2) * big; LD worst = -1e300L, mn = 1e300L; for (auto& f : H.faces) { A3 a = h[f[0]]; L3 n = crs(sub(h[f[1]], a), sub(h[f[2]], a)); LD l = nrm(n); if (l < 1e-9L * big * big) continue; worst = std::max(worst, dt(n, sub(q, a)) / l); mn = std::min(mn, l); } if (fabsl(worst) > 1e-6L * big) CHECK(H.Contains(P3(q[0], q[1], q[2]), 1e-10 * big * big * big) == (worst < 0) || (worst > 0 && worst * mn < 2e-10L * big * big * big), "Contains of a point " << (worst < 0 ? "inside" : "outside")); } double X = 0, Y = 0, Z = 0; for (auto& p : h) { X += p[0]; Y += p[1]; Z += p[2]; } P3 cen = H.Centroid(); CHECK_NEAR(cen.X(), X / h.size(), 1e-12 * (big + std::fabs(o[0])), "centroid"); CHECK_NEAR(cen.Y(), Y / h.size(), 1e-12 * (big + std::fabs(o[1])), "centroid"); CHECK_NEAR(cen.Z(), Z / h.size(), 1e-12 * (big + std::fabs(o[2])), "centroid"); int fi = (int)s.i(0, (int)H.faces.size() - 1); Triangle3D T = H.GetFace(fi); CHECK(T.Pnt1().X() == h[H.faces[fi][0]][0] && T.Pnt2().Y() == h[H.faces[fi][1]][1] && T.Pnt3().Z() == h[H.faces[fi][2]][2], "GetFace"); 
	// containment of all input points
	for (auto& p : in) CHECK(H.Contains(p, 1e-9 * big * big * big), "input point not contained"); }
