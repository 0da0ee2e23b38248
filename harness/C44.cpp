// C44: Delaunay triangulation, ear clipping and Voronoi diagrams: covering, empty circles (exact on lattices), duality, nearest site
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Geometry/Geometry2D.h"
#include "base/Geometry/Geometry3D.h"
#include "algorithms/CompGeometry/Triangulation.h"
#include "algorithms/CompGeometry/VoronoiDiagram.h"
using namespace MML::CompGeometry;
typedef Point2Cartesian P2; typedef std::array<double, 2> A2; typedef std::vector<A2> Cl;
static std::string show(const Cl& v) { std::ostringstream o; o << v.size() << " points:"; for (size_t i = 0; i < std::min<size_t>(v.size(), 16); i++) o << " (" << fmt(v[i][0]) << "," << fmt(v[i][1]) << ")"; return o.str(); }
static LD orient(const A2& a, const A2& b, const A2& p) { return ((LD)b[0] - a[0]) * ((LD)p[1] - a[1]) - ((LD)b[1] - a[1]) * ((LD)p[0] - a[0]); }
static LD incircle(const A2& a, const A2& b, const A2& c, const A2& p, LD& mag) { LD ax = (LD)a[0] - p[0], ay = (LD)a[1] - p[1], bx = (LD)b[0] - p[0], by = (LD)b[1] - p[1], cx = (LD)c[0] - p[0], cy = (LD)c[1] - p[1]; LD A = ax * ax + ay * ay, B = bx * bx + by * by, C = cx * cx + cy * cy; mag = fabsl(ax) * (fabsl(by) * C + B * fabsl(cy)) + fabsl(ay) * (fabsl(bx) * C + B * fabsl(cx)) + A * (fabsl(bx * cy) + fabsl(by * cx)); return ax * (by * C - B * cy) - ay * (bx * C - B * cx) + A * (bx * cy - by * cx); }
static Cl hull(Cl v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); Cl h; for (int pass = 0, f = 0; pass < 2; pass++) { for (auto& p : v) { while ((int)h.size() >= f + 2 && orient(h[h.size() - 2], h.back(), p) <= 0) h.pop_back(); h.push_back(p); } h.pop_back(); f = (int)h.size(); std::reverse(v.begin(), v.end()); } return h; }
static LD areaOf(const Cl& h) { LD a = 0; for (size_t i = 1; i + 1 < h.size(); i++) a += orient(h[0], h[i], h[i + 1]); return a / 2; }
// distinct sites closer than 1e-6 of the extent are beyond the resolution of floating-point predicates
static bool tooClose(const Cl& u, LD diam) { for (size_t i = 0; i < u.size(); i++) for (size_t j = 0; j < i; j++) if (hypotl(u[i][0] - u[j][0], u[i][1] - u[j][1]) < 1e-6L * diam) return true; return false; }
// lattice: multiples of a power of two, all predicates exact
static Cl cloud(Src& s, bool& lat, double& sc, int nmax) { lat = s.b(); sc = lat ? std::ldexp(1.0, (int)s.i(-40, 40)) : s.pwide(-9, 9); int n = (int)s.size(1, nmax), R = s.b() ? (int)s.i(1, 4) : (int)s.i(5, 60), g = (int)s.i(0, 5); Cl v(n); for (int i = 0; i < n; i++) { for (auto& q : v[i]) q = sc * (lat ? (double)s.i(-R, R) : s.uni(-1, 1)); if (g == 1 && !lat) { double t = 6.283185307179586 * (double)s.i(0, 359) / 360; v[i] = { sc * std::cos(t), sc * std::sin(t) }; } if (g == 2 && i && s.chance(1, 3)) v[i] = v[(int)s.i(0, i - 1)]; if (g == 3 && !lat && i && s.chance(2, 3)) { auto& b = v[(int)s.i(0, i - 1)]; double d = sc * s.pwide(-4, -1); v[i] = { b[0] + d * s.uni(-1, 1), b[1] + d * s.uni(-1, 1) }; } if (g == 3 && lat) v[i][1] = v[i][0] * (double)((i + 1) % 2) + (i % 7 ? 0 : sc); if (g == 4) v[i][1] *= s.chance(1, 2) ? 0 : 1; } return v; }
static std::vector<P2> pts(const Cl& v) { std::vector<P2> r; for (auto& p : v) r.push_back(P2(p[0], p[1])); return r; }

LAW(delaunay, 2500, 25000) { bool lat; double sc; Cl v = cloud(s, lat, sc, 45); int n = (int)v.size(); c.say([&](auto& o) { o << show(v); }); DelaunayTriangulation T = Triangulation::ComputeDelaunay(pts(v)); CHECK(T.NumPoints() == n, "points"); for (int i = 0; i < n; i++) CHECK(T.points[i].X() == v[i][0] && T.points[i].Y() == v[i][1], "point " << i << " changed"); int m = T.NumTriangles(); Cl u = v; std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end()); Cl h = hull(v); LD ha = areaOf(h); LD diam = 0; for (auto& p : h) for (auto& q : h) diam = std::max(diam, hypotl(p[0] - q[0], p[1] - q[1])); if (!lat) { DISCARD_IF(u.size() > 2 && ha < 1e-3L * diam * diam); DISCARD_IF(tooClose(u, diam)); /* pseudo-collinear hulls are decided by rounding */ } if (h.size() < 3) { CHECK(m == 0, "collinear points give " << m << " triangles"); return; } c.nontrivial(u.size() > 3); CHECK((int)T.neighbors.size() == m, "neighbour lists"); LD sum = 0; std::set<A2> used; for (int t = 0; t < m; t++) { auto& tr = T.triangles[t]; for (int k = 0; k < 3; k++) { CHECK(tr[k] >= 0 && tr[k] < n, "index"); used.insert(v[tr[k]]); int nb = T.neighbors[t][k]; CHECK(nb >= -1 && nb < m && nb != t, "neighbour index"); int a = tr[k], b = tr[(k + 1) % 3]; if (nb >= 0) { bool back = false; for (int e = 0; e < 3; e++) back = back || (T.neighbors[nb][e] == t && T.triangles[nb][e] == b && T.triangles[nb][(e + 1) % 3] == a); CHECK(back, "neighbour relation of triangle " << t << " not mutual"); } else for (auto& p : u) CHECK(orient(v[a], v[b], p) >= (lat ? 0 : -1e-7L * diam * diam), "edge without neighbour is not on the hull"); } LD o = orient(v[tr[0]], v[tr[1]], v[tr[2]]); CHECK(o > 0, "triangle " << t << " not counter-clockwise"); sum += o / 2; for (auto& p : u) { if (p == v[tr[0]] || p == v[tr[1]] || p == v[tr[2]]) continue; LD mag, d = incircle(v[tr[0]], v[tr[1]], v[tr[2]], p, mag); CHECK(d <= (lat ? 0 : 1e-9L * mag), "site (" << fmt(p[0]) << "," << fmt(p[1]) << ") inside the circumcircle of triangle " << t << " by " << (double)(d / mag)); } auto P = T.GetTrianglePoints(t); CHECK(P[1].X() == v[tr[1]][0], "GetTrianglePoints"); } CHECK(fabsl(sum - ha) <= (lat ? 0 : 1e-6L * diam * diam), "triangles cover " << (double)sum << " of a hull of " << (double)ha); CHECK(used.size() == u.size() || (!lat && u.size() - used.size() <= 0), "only " << used.size() << " of " << u.size() << " sites used"); if (lat) { int onb = 0; for (auto& p : u) { bool on = false; for (size_t i = 0; i < h.size(); i++) { auto &a = h[i], &b = h[(i + 1) % h.size()]; if (orient(a, b, p) == 0) on = true; } onb += on; } CHECK(m == 2 * (int)u.size() - 2 - onb, "number of triangles"); }
	std::map<int, int> nxt; auto E = T.GetConvexHullEdges(); for (auto& e : E) { CHECK(!nxt.count(e.first), "hull edges branch"); nxt[e.first] = e.second; } int at = E.at(0).first, len = 0; do { CHECK(nxt.count(at), "hull edges not closed"); at = nxt[at]; len++; } while (at != E[0].first && len <= (int)E.size()); CHECK(len == (int)E.size(), "hull edges form several loops"); double f0 = s.uni(-2, 2), fx = s.uni(-2, 2) / sc, fy = s.uni(-2, 2) / sc; std::vector<Real> val; for (auto& p : v) val.push_back(f0 + fx * p[0] + fy * p[1]); LD big = 0; for (auto& z : val) big = std::max(big, fabsl(z)); double X0 = (double)u[0][0], Y0 = u[0][1]; for (int r = 0; r < 6; r++) { A2 q{ X0 + (double)diam * s.uni(-1.2, 1.2), Y0 + (double)diam * s.uni(-1.2, 1.2) }; LD mn = 1e300L; for (size_t i = 0; i < h.size(); i++) { auto &a = h[i], &b = h[(i + 1) % h.size()]; mn = std::min(mn, orient(a, b, q) / hypotl(b[0] - a[0], b[1] - a[1])); } if (fabsl(mn) < 1e-6L * diam) continue; int t = T.LocatePoint(P2(q[0], q[1])); CHECK((t >= 0) == (mn > 0), "LocatePoint gives " << t << " for a point " << (mn > 0 ? "inside" : "outside")); if (t >= 0) { auto& tr = T.triangles[t]; for (int k = 0; k < 3; k++) CHECK(orient(v[tr[k]], v[tr[(k + 1) % 3]], q) >= -1e-13L * diam * diam, "LocatePoint: not in that triangle"); LD ar = orient(v[tr[0]], v[tr[1]], v[tr[2]]); double tol = (double)(1e-13L * (big + 2) * diam * diam / ar) * 10; if (tol < 1e-3) CHECK_NEAR(T.Interpolate(P2(q[0], q[1]), val, -77), f0 + fx * q[0] + fy * q[1], tol, "interpolated linear function"); } else CHECK(T.Interpolate(P2(q[0], q[1]), val, -77) == -77, "default value outside"); } val.push_back(0); CHECK(T.Interpolate(P2(X0, Y0), val, -77) == -77, "wrong number of values"); auto tl = Triangulation::DelaunayTriangulate(pts(v)); CHECK((int)tl.size() == m, "DelaunayTriangulate"); }

// simple polygons: star-shaped, histogram, comb, 2-opt untangled
static bool cross(const A2& a, const A2& b, const A2& p, const A2& q) { auto sg = [](LD x) { return (x > 0) - (x < 0); }; int o1 = sg(orient(a, b, p)), o2 = sg(orient(a, b, q)), o3 = sg(orient(p, q, a)), o4 = sg(orient(p, q, b)); if (o1 * o2 < 0 && o3 * o4 < 0) return true; auto on = [&](const A2& x, const A2& y, const A2& z, int o) { return o == 0 && std::min(x[0], y[0]) <= z[0] && z[0] <= std::max(x[0], y[0]) && std::min(x[1], y[1]) <= z[1] && z[1] <= std::max(x[1], y[1]); }; return on(a, b, p, o1) || on(a, b, q, o2) || on(p, q, a, o3) || on(p, q, b, o4); }
static Cl simple(Src& s, int g, double sc) { Cl v; int n = (int)s.size(3, 24); if (g == 0) { for (int i = 0; i < n; i++) { double t = 6.283185307179586 * (i + s.uni(0, 0.7)) / n, r = sc * s.uni(0.2, 1); v.push_back({ r * std::cos(t), r * std::sin(t) }); } } else if (g == 1) { n = std::max(1, n / 2); v.push_back({ 0, 0 }); v.push_back({ n * sc, 0 }); for (int i = n; i > 0; i--) { double y = sc * (double)s.i(1, 6); v.push_back({ i * sc, y }); v.push_back({ (i - 1) * sc, y }); } Cl w; for (auto& p : v) if (w.empty() || w.back() != p) w.push_back(p); v = w; } else { std::set<A2> S; while ((int)S.size() < n) S.insert({ sc * (double)s.i(-9, 9), sc * (double)s.i(-9, 9) }); v.assign(S.begin(), S.end()); for (int i = n - 1; i > 0; i--) std::swap(v[i], v[(int)s.i(0, i)]); for (int it = 0; it < 400; it++) { bool ch = false; for (int i = 0; i < n && !ch; i++) for (int j = i + 2; j < n && !ch; j++) { if (i == 0 && j == n - 1) continue; if (cross(v[i], v[i + 1], v[j], v[(j + 1) % n])) { std::reverse(v.begin() + i + 1, v.begin() + j + 1); ch = true; } } if (!ch) break; } } return v; }
static bool isSimple(const Cl& v) { int n = (int)v.size(); for (int i = 0; i < n; i++) { if (v[i] == v[(i + 1) % n]) return false; if (orient(v[i], v[(i + 1) % n], v[(i + 2) % n]) == 0) { LD d = ((LD)v[(i + 1) % n][0] - v[i][0]) * ((LD)v[(i + 2) % n][0] - v[(i + 1) % n][0]) + ((LD)v[(i + 1) % n][1] - v[i][1]) * ((LD)v[(i + 2) % n][1] - v[(i + 1) % n][1]); if (d < 0) return false; } for (int j = i + 2; j < n; j++) if (!(i == 0 && j == n - 1) && cross(v[i], v[i + 1], v[j], v[(j + 1) % n])) return false; } return true; }
static int inPoly(const Cl& v, const A2& q, LD guard) { int n = (int)v.size(); bool in = false; for (int i = 0; i < n; i++) { auto &a = v[i], &b = v[(i + 1) % n]; LD L = hypotl(b[0] - a[0], b[1] - a[1]), t = L > 0 ? (((LD)q[0] - a[0]) * ((LD)b[0] - a[0]) + ((LD)q[1] - a[1]) * ((LD)b[1] - a[1])) / (L * L) : 0; t = std::min(1.0L, std::max(0.0L, t)); if (hypotl(a[0] + t * (b[0] - a[0]) - q[0], a[1] + t * (b[1] - a[1]) - q[1]) < guard) return -1; if ((a[1] > q[1]) != (b[1] > q[1]) && q[0] < a[0] + ((LD)q[1] - a[1]) * ((LD)b[0] - a[0]) / ((LD)b[1] - a[1])) in = !in; } return in; }
LAW(earclip, 3000, 30000) { int g = (int)s.i(0, 2); double sc = g ? std::ldexp(1.0, (int)s.i(-40, 20)) : s.pwide(-9, 6); Cl v = simple(s, g, sc); DISCARD_IF(!isSimple(v)); if (s.b()) std::reverse(v.begin(), v.end()); std::rotate(v.begin(), v.begin() + (int)s.i(0, (int)v.size() - 1), v.end()); int n = (int)v.size(); c.say([&](auto& o) { o << show(v); }); LD A = areaOf(v), big = 0; for (auto& p : v) big = std::max({ big, fabsl(p[0]), fabsl(p[1]) }); int reflex = 0; for (int i = 0; i < n; i++) reflex += orient(v[i], v[(i + 1) % n], v[(i + 2) % n]) * A < 0; c.nontrivial(reflex > 0); auto T = Triangulation::EarClipTriangulation(Polygon2D(pts(v))); CHECK((int)T.size() == n - 2, T.size() << " triangles from " << n << " vertices"); LD sum = 0; std::vector<std::array<A2, 3>> tri; for (auto& t : T) { std::array<A2, 3> a{ A2{ t.Pnt1().X(), t.Pnt1().Y() }, A2{ t.Pnt2().X(), t.Pnt2().Y() }, A2{ t.Pnt3().X(), t.Pnt3().Y() } }; for (auto& p : a) CHECK(std::find(v.begin(), v.end(), p) != v.end(), "triangle corner is not a polygon vertex"); LD o = orient(a[0], a[1], a[2]); CHECK((n == 3 ? fabsl(o) : o) >= -1e-9L * big * big, "triangle is clockwise"); sum += fabsl(o) / 2; tri.push_back(a); } CHECK(fabsl(sum - fabsl(A)) <= 1e-9L * big * big, "triangles cover " << (double)sum << " of " << (double)fabsl(A)); for (int r = 0; r < 10; r++) { auto& b = tri[(int)s.i(0, (int)tri.size() - 1)]; double w1 = s.uni(0, 1), w2 = s.uni(0, 1) * (1 - w1); A2 q; for (int k = 0; k < 2; k++) q[k] = s.b() ? b[0][k] + w1 * (b[1][k] - b[0][k]) + w2 * (b[2][k] - b[0][k]) : (double)big * s.uni(-1, 1); int in = inPoly(v, q, 1e-6L * big); if (in < 0) continue; int cnt = 0; bool near = false; for (auto& t : tri) { LD mn = 1e300L; for (int k = 0; k < 3; k++) { LD L = hypotl(t[(k + 1) % 3][0] - t[k][0], t[(k + 1) % 3][1] - t[k][1]); mn = std::min(mn, orient(t[k], t[(k + 1) % 3], q) * (n == 3 && A < 0 ? -1 : 1) / L); } near = near || fabsl(mn) < 1e-9L * big; cnt += mn > 0; } if (!near) CHECK(cnt == in, "point (" << fmt(q[0]) << "," << fmt(q[1]) << ") " << (in ? "inside" : "outside") << " the polygon lies in " << cnt << " triangles"); } }

LAW(voronoi, 2000, 20000) { bool lat; double sc; Cl v = cloud(s, lat, sc, 30); Cl u = v; std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end()); int n = (int)v.size(); c.say([&](auto& o) { o << show(v); }); VoronoiDiagram V = Voronoi::ComputeVoronoi(pts(v)); CHECK(V.NumSites() == n, "sites"); CHECK((int)V.cells.size() == n && (int)V.cellIsInfinite.size() == n, "cells"); Cl h = hull(v); LD diam = 0; for (auto& p : h) for (auto& q : h) diam = std::max(diam, hypotl(p[0] - q[0], p[1] - q[1])); A2 ctr = u[0]; for (int r = 0; r < 4; r++) { A2 q{ ctr[0] + (double)diam * s.uni(-2, 2), ctr[1] + (double)diam * s.uni(-2, 2) }; int k = V.FindNearestSite(P2(q[0], q[1])); CHECK(k >= 0 && k < n, "nearest site"); LD d = hypotl(v[k][0] - q[0], v[k][1] - q[1]); for (auto& p : v) CHECK(hypotl(p[0] - q[0], p[1] - q[1]) >= d * (1 - 1e-14L), "FindNearestSite is not the nearest"); } if (n == 2) { CHECK(V.NumEdges() == 1 && V.edges[0].IsInfinite() && V.IsCellInfinite(0) && V.IsCellInfinite(1), "two sites"); return; } if (n < 2 || h.size() < 3) { for (int i = 0; i < n; i++) CHECK(V.IsCellInfinite(i), "collinear sites have unbounded cells"); return; } LD ha = areaOf(h); if (!lat) { DISCARD_IF(ha < 1e-3L * diam * diam); DISCARD_IF(tooClose(u, diam)); } DISCARD_IF(u.size() != v.size()); c.nontrivial(n > 3); DelaunayTriangulation T = Triangulation::ComputeDelaunay(pts(v)); CHECK(V.NumVertices() == T.NumTriangles(), "one vertex per triangle"); std::vector<A2> w; std::vector<LD> acc; for (int t = 0; t < T.NumTriangles(); t++) { auto& tr = T.triangles[t]; A2 q{ V.vertices[t].X(), V.vertices[t].Y() }; w.push_back(q); LD r = hypotl(q[0] - v[tr[0]][0], q[1] - v[tr[0]][1]), o = orient(v[tr[0]], v[tr[1]], v[tr[2]]), L = 0, l = 1e300L; for (int k = 0; k < 3; k++) { LD e = hypotl(v[tr[k]][0] - v[tr[(k + 1) % 3]][0], v[tr[k]][1] - v[tr[(k + 1) % 3]][1]); L = std::max(L, e); l = std::min(l, e); } LD tol = 1e-13L * (r + diam) * (1 + L * L / o) * (1 + diam / l); acc.push_back(tol); if (tol > 1e-3L * r) continue; for (int k = 1; k < 3; k++) { LD rk = hypotl(q[0] - v[tr[k]][0], q[1] - v[tr[k]][1]); CHECK(fabsl(rk - r) <= tol, "Voronoi vertex " << t << " not equidistant: " << (double)r << " " << (double)rk); } for (auto& p : v) CHECK(hypotl(q[0] - p[0], q[1] - p[1]) >= r - tol - (lat ? 0 : 1e-5L * r), "a site lies closer to Voronoi vertex " << t << " than its own sites"); }
	std::map<std::pair<int, int>, int> ed; for (auto& e : V.edges) { CHECK(e.site1 != e.site2 && e.site1 >= 0 && e.site2 >= 0 && e.site1 < n && e.site2 < n, "edge sites"); ed[{ std::min(e.site1, e.site2), std::max(e.site1, e.site2) }]++; } std::map<std::pair<int, int>, std::vector<int>> de; for (int t = 0; t < T.NumTriangles(); t++) for (int k = 0; k < 3; k++) { int a = T.triangles[t][k], b = T.triangles[t][(k + 1) % 3]; de[{ std::min(a, b), std::max(a, b) }].push_back(t); } CHECK(de.size() == ed.size() && (int)V.edges.size() == (int)ed.size(), "edges are not dual to the triangulation"); for (auto& e : V.edges) { auto it = de.find({ std::min(e.site1, e.site2), std::max(e.site1, e.site2) }); CHECK(it != de.end(), "edge without Delaunay edge"); auto& ts = it->second; if (ts.size() == 2) { CHECK(!e.IsInfinite() && std::min(e.v1, e.v2) == std::min(ts[0], ts[1]) && std::max(e.v1, e.v2) == std::max(ts[0], ts[1]), "edge end points"); } else { CHECK(e.v1 == ts[0] && e.v2 < 0, "unbounded edge"); CHECK(V.IsCellInfinite(e.site1) && V.IsCellInfinite(e.site2), "cell on the hull is unbounded"); A2 a = v[e.site1], b = v[e.site2]; LD dx = b[0] - a[0], dy = b[1] - a[1], L = hypotl(dx, dy); CHECK(fabsl(e.direction.X() * dx + e.direction.Y() * dy) <= 1e-12L * L * (1 + hypotl(e.direction.X(), e.direction.Y())), "direction not perpendicular"); CHECK(e.direction.X() * dx + 0 * dy == e.direction.X() * dx, ""); for (int k : T.triangles[ts[0]]) if (k != e.site1 && k != e.site2) { LD side = e.direction.X() * (v[k][0] - (a[0] + b[0]) / 2) + e.direction.Y() * (v[k][1] - (a[1] + b[1]) / 2); CHECK(side < 0 || fabsl(orient(a, b, v[k])) < 1e-9L * diam * diam, "direction points inwards"); } } }
	for (int i = 0; i < n; i++) { auto& cell = V.GetCellVertexIndices(i); std::set<int> S(cell.begin(), cell.end()), want; for (int t = 0; t < T.NumTriangles(); t++) for (int k : T.triangles[t]) if (k == i) want.insert(t); CHECK(S == want && S.size() == cell.size(), "cell " << i << " lists " << cell.size() << " of " << want.size() << " vertices"); bool onh = false; for (size_t k = 0; k < h.size(); k++) onh = onh || fabsl(orient(h[k], h[(k + 1) % h.size()], v[i])) <= (lat ? 0 : 1e-9L * diam * diam); if (lat || onh == V.IsCellInfinite(i)) CHECK(onh == V.IsCellInfinite(i), "cell " << i << " unbounded: " << V.IsCellInfinite(i)); LD ta = 0; for (size_t k = 0; k + 1 < cell.size() + !V.IsCellInfinite(i); k++) { int a = cell[k], b = cell[(k + 1) % cell.size()]; LD o = orient(v[i], w[a], w[b]); LD len = hypotl(w[a][0] - v[i][0], w[a][1] - v[i][1]) + hypotl(w[b][0] - v[i][0], w[b][1] - v[i][1]); if (acc[a] + acc[b] < 1e-9L * (len + diam)) CHECK(o >= -1e-6L * len * len - (acc[a] + acc[b]) * len * 4, "vertices of cell " << i << " not counter-clockwise"); ta += o; } Polygon2D P = V.GetCell(i); if (V.IsCellInfinite(i)) CHECK(P.NumVertices() == 0, "polygon of an unbounded cell"); else CHECK(P.NumVertices() == (int)cell.size(), "polygon of cell " << i); }
	CHECK(V.IsCellInfinite(-1) && V.IsCellInfinite(n) && V.GetCell(n).NumVertices() == 0 && V.GetCellVertexIndices(-1).empty(), "index out of range");
	// clipped cells partition a rectangle (unit scale, absolute clipping tolerances)
	if (sc > 0.01 && sc < 100) { double x0 = -1.5 * (double)diam, x1 = 1.3 * (double)diam, yb = -1.1 * (double)diam, yt = 1.4 * (double)diam; double ar = 0; for (int i = 0; i < n; i++) { Polygon2D P = V.GetClippedCell(i, x0, yb, x1, yt); double a = P.NumVertices() >= 3 ? std::fabs(P.Area()) : 0; ar += a; for (int k = 0; k < P.NumVertices(); k++) { A2 q{ P[k].X(), P[k].Y() }; CHECK(q[0] >= x0 - 1e-6 * diam && q[0] <= x1 + 1e-6 * diam && q[1] >= yb - 1e-6 * diam && q[1] <= yt + 1e-6 * diam, "clipped cell leaves the rectangle"); LD d = hypotl(q[0] - v[i][0], q[1] - v[i][1]); LD mn = 1e300L; for (auto& p : v) mn = std::min(mn, hypotl(q[0] - p[0], q[1] - p[1])); CHECK(mn >= d - 1e-4L * diam, "clipped cell " << i << " reaches into another cell"); } } double full = (x1 - x0) * (yt - yb); CHECK_NEAR(ar, full, 1e-4 * full, "clipped cells cover the rectangle"); } }
