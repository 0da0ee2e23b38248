// C28: solids against their mathematical definition and their own meshes
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Geometry/Geometry.h"
#include "base/Geometry/Geometry3D.h"
#include "base/Geometry/Geometry3DBodies.h"
#include "base/Geometry/GeometryCore/Geometry3DShapes.h"
typedef Pnt3Cart Pt; typedef Vec3Cart Vc;
static std::string ps(const Pt& p) { return "(" + fmt(p.X()) + "," + fmt(p.Y()) + "," + fmt(p.Z()) + ")"; }
static Pt pos(Src& s) { int m = (int)s.i(0, 3); double r = m == 0 ? 0 : m == 1 ? 3 : m == 2 ? 50 : 1000; return r == 0 ? Pt(0, 0, 0) : Pt(s.uni(-r, r), s.uni(-r, r), s.uni(-r, r)); }
static bool near(const Pt& a, const Pt& b, double t) { return std::fabs(a.X() - b.X()) <= t && std::fabs(a.Y() - b.Y()) <= t && std::fabs(a.Z() - b.Z()) <= t; }
struct Shape { LD vol, area; Pt cen; Pt lo, hi; std::function<LD(LD, LD, LD)> sd; double size; Pt base; }; // sd: <0 inside, >0 outside, in coordinates relative to base
static void body(Src& s, Case& c, const IBody& B, const Shape& S) {
	double sc = S.size, off = std::fabs(S.base.X()) + std::fabs(S.base.Y()) + std::fabs(S.base.Z()), tol = 1e-13 * (sc + off) * 20; CHECK_NEAR(B.Volume(), (double)S.vol, 1e-12 * (double)S.vol, "volume"); CHECK_NEAR(B.SurfaceArea(), (double)S.area, 1e-12 * (double)S.area, "surface area"); CHECK(near(B.GetCenter(), S.cen, tol), "centroid " << ps(B.GetCenter()) << " exact " << ps(S.cen)); Box3D bx = B.GetBoundingBox(); CHECK(near(bx.Min(), S.lo, tol) && near(bx.Max(), S.hi, tol), "bounding box " << bx.ToString()); auto bs = B.GetBoundingSphere(); int in = 0, out = 0;
	for (int t = 0; t < 30; t++) { double g = s.b() ? 1.0 : 1.3; LD x = S.lo.X() - S.base.X() + (S.hi.X() - S.lo.X()) * (0.5 + g * s.uni(-0.5, 0.5)), y = S.lo.Y() - S.base.Y() + (S.hi.Y() - S.lo.Y()) * (0.5 + g * s.uni(-0.5, 0.5)), z = S.lo.Z() - S.base.Z() + (S.hi.Z() - S.lo.Z()) * (0.5 + g * s.uni(-0.5, 0.5)); LD d = S.sd(x, y, z); Pt p((double)(S.base.X() + x), (double)(S.base.Y() + y), (double)(S.base.Z() + z)); if (fabsl(d) < tol * 10) continue; CHECK(B.IsInside(p) == (d < 0), "point " << ps(p) << " is " << (d < 0 ? "inside" : "outside") << " by " << (double)d << " but IsInside disagrees"); if (d < 0) { in++; CHECK(bx.Contains(p, tol) && bs.Center().Dist(p) <= bs.Radius() + tol, "bounding volume misses an inner point"); } else out++; } CHECK(B.ToString().size() > 5, "description"); c.nontrivial(in > 0 && out > 0); }
// closed triangle mesh: outward signed volume, area, vertices on or inside the body's boundary
template<class B> static void mesh(const B& b, const Shape& S, double& vol, double& area) { LD v = 0, a = 0; std::map<std::array<long long, 6>, int> edges; for (int i = 0; i < b.GetSurfaceCount(); i++) { const Triangle3D& t = b.GetSurface(i); Pt q[3] = {t.Pnt1(), t.Pnt2(), t.Pnt3()}; LD x[3][3]; for (int k = 0; k < 3; k++) { x[k][0] = q[k].X() - S.base.X(); x[k][1] = q[k].Y() - S.base.Y(); x[k][2] = q[k].Z() - S.base.Z(); } v += (x[0][0] * (x[1][1] * x[2][2] - x[1][2] * x[2][1]) - x[0][1] * (x[1][0] * x[2][2] - x[1][2] * x[2][0]) + x[0][2] * (x[1][0] * x[2][1] - x[1][1] * x[2][0])) / 6; LD ax = x[1][0] - x[0][0], ay = x[1][1] - x[0][1], az = x[1][2] - x[0][2], bx = x[2][0] - x[0][0], by = x[2][1] - x[0][1], bz = x[2][2] - x[0][2]; a += sqrtl((ay * bz - az * by) * (ay * bz - az * by) + (az * bx - ax * bz) * (az * bx - ax * bz) + (ax * by - ay * bx) * (ax * by - ay * bx)) / 2; for (auto& p : q) { LD d = S.sd(p.X() - S.base.X(), p.Y() - S.base.Y(), p.Z() - S.base.Z()); CHECK(fabsl(d) <= 1e-11 * (S.size + std::fabs(S.base.X()) + std::fabs(S.base.Y()) + std::fabs(S.base.Z())), "mesh vertex " << ps(p) << " is off the surface by " << (double)d); } auto key = [&](const Pt& p) { double u = S.size * 1e-6; return std::array<long long, 3>{std::llround((p.X() - S.base.X()) / u), std::llround((p.Y() - S.base.Y()) / u), std::llround((p.Z() - S.base.Z()) / u)}; }; for (int k = 0; k < 3; k++) { auto e0 = key(q[k]), e1 = key(q[(k + 1) % 3]); edges[{e0[0], e0[1], e0[2], e1[0], e1[1], e1[2]}]++; edges[{e1[0], e1[1], e1[2], e0[0], e0[1], e0[2]}]--; } } int open = 0; for (auto& e : edges) if (e.second > 0) open++; CHECK(open == 0, "mesh is not closed with consistent orientation: " << open << " unmatched edges"); vol = (double)v; area = (double)a; }
template<class B> static void rmesh(const B& b, const Shape& S, double& vol, double& area) { LD v = 0, a = 0; for (int i = 0; i < b.GetSurfaceCount(); i++) { const RectSurface3D& r = b.GetSurface(i); Pt q[4] = {r._pnt1, r._pnt2, r._pnt3, r._pnt4}; for (auto& p : q) { LD d = S.sd(p.X() - S.base.X(), p.Y() - S.base.Y(), p.Z() - S.base.Z()); CHECK(fabsl(d) <= 1e-11 * (S.size + std::fabs(S.base.X()) + std::fabs(S.base.Y()) + std::fabs(S.base.Z())), "patch vertex " << ps(p) << " is off the surface by " << (double)d); } for (int k = 0; k < 2; k++) { Pt w[3] = {q[0], q[1 + k], q[2 + k]}; LD x[3][3]; for (int j = 0; j < 3; j++) { x[j][0] = w[j].X() - S.base.X(); x[j][1] = w[j].Y() - S.base.Y(); x[j][2] = w[j].Z() - S.base.Z(); } v += (x[0][0] * (x[1][1] * x[2][2] - x[1][2] * x[2][1]) - x[0][1] * (x[1][0] * x[2][2] - x[1][2] * x[2][0]) + x[0][2] * (x[1][0] * x[2][1] - x[1][1] * x[2][0])) / 6; a += Triangle3D(w[0], w[1], w[2]).Area(); } } vol = (double)v; area = (double)a; }
LAW(cubes, 300, 4000) { double a = s.pwide(-3, 3); bool org = s.chance(1, 4); Pt p = org ? Pt(0, 0, 0) : pos(s); c.say([&](auto& o) { o << "cube side " << fmt(a) << " at " << ps(p); }); LD h = (LD)a / 2; Shape S{(LD)a * a * a, 6 * (LD)a * a, p, Pt(p.X() - a / 2, p.Y() - a / 2, p.Z() - a / 2), Pt(p.X() + a / 2, p.Y() + a / 2, p.Z() + a / 2), [=](LD x, LD y, LD z) { return std::max({fabsl(x), fabsl(y), fabsl(z)}) - h; }, a, p}; Cube3D C = org ? Cube3D(a) : Cube3D(a, p); CubeWithTriangles3D T = org ? CubeWithTriangles3D(a) : CubeWithTriangles3D(a, p); CHECK(C.GetSide() == a && T.GetSide() == a, "side"); body(s, c, C, S); body(s, c, T, S); double v, ar, tol = 1e-9 * (1 + (std::fabs(p.X()) + std::fabs(p.Y()) + std::fabs(p.Z())) / a); mesh(T, S, v, ar); CHECK(T.GetSurfaceCount() == 12, "triangles"); CHECK(std::fabs(v / S.vol - 1) < tol && std::fabs(ar / S.area - 1) < tol, "triangle mesh volume " << fmt(v) << " area " << fmt(ar)); CHECK(C.GetSurfaceCount() == 6, "faces"); rmesh(C, S, v, ar); CHECK(std::fabs(v / S.vol - 1) < tol && std::fabs(ar / S.area - 1) < tol, "face mesh volume " << fmt(v) << " area " << fmt(ar)); CHECK_NEAR(C.GetBoundingSphere().Radius(), a * std::sqrt(3.0) / 2, 1e-13 * a, "bounding sphere"); CHECK_THROWS(C.GetSurface(s.b() ? 6 : -1), IndexError, "face index"); CHECK_THROWS(T.GetSurface(s.b() ? 12 : -1), IndexError, "face index"); }
LAW(spheres, 250, 3000) { double R = s.pwide(-3, 3); bool org = s.chance(1, 4); Pt p = org ? Pt(0, 0, 0) : pos(s); int n = (int)s.i(3, 24), m = (int)s.i(3, 24); c.say([&](auto& o) { o << "sphere " << fmt(R) << " at " << ps(p) << " mesh " << n << "x" << m; }); LD r = R; Shape S{4 * M_PIl / 3 * r * r * r, 4 * M_PIl * r * r, p, Pt(p.X() - R, p.Y() - R, p.Z() - R), Pt(p.X() + R, p.Y() + R, p.Z() + R), [=](LD x, LD y, LD z) { return sqrtl(x * x + y * y + z * z) - r; }, 2 * R, p}; Sphere3D B = org ? Sphere3D(R, n, m) : Sphere3D(R, p, n, m); CHECK(B.GetRadius() == R && B.GetNumLatitude() == n && B.GetNumLongitude() == m, "parameters"); body(s, c, B, S); CHECK(B.GetSurfaceCount() == 2 * m * (n - 1), "triangle count " << B.GetSurfaceCount()); CHECK_NEAR(B.GetBoundingSphere().Radius(), R, 1e-13 * R, "bounding sphere"); double v, a; mesh(B, S, v, a); double err = 10.0 / (n * n) + 10.0 / (m * m); CHECK(v < S.vol * (1 + 1e-9) && v > S.vol * (1 - err), "inscribed mesh volume " << fmt(v) << " of " << (double)S.vol); CHECK(a < S.area * (1 + 1e-9) && a > S.area * (1 - err), "inscribed mesh area " << fmt(a) << " of " << (double)S.area); }
LAW(pyramids, 300, 4000) { double a = s.pwide(-3, 3), h = a * s.uni(0.1, 4); bool org = s.chance(1, 4), eq = s.chance(1, 4); Pt p = org ? Pt(0, 0, 0) : pos(s); Vc vp(p.X(), p.Y(), p.Z()); if (eq) h = a / std::sqrt(3.0); c.say([&](auto& o) { o << "pyramid base " << fmt(a) << " height " << fmt(h) << " at " << ps(p); }); LD A = a, H = h; LD sl = sqrtl(H * H + A * A / 4); Shape S{A * A * H / 3, A * A + 2 * A * sl, Pt(p.X(), p.Y(), p.Z() + h / 4), Pt(p.X() - a / 2, p.Y() - a / 2, p.Z()), Pt(p.X() + a / 2, p.Y() + a / 2, p.Z() + h), [=](LD x, LD y, LD z) { return std::max(-z, (std::max(fabsl(x), fabsl(y)) - A / 2 * (1 - z / H)) * H / sl); }, a + h, p};
	Pyramid3D B = eq ? (org ? (Pyramid3D)PyramidEquilateral3D(a) : (Pyramid3D)PyramidEquilateral3D(a, vp)) : org ? Pyramid3D(a, h) : Pyramid3D(a, h, vp); CHECK(B.GetBaseSize() == a && std::fabs(B.GetHeight() - h) <= 1e-14 * h, "parameters"); body(s, c, B, S); auto bs = B.GetBoundingSphere(); for (int k = 0; k < 5; k++) { Pt q = k == 4 ? Pt(p.X(), p.Y(), p.Z() + h) : Pt(p.X() + (k & 1 ? a : -a) / 2, p.Y() + (k & 2 ? a : -a) / 2, p.Z()); CHECK(bs.Center().Dist(q) <= bs.Radius() + 1e-12 * (S.size + std::fabs(p.X()) + std::fabs(p.Y()) + std::fabs(p.Z())), "bounding sphere misses a vertex"); } double v, ar, tol = 1e-9 * (1 + (std::fabs(p.X()) + std::fabs(p.Y()) + std::fabs(p.Z())) / std::min(a, h)); mesh(B, S, v, ar); CHECK(std::fabs(v / (double)S.vol - 1) < tol && std::fabs(ar / (double)S.area - 1) < tol, "mesh volume " << fmt(v) << " of " << (double)S.vol << " area " << fmt(ar) << " of " << (double)S.area); }
LAW(cylinders, 250, 3000) { double R = s.pwide(-3, 3), H = R * s.uni(0.1, 5); bool org = s.chance(1, 4); Pt p = org ? Pt(0, 0, -H / 2) : pos(s); int n = (int)s.i(3, 40); c.say([&](auto& o) { o << "cylinder " << fmt(R) << " x " << fmt(H) << " at " << ps(p) << " segments " << n; }); LD r = R, h = H; Shape S{M_PIl * r * r * h, 2 * M_PIl * r * (r + h), Pt(p.X(), p.Y(), p.Z() + H / 2), Pt(p.X() - R, p.Y() - R, p.Z()), Pt(p.X() + R, p.Y() + R, p.Z() + H), [=](LD x, LD y, LD z) { return std::max(hypotl(x, y) - r, std::max(-z, z - h)); }, 2 * R + H, p}; Cylinder3D B = org ? Cylinder3D(R, H, n) : Cylinder3D(R, H, p, n); CHECK(B.GetRadius() == R && B.GetHeight() == H && B.GetNumSegments() == n && near(B.GetBaseCenter(), p, 1e-12 * (R + H)), "parameters"); body(s, c, B, S); CHECK_NEAR(B.GetBoundingSphere().Radius(), std::hypot(R, H / 2), 1e-12 * (R + H), "bounding sphere"); double v, a; mesh(B, S, v, a); LD f = n * sinl(2 * M_PIl / n) / 2 * r * r, tl = 1e-9 * (1 + (std::fabs(p.X()) + std::fabs(p.Y()) + std::fabs(p.Z())) / std::min(R, H)); CHECK(fabsl(v / (f * h) - 1) < tl, "prism volume " << fmt(v)); CHECK(fabsl(a / (2 * f + n * 2 * r * sinl(M_PIl / n) * h) - 1) < tl, "prism area " << fmt(a)); }
LAW(tori, 250, 3000) { double R = s.pwide(-3, 3), r = R * s.uni(0.05, 0.95); bool org = s.chance(1, 4); Pt p = org ? Pt(0, 0, 0) : pos(s); int n = (int)s.i(3, 30), m = (int)s.i(3, 30); c.say([&](auto& o) { o << "torus " << fmt(R) << "," << fmt(r) << " at " << ps(p) << " mesh " << n << "x" << m; }); LD A = R, b = r; Shape S{2 * M_PIl * M_PIl * A * b * b, 4 * M_PIl * M_PIl * A * b, p, Pt(p.X() - R - r, p.Y() - R - r, p.Z() - r), Pt(p.X() + R + r, p.Y() + R + r, p.Z() + r), [=](LD x, LD y, LD z) { return hypotl(hypotl(x, y) - A, z) - b; }, 2 * (R + r), p}; Torus3D B = org ? Torus3D(R, r, n, m) : Torus3D(R, r, p, n, m); CHECK(B.GetMajorRadius() == R && B.GetMinorRadius() == r && B.GetNumU() == n && B.GetNumV() == m, "parameters"); body(s, c, B, S); CHECK_NEAR(B.GetBoundingSphere().Radius(), R + r, 1e-13 * R * 2, "bounding sphere"); CHECK(B.GetSurfaceCount() == n * m, "patches"); double v, a; rmesh(B, S, v, a); /* exact polyhedron: section polygon revolved over n segments */ LD polyA = m * sinl(2 * M_PIl / m) / 2 * b * b; LD cx = 0, rr = 0; for (int j = 0; j < m; j++) { LD v1 = 2 * M_PIl * j / m, v2 = 2 * M_PIl * (j + 1) / m; LD x1 = A + b * cosl(v1), x2 = A + b * cosl(v2), z1 = b * sinl(v1), z2 = b * sinl(v2); cx += (x1 + x2) * (x1 * z2 - x2 * z1) / 6; } (void)polyA; LD vol = cx * n * sinl(2 * M_PIl / n); (void)rr; LD tl = 1e-8 * (1 + (std::fabs(p.X()) + std::fabs(p.Y()) + std::fabs(p.Z())) / r); CHECK(fabsl(v / vol - 1) < tl, "mesh volume " << fmt(v) << " expected " << (double)vol); CHECK(a < S.area * (1 + 1e-9), "mesh area larger than the torus"); }
LAW(boxes, 1200, 12000) { int k = (int)s.pick({3, 20}); auto P = [&]() { return Pt((double)s.i(-k, k), (double)s.i(-k, k), (double)s.i(-k, k)); }; Pt a = P(), b = P(), u = P(), v = P(), p = P(); c.say([&](auto& o) { o << "boxes " << ps(a) << ps(b) << " " << ps(u) << ps(v) << " point " << ps(p); }); Box3D B = s.b() ? Box3D(a, b) : Box3D(a.X(), a.Y(), a.Z(), b.X(), b.Y(), b.Z()), Q(u, v); double A[3] = {a.X(), a.Y(), a.Z()}, E[3] = {b.X(), b.Y(), b.Z()}, U[3] = {u.X(), u.Y(), u.Z()}, V[3] = {v.X(), v.Y(), v.Z()}, X[3] = {p.X(), p.Y(), p.Z()}, lo[3], hi[3], Lo[3], Hi[3]; bool in = true, is = true, bb = true; LD d2 = 0; for (int i = 0; i < 3; i++) { lo[i] = std::min(A[i], E[i]); hi[i] = std::max(A[i], E[i]); Lo[i] = std::min(U[i], V[i]); Hi[i] = std::max(U[i], V[i]); in &= X[i] >= lo[i] && X[i] <= hi[i]; is &= lo[i] <= Hi[i] && Lo[i] <= hi[i]; bb &= Lo[i] >= lo[i] && Hi[i] <= hi[i]; double d = std::max({lo[i] - X[i], 0.0, X[i] - hi[i]}); d2 += d * d; }
	CHECK(B.MinX() == lo[0] && B.MinY() == lo[1] && B.MinZ() == lo[2] && B.MaxX() == hi[0] && B.MaxY() == hi[1] && B.MaxZ() == hi[2], "not normalised"); double w = hi[0] - lo[0], h = hi[1] - lo[1], d = hi[2] - lo[2]; CHECK(B.Width() == w && B.Height() == h && B.Depth() == d && B.Volume() == w * h * d && B.SurfaceArea() == 2 * (w * h + h * d + w * d), "measures"); CHECK_NEAR(B.Diagonal(), std::sqrt(w * w + h * h + d * d), 1e-12, "diagonal"); CHECK(B.Contains(p) == in, "containment"); CHECK_NEAR(B.DistanceToPoint(p), (double)sqrtl(d2), 1e-12, "distance"); CHECK(B.Contains(B.ClosestPoint(p)) && std::fabs(B.ClosestPoint(p).Dist(p) - (double)sqrtl(d2)) < 1e-12, "closest point"); CHECK(B.Intersects(Q) == is && Q.Intersects(B) == is, "intersection test expected " << is); CHECK(B.Contains(Q) == bb, "box in box"); Box3D I = B.Intersection(Q), W = B.Union(Q); if (is) CHECK(I.MinX() == std::max(lo[0], Lo[0]) && I.MinY() == std::max(lo[1], Lo[1]) && I.MinZ() == std::max(lo[2], Lo[2]) && I.MaxX() == std::min(hi[0], Hi[0]) && I.MaxY() == std::min(hi[1], Hi[1]) && I.MaxZ() == std::min(hi[2], Hi[2]), "intersection box"); else CHECK(I.Volume() == 0, "empty intersection"); CHECK(W.MinX() == std::min(lo[0], Lo[0]) && W.MinY() == std::min(lo[1], Lo[1]) && W.MinZ() == std::min(lo[2], Lo[2]) && W.MaxX() == std::max(hi[0], Hi[0]) && W.MaxY() == std::max(hi[1], Hi[1]) && W.MaxZ() == std::max(hi[2], Hi[2]), "union"); Box3D G = B; G.ExpandToInclude(p); CHECK(G.Contains(p) && G.Contains(B) && G.MinZ() == std::min(lo[2], X[2]) && G.MaxY() == std::max(hi[1], X[1]) && G.MinX() == std::min(lo[0], X[0]), "expansion"); std::set<std::array<double, 3>> cs, ex; for (auto& q : B.Corners()) cs.insert({q.X(), q.Y(), q.Z()}); for (int i = 0; i < 8; i++) ex.insert({i & 1 ? hi[0] : lo[0], i & 2 ? hi[1] : lo[1], i & 4 ? hi[2] : lo[2]}); CHECK(cs == ex, "corners"); CHECK(B.IsDegenerate() == (w == 0 || h == 0 || d == 0), "degenerate"); Box3D T = B.Translated(Vc(1, -2, 5)); CHECK(T.MinX() == lo[0] + 1 && T.MaxY() == hi[1] - 2 && T.MinZ() == lo[2] + 5, "translated"); Box3D Sx = B.Scaled(2); CHECK(Sx.Width() == 2 * w && Sx.Height() == 2 * h && Sx.Depth() == 2 * d && near(Sx.Center(), B.Center(), 1e-12), "scaled"); Box3D Fc = Box3D::FromCenterAndSize(p, w, h, d); CHECK(near(Fc.Center(), p, 1e-12) && Fc.Width() == w && Fc.Height() == h && Fc.Depth() == d, "from centre"); Box3D Fp = Box3D::FromPoints({a, b, p}); CHECK(Fp.Contains(a) && Fp.Contains(b) && Fp.Contains(p) && Fp.MaxZ() == std::max(hi[2], X[2]), "from points"); CHECK_THROWS(Box3D::FromPoints({}), GeometryError, "no points"); CHECK(B.Expanded(1).Depth() == d + 2, "expanded"); CHECK(near(B.Center(), Pt((lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2, (lo[2] + hi[2]) / 2), 1e-12), "centre");
	BoundingSphere3D S1(a, std::fabs(u.X())), S2(b, std::fabs(v.Y())); double dd = a.Dist(b), rr = std::fabs(u.X()) + std::fabs(v.Y()); if (std::fabs(dd - rr) > 1e-9) CHECK(S1.Intersects(S2) == (dd < rr), "spheres intersect"); CHECK(S1.Contains(p) == (a.Dist(p) <= S1.Radius()), "sphere contains"); BoundingSphere3D S3 = S1; S3.ExpandToInclude(p); CHECK(S3.Contains(p) && S3.Radius() >= S1.Radius(), "sphere expansion"); CHECK_NEAR(S1.Volume(), 4 * Constants::PI / 3 * std::pow(S1.Radius(), 3), 1e-9, "sphere volume"); CHECK_THROWS(BoundingSphere3D(a, -0.1 - s.unit()), ArgumentError, "negative radius"); c.nontrivial(w > 0 && h > 0 && d > 0); }
// general solid: containment only by the boundary functions
static double gA = 1, gB = 1, gC = 1; static double y1f(double x) { return -gA * (1 + x * x); } static double y2f(double x) { return gB * (2 - x); } static double z1f(double x, double y) { return -gC + 0.1 * x * y; } static double z2f(double x, double y) { return gC * (1 + y * y); }
LAW(bounded, 500, 5000) { gA = s.uni(0.1, 2); gB = s.uni(0.1, 2); gC = s.uni(0.5, 2); double x1 = s.uni(-1, 0), x2 = s.uni(0.2, 1), den = s.uni(0.1, 5); c.say([&](auto& o) { o << "A " << fmt(gA) << " B " << fmt(gB) << " C " << fmt(gC) << " x in " << fmt(x1) << "," << fmt(x2); }); SolidBodyWithBoundaryConstDensity B(x1, x2, y1f, y2f, z1f, z2f, den); CHECK(B.getDensity(VectorN<Real, 3>{0, 0, 0}) == den, "density"); int in = 0; for (int t = 0; t < 30; t++) { double x = s.uni(-1.2, 1.2), y = s.uni(-3, 3), z = s.uni(-3, 8); bool e = x > x1 && x < x2 && y > y1f(x) && y < y2f(x) && z > z1f(x, y) && z < z2f(x, y); in += e; CHECK(B.IsInside(Pt(x, y, z)) == e, "containment of " << ps(Pt(x, y, z)) << " expected " << e); } CHECK(B.IsInside(B.GetCenter()) , "centre not inside"); Sphere3D sp(0.5); Cube3D cu(1, Pt(2, 0, 0)); ComposedSolidSurfaces3D comp({&sp}); comp.AddSolid(&cu); CHECK(comp.GetSolidCount() == 2, "count"); for (int t = 0; t < 10; t++) { Pt q(s.uni(-1, 3), s.uni(-0.6, 0.6), s.uni(-0.6, 0.6)); CHECK(comp.IsInside(q) == (sp.IsInside(q) || cu.IsInside(q)), "union of solids"); } c.nontrivial(in > 0); }
