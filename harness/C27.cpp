// C27: space geometry against exact integer vector algebra
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Geometry/Geometry.h"
#include "base/Geometry/Geometry3D.h"
#include "base/Geometry/GeometrySpherical.h"
typedef Pnt3Cart Pt; typedef Vec3Cart Vc; typedef long long LL;
struct I3 { LL x, y, z; I3 operator-(const I3& o) const { return {x - o.x, y - o.y, z - o.z}; } I3 operator+(const I3& o) const { return {x + o.x, y + o.y, z + o.z}; } I3 operator*(LL k) const { return {x * k, y * k, z * k}; } bool operator==(const I3& o) const { return x == o.x && y == o.y && z == o.z; } bool zero() const { return !x && !y && !z; } };
static LL dot(const I3& a, const I3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static I3 crs(const I3& a, const I3& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static LD nrm(const I3& a) { return sqrtl((LD)dot(a, a)); }
static I3 ip(Src& s, int k) { return {s.i(-k, k), s.i(-k, k), s.i(-k, k)}; }
static I3 ipnz(Src& s, int k) { I3 v = ip(s, k); if (v.zero()) v.x = 1; return v; }
struct Fr { double sc; I3 o; Pt operator()(const I3& p) const { return Pt((p.x + o.x) * sc, (p.y + o.y) * sc, (p.z + o.z) * sc); } Pt at(LD x, LD y, LD z) const { return Pt((double)((x + o.x) * sc), (double)((y + o.y) * sc), (double)((z + o.z) * sc)); } double big() const { return sc * (100 + (double)nrm(o)); } };
static Fr frame(Src& s) { Fr f; f.sc = std::ldexp(1.0, (int)s.i(-2, 3)); int m = (int)s.i(0, 2); LL r = m == 0 ? 0 : m == 1 ? 4 : 100; f.o = r ? ip(s, (int)r) : I3{0, 0, 0}; return f; }
static Vc vc(const I3& a, double k = 1) { return Vc(a.x * k, a.y * k, a.z * k); }
static std::string ps(const I3& p) { std::ostringstream o; o << "(" << p.x << "," << p.y << "," << p.z << ")"; return o.str(); }
static std::string ps(const Pt& p) { return "(" + fmt(p.X()) + "," + fmt(p.Y()) + "," + fmt(p.Z()) + ")"; }
static bool near(const Pt& a, const Pt& b, double t) { return std::fabs(a.X() - b.X()) <= t && std::fabs(a.Y() - b.Y()) <= t && std::fabs(a.Z() - b.Z()) <= t; }
LAW(lines, 4000, 50000) {
	int k = (int)s.pick({2, 5, 20}); Fr f = frame(s); I3 a = ip(s, k), d = ipnz(s, k), b = ip(s, k), e = ipnz(s, k), p = ip(s, k); int m = (int)s.i(0, 5); if (m == 0) e = d * (s.b() ? 2 : -1); if (m == 1) { e = d * (s.b() ? 1 : -3); b = a + d * s.i(-3, 3); } if (m == 2) { I3 c0 = a + d * s.i(-3, 3); b = c0 - e * s.i(-3, 3); } if (m == 3) { e = crs(d, ipnz(s, 3)); if (e.zero()) e = d; } if (s.chance(1, 6)) p = a + d * s.i(-3, 3);
	c.say([&](auto& o) { o << "line " << ps(a) << "+t" << ps(d) << ", line " << ps(b) << "+t" << ps(e) << ", point " << ps(p) << " scale " << f.sc << " shift " << ps(f.o); });
	double tol = 1e-12 * f.big() + 1e-14; Line3D l1 = s.b() ? Line3D(f(a), vc(d)) : Line3D(f(a), f(a + d)), l2 = Line3D(f(b), vc(e, 0.5)); LD nd = nrm(d), ne = nrm(e); CHECK(std::fabs(l1.Direction().NormL2() - 1) < 1e-14, "unit direction"); CHECK(near(l1((double)(2 * nd * f.sc)), f(a + d * 2), tol), "parametrisation");
	I3 cp = crs(p - a, d); double dist = (double)(nrm(cp) / nd * f.sc); CHECK_NEAR(l1.Dist(f(p)), dist, tol, "distance to a point"); LD t = (LD)dot(p - a, d) / dot(d, d); Pt foot = f.at(a.x + t * d.x, a.y + t * d.y, a.z + t * d.z); CHECK(near(l1.NearestPointOnLine(f(p)), foot, tol), "foot point " << ps(l1.NearestPointOnLine(f(p))) << " exact " << ps(foot)); if (!cp.zero()) { CHECK(!l1.IsPointOnLine(f(p)), "point off the line"); Line3D pl = l1.PerpendicularLineThroughPoint(f(p)); CHECK(std::fabs(ScalarProduct(pl.Direction(), l1.Direction())) < 1e-9 * (1 + tol / dist * 1e9), "perpendicular not orthogonal"); CHECK(pl.IsPointOnLine(f(p)) && pl.Dist(foot) <= tol * 100 * (1 + f.big() / dist), "perpendicular misses"); } else if (f.big() < 1000) { CHECK(l1.IsPointOnLine(f(p), 1e-9), "point on the line"); if (l1.IsPointOnLine(f(p))) CHECK_THROWS(l1.PerpendicularLineThroughPoint(f(p)), GeometryError, "point on the line"); }
	I3 n = crs(d, e), w = b - a; double dl = n.zero() ? (double)(nrm(crs(w, d)) / nd * f.sc) : (double)(fabsl((LD)dot(n, w)) / nrm(n) * f.sc); double cond = n.zero() ? 1 : (double)(nd * ne / nrm(n)); double tl = tol * cond * cond * 10;
	CHECK_NEAR(l1.Dist(l2), dl, tl, "distance of lines " << fmt(l1.Dist(l2)) << " exact " << fmt(dl)); CHECK_NEAR(l2.Dist(l1), dl, tl, "distance not symmetric"); double od = -1; Pt q1, q2; bool has = l1.Dist(l2, od, q1, q2); CHECK(has == !n.zero(), "feet reported " << has); CHECK_NEAR(od, dl, tl, "reported distance"); if (has) { CHECK_NEAR(q1.Dist(q2), dl, tl, "feet not at the distance"); CHECK(l1.Dist(q1) <= tl && l2.Dist(q2) <= tl, "feet off the lines"); }
	CHECK(l1.IsPerpendicular(l2) == (dot(d, e) == 0), "perpendicular, exact scalar product " << dot(d, e)); CHECK(l1.IsParallel(l2) == n.zero(), "parallel, expected " << n.zero()); bool same = n.zero() && crs(w, d).zero(); if (f.big() < 1000) CHECK(l1.AreEqual(l2, 1e-10) == same || (same && f.big() > 300), "equality expected " << same);
	auto r = l1.Intersection(l2); auto r2 = l2.Intersection(l1); if (n.zero()) { if (f.big() < 1000) CHECK(r.IsCoincident() == same && r.IsParallel() == !same, "parallel lines classified " << (int)r.type); CHECK(!r.HasIntersection(), "parallel"); } else { bool meet = dot(n, w) == 0; LD t1 = (LD)dot(crs(w, e), n) / dot(n, n); Pt ex = f.at(a.x + t1 * d.x, a.y + t1 * d.y, a.z + t1 * d.z); if (meet && tl > 1e-10) {} else { CHECK(r.IsIntersecting() == meet && r.IsSkew() == !meet && r2.type == r.type, "classification " << (int)r.type << " meet " << meet); Pt o; CHECK(l1.Intersects(l2, o) == meet, "Intersects"); if (meet) CHECK(near(o, ex, tl), "intersection point"); } CHECK(near(r.point1, ex, tl) && near(r2.point2, ex, tl), "closest point on the first line " << ps(r.point1) << " exact " << ps(ex)); CHECK_NEAR(r.distance, dl, tl, "distance"); CHECK(near(l1(r.t1), r.point1, tol) && near(l2(r.t2), r.point2, tol), "parameters"); }
	CHECK_THROWS(Line3D(f(a), Vc(0, 0, 0)), GeometryError, "null direction"); CHECK_THROWS(Line3D(f(a), f(a)), GeometryError, "same points"); c.nontrivial(true); c.label(n.zero() ? (same ? "coincident" : "parallel") : dot(n, w) ? "skew" : "meeting");
}
LAW(segments, 1500, 20000) {
	int k = (int)s.pick({2, 20}); Fr f = frame(s); I3 a = ip(s, k), b = ip(s, k), p = ip(s, k); if (s.chance(1, 10)) b = a; c.say([&](auto& o) { o << "segment " << ps(a) << ps(b) << " point " << ps(p) << " scale " << f.sc << " shift " << ps(f.o); }); double tol = 1e-12 * f.big(); SegmentLine3D g(f(a), f(b)); I3 d = b - a; LD t = d.zero() ? 0 : (LD)dot(p - a, d) / dot(d, d); t = std::max<LD>(0, std::min<LD>(1, t)); Pt cl = f.at(a.x + t * d.x, a.y + t * d.y, a.z + t * d.z); CHECK_NEAR(g.Length(), (double)nrm(d) * f.sc, tol, "length"); CHECK_NEAR(g.Dist(f(p)), cl.Dist(f(p)), tol, "distance"); double u = s.unit(); CHECK(near(g(u), f.at(a.x + (LD)u * d.x, a.y + (LD)u * d.y, a.z + (LD)u * d.z), tol), "point"); CHECK_THROWS(g(s.b() ? -0.01 - u : 1.01 + u), GeometryError, "outside [0,1]"); SegmentLine3D h(f(a), vc(d), 2 * f.sc); CHECK(near(h.EndPoint(), f(a + d * 2), tol), "from direction"); c.nontrivial(!d.zero()); }
LAW(planes, 4000, 50000) {
	int k = (int)s.pick({2, 5, 20}); Fr f = frame(s); I3 a = ip(s, k), n = ipnz(s, k), b = ip(s, k), m = ipnz(s, k), p = ip(s, k), d = ipnz(s, k), q = ip(s, k); int md = (int)s.i(0, 5); if (md == 0) m = n * (s.b() ? 2 : -1); if (md == 1) { m = n * (s.b() ? 1 : -2); I3 u = crs(n, ipnz(s, 3)); b = a + u; } if (md == 2) { I3 u = crs(n, ipnz(s, 3)); if (!u.zero()) d = u; } if (md == 3) { I3 u = crs(n, ipnz(s, 3)); if (!u.zero()) m = u; } if (s.chance(1, 5)) p = a + crs(n, ip(s, 3)); if (s.chance(1, 5)) q = a + crs(n, ip(s, 3));
	c.say([&](auto& o) { o << "plane " << ps(a) << " normal " << ps(n) << ", plane " << ps(b) << " normal " << ps(m) << ", point " << ps(p) << ", line " << ps(q) << "+t" << ps(d) << " scale " << f.sc << " shift " << ps(f.o); });
	double tol = 1e-12 * f.big() + 1e-14; LD nn = nrm(n), nm = nrm(m); int how = (int)s.i(0, 2); I3 u1 = crs(n, std::abs(n.x) < std::abs(n.y) ? I3{1, 0, 0} : I3{0, 1, 0}); if (u1.zero()) u1 = crs(n, I3{0, 0, 1}); I3 u2 = crs(n, u1); bool exactN = how != 1; Plane3D P = how == 0 ? Plane3D(f(a), vc(n)) : how == 1 ? Plane3D(f(a), f(a + u1), f(a + u2)) : Plane3D(f(a), vc(n, 0.25)), Q(f(b), vc(m)); (void)exactN;
	Vc N = P.Normal(); CHECK_NEAR(N.X(), (double)(n.x / nn), 1e-11, "normal"); CHECK_NEAR(N.Y(), (double)(n.y / nn), 1e-11, "normal"); CHECK_NEAR(N.Z(), (double)(n.z / nn), 1e-11, "normal"); double tp = how == 1 ? tol * 100 : tol; CHECK(P.DistToPoint(P.GetPointOnPlane()) <= tp, "point of the plane is off it: " << ps(P.GetPointOnPlane()));
	LD sd = (LD)dot(p - a, n) / nn * f.sc; CHECK_NEAR(P.DistToPoint(f(p)), (double)fabsl(sd), tp, "distance to point"); if (dot(p - a, n) != 0) CHECK(!P.IsPointOnPlane(f(p)), "point off the plane"); else CHECK(P.IsPointOnPlane(f(p), 1e-8), "point of the plane"); Pt pr = P.ProjectionToPlane(f(p)); LD ck = (LD)dot(p - a, n) / dot(n, n); CHECK(near(pr, f.at(p.x - ck * n.x, p.y - ck * n.y, p.z - ck * n.z), tp), "projection");
	Line3D L(f(q), vc(d)); LD nd = nrm(d); LL den = dot(n, d); Pt hit; bool h = P.IntersectionWithLine(L, hit); CHECK(h == (den != 0), "line intersects, scalar product " << den); if (h) { LD t = (LD)dot(a - q, n) / den; double tl = tp * (double)(nn * nd / std::llabs(den)) * 20; CHECK(near(hit, f.at(q.x + t * d.x, q.y + t * d.y, q.z + t * d.z), tl), "intersection point " << ps(hit)); } bool onp = den == 0 && dot(q - a, n) == 0; if (!onp) CHECK(!P.IsLineOnPlane(L), "line not in the plane"); else if (f.big() < 300 && how != 1) CHECK(P.IsLineOnPlane(L), "line in the plane"); double sa = (double)((LD)den / (nn * nd)); CHECK_NEAR(std::sin(P.AngleToLine(L)), sa, 1e-7, "angle to a line");
	I3 x = crs(n, m); bool par = x.zero(); CHECK(P.IsParallelToPlane(Q) == par, "parallel planes expected " << par); CHECK(P.IsPerpendicularToPlane(Q) == (dot(n, m) == 0), "perpendicular planes"); CHECK_NEAR(std::cos(P.AngleToPlane(Q)), (double)((LD)dot(n, m) / (nn * nm)), 1e-9, "angle of planes"); double dp = par ? (double)(fabsl((LD)dot(b - a, n)) / nn * f.sc) : 0; CHECK_NEAR(P.DistToPlane(Q), dp, tp * 10, "distance of planes"); CHECK_NEAR(Q.DistToPlane(P), dp, tp * 10, "distance of planes (swapped)"); Line3D I; bool hi = P.IntersectionWithPlane(Q, I); CHECK(hi == !par, "planes intersect"); if (hi) { double cd = (double)(nn * nm / nrm(x)); double tl = tp * cd * cd * 10; CHECK(P.DistToPoint(I.StartPoint()) <= tl && Q.DistToPoint(I.StartPoint()) <= tl, "intersection line starts at " << ps(I.StartPoint()) << " off the planes by " << fmt(P.DistToPoint(I.StartPoint())) << " and " << fmt(Q.DistToPoint(I.StartPoint()))); CHECK(P.DistToPoint(I(3)) <= tl + 1e-10 * cd && Q.DistToPoint(I(3)) <= tl + 1e-10 * cd, "intersection line leaves the planes"); }
	{ double sx = s.nz(0.1, 10), sy = s.nz(0.1, 10), sz = s.nz(0.1, 10); Plane3D S(sx, sy, sz); double o1, o2, o3; S.GetCoordAxisSegments(o1, o2, o3); CHECK_NEAR(o1, sx, 1e-13 * std::fabs(sx), "x segment"); CHECK_NEAR(o2, sy, 1e-13 * std::fabs(sy), "y segment"); CHECK_NEAR(o3, sz, 1e-13 * std::fabs(sz), "z segment"); CHECK(S.IsPointOnPlane(Pt(sx, 0, 0)) && S.IsPointOnPlane(Pt(0, sy, 0)) && S.IsPointOnPlane(Pt(0, 0, sz)), "axis points"); double d0 = 1 / std::sqrt(1 / (sx * sx) + 1 / (sy * sy) + 1 / (sz * sz)); CHECK_NEAR(S.DistToPoint(Pt(0, 0, 0)), d0, 1e-12 * d0, "distance of the origin"); Pt z = S.ProjectionToPlane(Pt(1, 2, 3)); CHECK(std::fabs(S.DistToPoint(z)) < 1e-11, "projection not on plane"); CHECK_NEAR(z.Dist(Pt(1, 2, 3)), S.DistToPoint(Pt(1, 2, 3)), 1e-11, "projection distance"); Plane3D H(std::acos(N.X()), std::acos(N.Y()), std::acos(N.Z()), 2.5); CHECK_NEAR(H.DistToPoint(Pt(0, 0, 0)), 2.5, 1e-7, "Hesse form"); CHECK(H.IsPointOnPlane(Pt(2.5 * N.X(), 2.5 * N.Y(), 2.5 * N.Z()), 1e-6), "Hesse form"); }
	CHECK_THROWS(Plane3D(f(a), Vc(0, 0, 0)), GeometryError, "null normal"); CHECK_THROWS(Plane3D(f(a), f(a + d), f(a + d * 2)), GeometryError, "collinear points"); CHECK_THROWS(Plane3D(0.0, 1.0, 2.0), GeometryError, "zero segment"); c.nontrivial(true); c.label(par ? "parallel" : "crossing");
}
LAW(triangles, 2500, 30000) {
	int k = (int)s.pick({2, 5, 20}); Fr f = frame(s); I3 a = ip(s, k), b = ip(s, k), d = ip(s, k); if (s.chance(1, 6)) d = a + crs(b - a, ip(s, 2)); if (s.chance(1, 6)) d = a + (b - a) * s.i(-2, 3); I3 e1 = b - a, e2 = d - a, n = crs(e1, e2); LL u = s.i(-2, 8), v = s.i(-2, 8), w = s.chance(1, 3) ? s.i(-1, 1) : 0; /* query: a + u/6 e1 + v/6 e2 + w n/|n| */
	c.say([&](auto& o) { o << "triangle " << ps(a) << ps(b) << ps(d) << " query " << u << "/6," << v << "/6," << w << " scale " << f.sc << " shift " << ps(f.o); }); double tol = 1e-12 * f.big() + 1e-14; Triangle3D T(f(a), f(b), f(d)); LD la = nrm(e1) * f.sc, lb = nrm(d - b) * f.sc, lc = nrm(e2) * f.sc; CHECK_NEAR(T.A(), (double)la, tol, "side"); CHECK_NEAR(T.B(), (double)lb, tol, "side"); CHECK_NEAR(T.C(), (double)lc, tol, "side"); double A = (double)(nrm(n) / 2) * f.sc * f.sc, per = (double)(la + lb + lc); CHECK(std::fabs(T.Area() - A) <= 1e-11 * per * f.big(), "area " << fmt(T.Area()) << " exact " << fmt(A)); CHECK(near(T.Centroid(), f.at((a.x + b.x + d.x) / 3.0L, (a.y + b.y + d.y) / 3.0L, (a.z + b.z + d.z) / 3.0L), tol), "centroid");
	LL x1 = dot(e1, e1), x2 = dot(d - b, d - b), x3 = dot(e2, e2); bool rt = x1 + x2 == x3 || x1 + x3 == x2 || x2 + x3 == x1; CHECK(T.IsRight(1e-8) == rt, "right angled " << rt); CHECK(T.IsIsosceles() == (x1 == x2 || x1 == x3 || x2 == x3), "isosceles"); CHECK(T.IsEquilateral() == (x1 == x2 && x1 == x3), "equilateral"); if (n.zero()) { CHECK_THROWS(T.getDefinedPlane(), GeometryError, "degenerate plane"); c.nontrivial(true); c.label("degenerate"); return; }
	Plane3D P = T.getDefinedPlane(); for (auto& z : {a, b, d}) CHECK(P.DistToPoint(f(z)) <= tol * 100, "plane misses a vertex"); LD nl = nrm(n); Pt q = f.at(a.x + u / 6.0L * e1.x + v / 6.0L * e2.x + w * n.x / nl, a.y + u / 6.0L * e1.y + v / 6.0L * e2.y + w * n.y / nl, a.z + u / 6.0L * e1.z + v / 6.0L * e2.z + w * n.z / nl); bool in = u > 0 && v > 0 && u + v < 6 && w == 0, edge = w == 0 && u >= 0 && v >= 0 && u + v <= 6 && !in; double cond = per * per / A; if (!edge && cond < 1e3 && f.big() < 3000 * f.sc) CHECK(T.IsPointInside(q, 1e-7) == in, "containment of " << ps(q) << " expected " << in); 
	TriangleSurface3D S(f(a), f(b), f(d)); double mu = S.getMaxU(); CHECK_NEAR(mu, (double)std::max({la, lb, lc}), tol, "base is not the longest side"); double uu = mu * s.uni(0.001, 0.999), ww = S.getMaxW(uu) * s.unit(); CHECK(ww >= -tol, "height"); auto z = S(uu, ww); Pt zp(z[0], z[1], z[2]); CHECK(P.DistToPoint(zp) <= tol * 1000 * cond, "surface point off the plane"); { Triangle3D t1(zp, f(a), f(b)), t2(zp, f(b), f(d)), t3(zp, f(d), f(a)); double sum = VectorProduct(Vc(zp, f(a)), Vc(zp, f(b))).NormL2() / 2 + VectorProduct(Vc(zp, f(b)), Vc(zp, f(d))).NormL2() / 2 + VectorProduct(Vc(zp, f(d)), Vc(zp, f(a))).NormL2() / 2; CHECK_NEAR(sum, A, 1e-9 * per * f.big(), "surface point outside the triangle"); } CHECK_NEAR(S.getMaxU() * A / A, mu, tol, "u"); { LD area = 0; int M = 200; for (int i = 0; i < M; i++) area += S.getMaxW(mu * (i + 0.5) / M) * mu / M; CHECK_NEAR((double)area, A, 1e-3 * mu * mu, "parameter domain area"); }
	// parallelogram patch
	I3 d4 = b + d - a; double ll = std::max(x1 ? 1.0 : 0, 0.0); (void)ll; bool okp = true; { Plane3D pp(f(a), f(b), f(d4)); okp = pp.IsPointOnPlane(f(d)); } if (okp) { RectSurface3D R(f(a), f(b), f(d4), f(d)); CHECK_NEAR(R.getArea(), 2 * A, 1e-11 * per * f.big(), "patch area"); CHECK(near(R.getCenter(), f.at((a.x + d4.x) / 2.0L, (a.y + d4.y) / 2.0L, (a.z + d4.z) / 2.0L), tol), "patch centre"); auto co = R(R.getMinU(), R.getMinW()); CHECK(near(Pt(co[0], co[1], co[2]), f(a), tol * 10), "patch corner"); auto c2 = R(R.getMaxU(), R.getMaxW()); CHECK(near(Pt(c2[0], c2[1], c2[2]), f(d4), tol * 10), "patch corner"); auto c3 = R(R.getMaxU(), R.getMinW()); CHECK(near(Pt(c3[0], c3[1], c3[2]), f(b), tol * 10), "patch corner"); Vc nv = R.getNormal(); CHECK_NEAR(nv.X(), (double)(n.x / nl), 1e-9, "normal"); CHECK_NEAR(nv.Y(), (double)(n.y / nl), 1e-9, "normal"); CHECK_NEAR(nv.Z(), (double)(n.z / nl), 1e-9, "normal"); } Pt off = f(d); off = off + Pt((double)(n.x / nl), (double)(n.y / nl), (double)(n.z / nl)); CHECK_THROWS(RectSurface3D(f(a), f(b), f(d4), off), GeometryError, "points not coplanar"); c.nontrivial(true);
}
LAW(sphere, 1500, 20000) { double la1 = s.uni(-90, 90), lo1 = s.uni(-180, 180), la2 = s.chance(1, 4) ? -la1 + s.uni(-1e-3, 1e-3) : s.uni(-90, 90), lo2 = s.chance(1, 4) ? lo1 + (s.b() ? 180 : 0) + s.uni(-1e-3, 1e-3) : s.uni(-180, 180), R = s.pwide(-2, 4); c.say([&](auto& o) { o << "(" << fmt(la1) << "," << fmt(lo1) << ") (" << fmt(la2) << "," << fmt(lo2) << ") R " << fmt(R); }); typedef SphericalGeometryCalculator G; auto xyz = [](double la, double lo, LD* v) { LD a = la * M_PIl / 180, b = lo * M_PIl / 180; v[0] = cosl(a) * cosl(b); v[1] = cosl(a) * sinl(b); v[2] = sinl(a); }; LD u[3], v[3]; xyz(la1, lo1, u); xyz(la2, lo2, v); LD cx = u[1] * v[2] - u[2] * v[1], cy = u[2] * v[0] - u[0] * v[2], cz = u[0] * v[1] - u[1] * v[0]; double ex = (double)atan2l(sqrtl(cx * cx + cy * cy + cz * cz), u[0] * v[0] + u[1] * v[1] + u[2] * v[2]); double g = G::DistanceBetweenLatLong(la1, lo1, la2, lo2); double tol = 1e-14 / std::max(1e-7, std::sin(ex)) + 1e-14; CHECK(std::fabs(g - ex) <= 4 * tol + (std::sin(ex) < 1e-6 ? 4e-8 : 0), "great-circle angle " << fmt(g) << " exact " << fmt(ex)); CHECK_NEAR(G::DistanceBetweenLatLong(la2, lo2, la1, lo1), g, 1e-7, "symmetry"); CHECK_NEAR(G::DistanceBetweenLatLong(R, la1, lo1, la2, lo2), R * g, 1e-14 * R * 4, "radius"); CHECK(g >= 0 && g <= Constants::PI, "range"); Pt p = G::CartesianFromSpherical(G::SphericalFromLatLong(la1, lo1)); CHECK(near(p, Pt((double)u[0], (double)u[1], (double)u[2]), 1e-14), "cartesian"); Pt q((double)u[0] * R, (double)u[1] * R, (double)u[2] * R); CHECK_NEAR(G::RadiusFromCartesian(q), R, 1e-14 * R, "radius"); c.nontrivial(ex > 1e-9); }
