// C26: plane geometry against exact integer arithmetic
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "base/Geometry/Geometry2D.h"
#include "base/Geometry/GeometryCore/Geometry2DShapes.h"
#include "base/Geometry/Geometry2DCore/Geometry2DLines.h"
#include "base/Geometry/Geometry2DCore/Geometry2DTriangle.h"
#include "base/Geometry/Geometry2DCore/Geometry2DPolygon.h"
#include "base/Geometry/Geometry2DCore/Geometry2DCircleBox.h"
typedef Point2Cartesian Pt; typedef Vector2Cartesian Vc; typedef long long LL;
struct I2 { LL x, y; bool operator==(const I2& o) const { return x == o.x && y == o.y; } };
// a frame maps integer points to doubles exactly (dyadic scale, integer shift)
struct Fr { double sc; LL ox, oy; Pt operator()(const I2& p) const { return Pt((double)(p.x + ox) * sc, (double)(p.y + oy) * sc); } double X(LD x) const { return (double)((x + ox) * sc); } double Y(LD y) const { return (double)((y + oy) * sc); } double big() const { return sc * (200 + std::fabs((double)ox) + std::fabs((double)oy)); } };
static Fr frame(Src& s) { int m = (int)s.i(0, 3); Fr f; f.sc = std::ldexp(1.0, (int)s.i(-2, 4)); LL r = m == 0 ? 0 : m == 1 ? 5 : 500; f.ox = r ? s.i(-r, r) : 0; f.oy = r ? s.i(-r, r) : 0; return f; }
static I2 ip(Src& s, int k) { return {s.i(-k, k), s.i(-k, k)}; }
static std::string ps(const I2& p) { std::ostringstream o; o << "(" << p.x << "," << p.y << ")"; return o.str(); }
static LL cr(const I2& o, const I2& a, const I2& b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); }
static LL dt(const I2& o, const I2& a, const I2& b) { return (a.x - o.x) * (b.x - o.x) + (a.y - o.y) * (b.y - o.y); }
static LL d2(const I2& a, const I2& b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y); }
static int sg(LL v) { return (v > 0) - (v < 0); }
static bool onSeg(const I2& a, const I2& b, const I2& p) { return cr(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
static bool near(const Pt& p, double x, double y, double tol) { return std::fabs(p.X() - x) <= tol && std::fabs(p.Y() - y) <= tol; }
static std::string str(const Pt& p) { return "(" + fmt(p.X()) + "," + fmt(p.Y()) + ")"; }

LAW(lines, 3000, 40000) {
	int k = s.b() ? 3 : 40; Fr f = frame(s); I2 a = ip(s, k), b = ip(s, k), p = ip(s, k); if (a == b) b.x++; I2 cc, d; int m = (int)s.i(0, 4);
	if (m == 0) { LL q = s.i(-3, 3); if (!q) q = 2; cc = ip(s, k); d = {cc.x + q * (b.x - a.x), cc.y + q * (b.y - a.y)}; } else if (m == 1) { LL q = s.i(-3, 3), r = s.i(1, 3); cc = {a.x + q * (b.x - a.x), a.y + q * (b.y - a.y)}; d = {cc.x - r * (b.x - a.x), cc.y - r * (b.y - a.y)}; } else { cc = ip(s, k); d = ip(s, k); if (cc == d) d.y++; }
	c.say([&](auto& o) { o << "lines " << ps(a) << ps(b) << " and " << ps(cc) << ps(d) << " point " << ps(p) << " scale " << f.sc << " shift " << f.ox << "," << f.oy; });
	double tol = 1e-12 * f.big() + 1e-13;
	bool useDir = s.b(); Line2D l1 = useDir ? Line2D(f(a), Vc((double)(b.x - a.x), (double)(b.y - a.y))) : Line2D(f(a), f(b)), l2(f(cc), f(d));
	CHECK(std::fabs(l1.Direction().NormL2() - 1) < 1e-14, "direction not a unit vector"); LD len = sqrtl((LD)d2(a, b));
	double dist = (double)(fabsl((LD)cr(a, b, p)) / len * f.sc); CHECK_NEAR(l1.DistanceToPoint(f(p)), dist, tol, "distance of point and line");
	Pt q = l1.ClosestPoint(f(p)); LD t = (LD)dt(a, b, p) / (LD)d2(a, b); CHECK(near(q, f.X(a.x + t * (b.x - a.x)), f.Y(a.y + t * (b.y - a.y)), tol), "closest point " << str(q));
	if (cr(a, b, p)) CHECK(!l1.Contains(f(p)), "point off the line contained"); { LL r = s.i(-4, 4); I2 o{a.x + r * (b.x - a.x), a.y + r * (b.y - a.y)}; if (f.big() < 300) CHECK(l1.Contains(f(o)), "point of the line not contained"); double tt = (double)(r * len) * f.sc; CHECK(near(l1(tt), f(o).X(), f(o).Y(), tol), "point at parameter " << fmt(tt)); }
	Line2D pr = l1.Perpendicular(f(p)); CHECK(std::fabs(pr.Direction().X() * (b.x - a.x) + pr.Direction().Y() * (b.y - a.y)) <= 1e-13 * (double)len, "perpendicular not orthogonal"); CHECK(pr.DistanceToPoint(f(p)) <= tol, "perpendicular misses the point");
	LL den = (b.x - a.x) * (d.y - cc.y) - (b.y - a.y) * (d.x - cc.x); auto r = l1.Intersection(l2); auto r2 = l2.Intersection(l1); Pt hit(7777, 7777); bool any = l1.Intersects(l2, &hit);
	CHECK(any == (den != 0), "Intersects " << any << " for direction cross product " << den); CHECK(r.type == r2.type, "intersection type depends on the order of the lines");
	if (den) { CHECK(r.IsPoint() && r.HasIntersection() && !r.IsParallel() && !r.IsCoincident(), "crossing lines not reported as a point"); LD u = (LD)((cc.x - a.x) * (d.y - cc.y) - (cc.y - a.y) * (d.x - cc.x)) / den; double ex = f.X(a.x + u * (b.x - a.x)), ey = f.Y(a.y + u * (b.y - a.y)); double cond = (double)(len * sqrtl((LD)d2(cc, d)) / std::abs(den)); double tl = tol * cond * 10; CHECK(near(r.point, ex, ey, tl) && near(hit, ex, ey, tl) && near(r2.point, ex, ey, tl), "intersection " << str(r.point) << " exact (" << fmt(ex) << "," << fmt(ey) << ")"); CHECK(near(l1(r.t1), ex, ey, tl), "t1"); CHECK(near(l2(r.t2), ex, ey, tl), "t2 " << fmt(r.t2)); }
	else if (f.big() < 300) { bool co = cr(a, b, cc) == 0; CHECK(r.IsCoincident() == co && r.IsParallel() == !co && !r.HasIntersection(), "parallel lines, coincident " << co << " reported as " << (int)r.type); }
	c.nontrivial(true); c.label(den ? "crossing" : cr(a, b, cc) == 0 ? "coincident" : "parallel");
}
LAW(segments, 5000, 80000) {
	int k = (int)s.pick({2, 4, 40}); Fr f = frame(s); I2 a = ip(s, k), b = ip(s, k), p = ip(s, k), q = ip(s, k), x = ip(s, k); int m = (int)s.i(0, 3); if (m == 0) { LL u = s.i(-3, 3), v = s.i(-3, 3); p = {a.x + u * (b.x - a.x), a.y + u * (b.y - a.y)}; q = {a.x + v * (b.x - a.x), a.y + v * (b.y - a.y)}; } if (m == 1) p = b; if (s.chance(1, 12)) q = p; if (s.chance(1, 12)) b = a;
	c.say([&](auto& o) { o << "segments " << ps(a) << ps(b) << " and " << ps(p) << ps(q) << " scale " << f.sc << " shift " << f.ox << "," << f.oy; });
	double tol = 1e-12 * f.big() + 1e-13; SegmentLine2D s1(f(a), f(b)), s2(f(p), f(q));
	// exact reference
	enum { NONE, POINT, OVER, COLL } ty = NONE; LD px = 0, py = 0; I2 o1{}, o2{}; LL c1 = cr(p, q, a), c2 = cr(p, q, b), c3 = cr(a, b, p), c4 = cr(a, b, q);
	if (!c1 && !c2 && !c3 && !c4) { std::vector<I2> v; for (auto& z : {a, b}) if (onSeg(p, q, z)) v.push_back(z); for (auto& z : {p, q}) if (onSeg(a, b, z)) v.push_back(z); if (v.empty()) ty = COLL; else { auto lt = [](const I2& u, const I2& w) { return std::make_pair(u.x, u.y) < std::make_pair(w.x, w.y); }; o1 = *std::min_element(v.begin(), v.end(), lt); o2 = *std::max_element(v.begin(), v.end(), lt); if (o1 == o2) { ty = POINT; px = o1.x; py = o1.y; } else ty = OVER; } }
	else if (sg(c1) * sg(c2) <= 0 && sg(c3) * sg(c4) <= 0 && (c1 != c2 || c3 != c4)) { LL den = (b.x - a.x) * (q.y - p.y) - (b.y - a.y) * (q.x - p.x); if (den) { ty = POINT; LD t = (LD)((p.x - a.x) * (q.y - p.y) - (p.y - a.y) * (q.x - p.x)) / den; px = a.x + t * (b.x - a.x); py = a.y + t * (b.y - a.y); } }
	for (int v = 0; v < 8; v++) { SegmentLine2D u = v & 1 ? SegmentLine2D(f(b), f(a)) : s1, w = v & 2 ? SegmentLine2D(f(q), f(p)) : s2; if (v & 4) std::swap(u, w); auto r = u.Intersection(w); Pt hit(7777, 7777); bool any = u.Intersects(w, &hit);
		CHECK(any == (ty == POINT || ty == OVER) && r.HasIntersection() == any, "Intersects says " << any << " (variant " << v << ")"); if (ty == POINT) { CHECK(r.IsPointIntersection() && !r.IsOverlap(), "expected a point intersection, type " << (int)r.type << " variant " << v); double tl = tol * 2000; CHECK(near(r.point, f.X(px), f.Y(py), tl) && near(hit, f.X(px), f.Y(py), tl), "intersection " << str(r.point) << " exact (" << f.X(px) << "," << f.Y(py) << ")"); }
		if (ty == OVER) { CHECK(r.IsOverlap(), "expected an overlap, type " << (int)r.type); Pt e1 = f(o1), e2 = f(o2); bool ok = (near(r.overlapStart, e1.X(), e1.Y(), tol) && near(r.overlapEnd, e2.X(), e2.Y(), tol)) || (near(r.overlapStart, e2.X(), e2.Y(), tol) && near(r.overlapEnd, e1.X(), e1.Y(), tol)); CHECK(ok, "overlap " << str(r.overlapStart) << str(r.overlapEnd) << " exact " << str(e1) << str(e2)); }
		if (ty == COLL && !(a == b) && !(p == q)) CHECK(r.type == SegmentIntersectionType::Collinear, "disjoint collinear segments classified " << (int)r.type); if (ty == NONE && !(a == b) && !(p == q)) CHECK(r.type == SegmentIntersectionType::None, "disjoint segments classified " << (int)r.type); }
	LD len = sqrtl((LD)d2(a, b)); CHECK_NEAR(s1.Length(), (double)len * f.sc, tol, "length"); CHECK(near(s1.Midpoint(), f.X((a.x + b.x) / 2.0L), f.Y((a.y + b.y) / 2.0L), tol), "midpoint"); LD t = len > 0 ? (LD)dt(a, b, x) / (LD)d2(a, b) : 0; t = std::max<LD>(0, std::min<LD>(1, t)); LD cx = a.x + t * (b.x - a.x), cy = a.y + t * (b.y - a.y); CHECK(near(s1.ClosestPoint(f(x)), f.X(cx), f.Y(cy), tol), "closest point"); CHECK_NEAR(s1.DistanceToPoint(f(x)), (double)(hypotl(x.x - cx, x.y - cy) * f.sc), tol, "distance"); double tt = s.unit(); CHECK(near(s1.PointOnSegment(tt), f.X(a.x + (LD)tt * (b.x - a.x)), f.Y(a.y + (LD)tt * (b.y - a.y)), tol), "point on segment"); CHECK_THROWS(s1.PointOnSegment(s.b() ? -0.001 - tt : 1.001 + tt), GeometryError, "parameter outside [0,1]"); SegmentLine2D sd(f(a), Vc((double)(b.x - a.x), (double)(b.y - a.y)), f.sc * 0.5); CHECK(near(sd.EndPoint(), f.X((a.x + b.x) / 2.0L), f.Y((a.y + b.y) / 2.0L), tol), "segment from direction");
	c.nontrivial(true); c.label(ty == NONE ? "disjoint" : ty == POINT ? "point" : ty == OVER ? "overlap" : "collinear");
}
static double ang(const I2& o, const I2& a, const I2& b) { return (double)atan2l(fabsl((LD)cr(o, a, b)), (LD)dt(o, a, b)); }
LAW(triangles, 3000, 40000) {
	int k = (int)s.pick({3, 20, 60}); Fr f = frame(s); I2 a = ip(s, k), b = ip(s, k), d = ip(s, k), p = ip(s, k); int m = (int)s.i(0, 5); if (m == 0) { LL u = s.i(-3, 3); d = {a.x + u * (b.x - a.x), a.y + u * (b.y - a.y)}; } if (m == 1) d = {a.x - (b.y - a.y), a.y + (b.x - a.x)}; if (m == 2) d = {2 * b.x - a.x, a.y}, b.y += 0; if (s.chance(1, 3)) { LL u = s.i(0, 4); p = {a.x + (b.x - a.x) * u, a.y + (b.y - a.y) * u}; if (u > 1) p = {(a.x + b.x) / 2, (a.y + b.y) / 2}; }
	c.say([&](auto& o) { o << "triangle " << ps(a) << ps(b) << ps(d) << " point " << ps(p) << " scale " << f.sc << " shift " << f.ox << "," << f.oy; });
	Triangle2D T(f(a), f(b), f(d)); if (s.chance(1, 4)) { T = Triangle2D(f(p), f(a), f(b)); (void)T.Area(); (void)T.A(); T.Pnt1() = f(a); T.Pnt2() = f(b); (void)T.B(); T.Pnt3() = f(d); c.label("edited"); }
	LL A2 = cr(a, b, d); double sc2 = f.sc * f.sc, tol = 1e-12 * f.big() + 1e-13, tol2 = 1e-12 * f.big() * f.big();
	LD la = sqrtl((LD)d2(a, b)) * f.sc, lb = sqrtl((LD)d2(b, d)) * f.sc, lc = sqrtl((LD)d2(d, a)) * f.sc; CHECK_NEAR(T.A(), (double)la, tol, "side a"); CHECK_NEAR(T.B(), (double)lb, tol, "side b"); CHECK_NEAR(T.C(), (double)lc, tol, "side c"); CHECK_NEAR(T.Perimeter(), (double)(la + lb + lc), tol, "perimeter");
	CHECK_NEAR(T.SignedArea(), A2 / 2.0 * sc2, tol2, "signed area"); double hA = std::fabs(A2 / 2.0 * sc2); CHECK(std::fabs(T.Area() - hA) <= 1e-9 * (double)(la + lb + lc) * (double)(la + lb + lc), "area " << fmt(T.Area()) << " exact " << fmt(hA)); CHECK(T.IsCounterClockwise() == (A2 > 0) && T.IsClockwise() == (A2 < 0), "orientation");
	CHECK(near(T.Centroid(), f.X((a.x + b.x + d.x) / 3.0L), f.Y((a.y + b.y + d.y) / 3.0L), tol), "centroid");
	bool eq = false; (void)eq; bool iso = d2(a, b) == d2(b, d) || d2(a, b) == d2(d, a) || d2(b, d) == d2(d, a); CHECK(T.IsIsosceles() == iso, "isosceles " << iso); bool equi = d2(a, b) == d2(b, d) && d2(a, b) == d2(d, a); CHECK(T.IsEquilateral() == equi, "equilateral");
	LL x1 = d2(a, b), x2 = d2(b, d), x3 = d2(d, a); bool rt = x1 + x2 == x3 || x1 + x3 == x2 || x2 + x3 == x1; if (f.sc <= 1 || !rt) CHECK(T.IsRight(1e-9) == rt, "right angled " << rt);
	if (A2 == 0) { CHECK_THROWS(T.Circumcenter(), GeometryError, "circumcentre of a degenerate triangle"); CHECK_THROWS(T.CircumRadius(), GeometryError, "circumradius of a degenerate triangle"); CHECK_THROWS(Circle2D::FromThreePoints(f(a), f(b), f(d)), GeometryError, "circle through collinear points"); c.label("degenerate"); if (a == b && b == d) { CHECK_THROWS(T.Incenter(), GeometryError, "incentre of a point"); CHECK_THROWS(T.InRadius(), GeometryError, "inradius of a point"); } c.nontrivial(true); return; }
	double cond = (double)((la + lb + lc) * (la + lb + lc)) / hA; double R = (double)(la * lb * lc) / (4 * hA); double tc = 1e-13 * cond * (R + f.big()) * 20; CHECK(std::fabs(T.CircumRadius() - R) <= 1e-13 * cond * R * 20, "circumradius " << fmt(T.CircumRadius()) << " exact " << fmt(R)); Pt cc = T.Circumcenter(); double big2 = f.big() / (double)(la + lb + lc); tc *= (1 + big2 * big2); for (auto& v : {a, b, d}) CHECK(std::fabs(cc.Dist(f(v)) - R) <= tc, "circumcentre " << str(cc) << " not equidistant: " << fmt(cc.Dist(f(v)) - R)); Circle2D C3 = Circle2D::FromThreePoints(f(a), f(b), f(d)); CHECK(C3.Center() == cc && std::fabs(C3.Radius() - R) <= 1e-13 * cond * R * 20, "circle through three points");
	double ri = 2 * hA / (double)(la + lb + lc); CHECK_NEAR(T.InRadius(), ri, 1e-12 * cond * ri, "inradius"); Pt ic = T.Incenter(); CHECK_NEAR(SegmentLine2D(f(a), f(b)).DistanceToPoint(ic), ri, tol * 10, "incentre distance"); CHECK_NEAR(SegmentLine2D(f(b), f(d)).DistanceToPoint(ic), ri, tol * 10, "incentre distance"); CHECK_NEAR(SegmentLine2D(f(d), f(a)).DistanceToPoint(ic), ri, tol * 10, "incentre distance");
	double ta = 1e-12 * cond; CHECK_NEAR(T.AngleA(), ang(d, a, b), ta, "angle A (opposite the first side)"); CHECK_NEAR(T.AngleB(), ang(a, b, d), ta, "angle B"); CHECK_NEAR(T.AngleC(), ang(b, d, a), ta, "angle C"); CHECK_NEAR(T.AngleA() + T.AngleB() + T.AngleC(), Constants::PI, 3 * ta, "angle sum");
	int s1 = sg(cr(a, b, p)) * sg(A2), s2 = sg(cr(b, d, p)) * sg(A2), s3 = sg(cr(d, a, p)) * sg(A2); bool in = s1 >= 0 && s2 >= 0 && s3 >= 0; CHECK(T.Contains(f(p)) == in, "containment of " << ps(p) << " expected " << in);
	// the side-length triangle
	Triangle L((double)la, (double)lb, (double)lc); double rt2 = 1e-12 * cond; CHECK(L.IsValid(), "valid triangle rejected"); CHECK_NEAR(L.Area(), hA, rt2 * hA, "area from sides"); CHECK_NEAR(L.AngleA(), ang(d, a, b), ta, "angle"); CHECK_NEAR(L.AngleB(), ang(a, b, d), ta, "angle"); CHECK_NEAR(L.AngleC(), ang(b, d, a), ta, "angle"); CHECK_NEAR(L.Circumradius(), R, rt2 * R, "circumradius"); CHECK_NEAR(L.Inradius(), ri, rt2 * ri, "inradius"); CHECK_NEAR(L.AltitudeToA(), 2 * hA / (double)la, rt2 * hA / (double)la * 2, "altitude"); CHECK_NEAR(L.AltitudeToB(), 2 * hA / (double)lb, rt2 * hA / (double)lb * 2, "altitude"); CHECK_NEAR(L.AltitudeToC(), 2 * hA / (double)lc, rt2 * hA / (double)lc * 2, "altitude");
	auto med = [&](const I2& v, const I2& u, const I2& w) { return (double)(hypotl(v.x - (u.x + w.x) / 2.0L, v.y - (u.y + w.y) / 2.0L) * f.sc); }; CHECK_NEAR(L.MedianToA(), med(d, a, b), rt2 * f.big(), "median"); CHECK_NEAR(L.MedianToB(), med(a, b, d), rt2 * f.big(), "median"); CHECK_NEAR(L.MedianToC(), med(b, d, a), rt2 * f.big(), "median"); CHECK(L.IsIsosceles() == iso && L.IsEquilateral() == equi && L.IsScalene() == !iso, "side classification"); if (!rt) { bool ob = x1 + x2 < x3 || x1 + x3 < x2 || x2 + x3 < x1; CHECK(L.IsObtuse() == ob && L.IsAcute() == !ob && !L.IsRight(1e-9), "angle classification"); } else if (f.sc <= 1) CHECK(L.IsRight(1e-9), "right angle"); CHECK(!Triangle((double)(la + lb) * 1.001, (double)la, (double)lb).IsValid(), "triangle inequality violated but valid"); CHECK_NEAR(Circle::Inscribed(L).Radius(), ri, rt2 * ri, "inscribed"); CHECK_NEAR(Circle::Circumscribed(L).Radius(), R, rt2 * R, "circumscribed");
	c.nontrivial(true);
}
static bool simpleRef(const std::vector<I2>& v, bool& crosses) { int n = v.size(); bool touch = false; crosses = false; for (int i = 0; i < n; i++) { const I2 &a = v[i], &b = v[(i + 1) % n], &d = v[(i + 2) % n]; if (a == b) touch = true; if (cr(a, b, d) == 0 && dt(b, a, d) > 0) touch = true; for (int j = i + 1; j < n; j++) { const I2 &p = v[j], &q = v[(j + 1) % n]; LL c1 = cr(p, q, a), c2 = cr(p, q, b), c3 = cr(a, b, p), c4 = cr(a, b, q); if (sg(c1) * sg(c2) < 0 && sg(c3) * sg(c4) < 0) crosses = true; if (j == i + 1 || (i == 0 && j == n - 1)) continue; if (onSeg(a, b, p) || onSeg(a, b, q) || onSeg(p, q, a) || onSeg(p, q, b)) touch = true; } } return !touch && !crosses; }
LAW(polygons, 3000, 40000) {
	int k = (int)s.pick({3, 10, 40}); Fr f = frame(s); int n = (int)s.i(3, 9); std::vector<I2> v; int kind = (int)s.i(0, 3);
	if (kind == 0) for (int i = 0; i < n; i++) v.push_back(ip(s, k));
	else if (kind == 1) { for (int i = 0; i < n; i++) { I2 p = ip(s, k); if (p.x == 0 && p.y == 0) p.x = 1; v.push_back(p); } std::sort(v.begin(), v.end(), [](const I2& p, const I2& q) { return std::make_pair(atan2l(p.y, p.x), -(p.x * p.x + p.y * p.y)) < std::make_pair(atan2l(q.y, q.x), -(q.x * q.x + q.y * q.y)); }); }
	else if (kind == 2) { std::vector<I2> w; for (int i = 0; i < n + 4; i++) w.push_back(ip(s, k)); auto lt = [](const I2& u, const I2& q) { return std::make_pair(u.x, u.y) < std::make_pair(q.x, q.y); }; std::sort(w.begin(), w.end(), lt); w.erase(std::unique(w.begin(), w.end()), w.end()); std::vector<I2> h; for (int t = 0; t < 2; t++) { size_t b0 = h.size(); for (auto& p : w) { while (h.size() >= b0 + 2 && cr(h[h.size() - 2], h.back(), p) <= 0) h.pop_back(); h.push_back(p); } h.pop_back(); std::reverse(w.begin(), w.end()); } v = h; } // convex hull
	else { int st = (int)s.i(2, 3), m = 2 * st + 1; std::vector<I2> circ; for (int i = 0; i < m; i++) circ.push_back({(LL)std::llround(50 * std::cos(2 * M_PI * i / m)), (LL)std::llround(50 * std::sin(2 * M_PI * i / m))}); for (int i = 0; i < m; i++) v.push_back(circ[(i * st) % m]); } // star polygon
	DISCARD_IF(v.size() < 3); n = (int)v.size(); if (s.b()) std::reverse(v.begin(), v.end()); std::rotate(v.begin(), v.begin() + s.i(0, n - 1), v.end());
	c.say([&](auto& o) { o << "polygon"; for (auto& p : v) o << " " << ps(p); o << " scale " << f.sc << " shift " << f.ox << "," << f.oy; });
	std::vector<Pt> pv; for (auto& p : v) pv.push_back(f(p)); Polygon2D P = s.b() ? Polygon2D(pv) : Polygon2D(); if (!P.NumVertices()) for (auto& p : pv) P.AddVertex(p); CHECK(P.NumVertices() == n, "vertex count");
	LL A2 = 0, mx = 0, my = 0; LD per = 0; LL x0 = v[0].x, x1 = x0, yl = v[0].y, yh = yl; for (int i = 0; i < n; i++) { auto &p = v[i], &q = v[(i + 1) % n]; LL z = p.x * q.y - p.y * q.x; A2 += z; mx += (p.x + q.x) * z; my += (p.y + q.y) * z; per += sqrtl((LD)d2(p, q)); x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); yl = std::min(yl, p.y); yh = std::max(yh, p.y); }
	double tol = 1e-12 * f.big(), tol2 = tol * f.big() * n, ar = A2 / 2.0 * f.sc * f.sc; CHECK_NEAR(P.SignedArea(), ar, tol2, "signed area"); CHECK_NEAR(P.Area(), std::fabs(ar), tol2, "area"); CHECK_NEAR(P.Perimeter(), (double)per * f.sc, tol * n, "perimeter"); CHECK(P.IsCounterClockwise() == (A2 > 0) && P.IsClockwise() == (A2 < 0), "orientation"); auto bb = P.GetBoundingBox(); CHECK(bb.minX == f.X(x0) && bb.maxX == f.X(x1) && bb.minY == f.Y(yl) && bb.maxY == f.Y(yh), "bounding box"); CHECK_NEAR(bb.Width(), (x1 - x0) * f.sc, tol, "width"); CHECK_NEAR(bb.Height(), (yh - yl) * f.sc, tol, "height");
	if (A2) { Pt g = P.Centroid(); double tl = tol * (1 + f.big() * f.big() / std::fabs(ar)) * 10; CHECK(near(g, f.X(mx / (3.0L * A2)), f.Y(my / (3.0L * A2)), tl), "centroid " << str(g)); } else CHECK_THROWS(P.Centroid(), GeometryError, "centroid of zero area");
	bool crosses, simple = simpleRef(v, crosses); if (simple) CHECK(P.IsSimple(), "simple polygon reported as self-intersecting"); if (crosses) CHECK(!P.IsSimple(), "self-crossing polygon reported as simple");
	bool pos = false, neg = false; for (int i = 0; i < n; i++) { LL z = cr(v[i], v[(i + 1) % n], v[(i + 2) % n]); pos |= z > 0; neg |= z < 0; } if (simple) CHECK(P.IsConvex() == !(pos && neg), "convexity, expected " << !(pos && neg)); bool fold = false; for (int i = 0; i < n; i++) if (cr(v[i], v[(i + 1) % n], v[(i + 2) % n]) == 0 && dt(v[(i + 1) % n], v[i], v[(i + 2) % n]) >= 0) fold = true;
	if (crosses && !fold) CHECK(!P.IsConvex(), "self-crossing polygon reported as convex");
	if (simple && !(pos && neg)) { double t = 0; for (auto& q : P.Triangularization()) t += q.SignedArea(); CHECK_NEAR(t, ar, tol2, "triangulated area"); CHECK((int)P.Triangularization().size() == n - 2, "triangle count"); for (auto& q : P.Triangularization()) CHECK(q.SignedArea() * ar >= -tol2, "triangle orientation"); }
	for (int t = 0; t < 4; t++) { I2 p = ip(s, k + 1); bool on = false; LD w = 0; bool in = false; for (int i = 0; i < n; i++) { auto &a = v[i], &b = v[(i + 1) % n]; if (onSeg(a, b, p)) on = true; w += atan2l((LD)cr(p, a, b), (LD)dt(p, a, b)); if ((a.y > p.y) != (b.y > p.y)) { LL z = cr(a, b, p); if ((b.y > a.y) ? z > 0 : z < 0) in = !in; } } if (on) continue; int wn = (int)std::llround((double)(w / (2 * M_PIl))); CHECK(P.WindingNumber(f(p)) == wn, "winding number of " << ps(p) << " is " << P.WindingNumber(f(p)) << ", exact " << wn); CHECK(P.Contains(f(p)) == in, "ray casting of " << ps(p) << " expected " << in); if (simple) CHECK(P.Contains(f(p)) == (wn != 0), "containment in a simple polygon"); }
	Polygon2D R = P; R.Reverse(); CHECK_NEAR(R.SignedArea(), -ar, tol2, "reversal"); int e = (int)s.i(0, n - 1); SegmentLine2D ed = P.Edge(e); CHECK(ed.StartPoint() == pv[e] && ed.EndPoint() == pv[(e + 1) % n] && P.Vertex(e) == pv[e], "edge"); CHECK_THROWS(P.Edge(s.b() ? n : -1), VectorAccessBoundsError, "edge index"); CHECK_THROWS(P.Vertex(s.b() ? n : -1), VectorAccessBoundsError, "vertex index"); P.Clear(); CHECK_THROWS(P.Centroid(), GeometryError, "empty"); CHECK_THROWS(P.GetBoundingBox(), GeometryError, "empty"); CHECK(P.Area() == 0 && P.Perimeter() == 0 && !P.Contains(Pt(0, 0)) && !P.IsSimple(), "empty polygon");
	c.nontrivial(A2 != 0); c.label(simple ? (pos && neg ? "simple concave" : "convex") : crosses ? "crossing" : "touching");
}
LAW(circles, 2000, 30000) {
	Fr f = frame(s); I2 a = ip(s, 20), b = ip(s, 20), p = ip(s, 30), q = ip(s, 30); LL r1 = s.i(0, 15), r2 = s.i(0, 15); if (s.b()) { static const int py[4][2] = {{3, 4}, {5, 12}, {8, 15}, {0, 7}}; auto& t = py[s.i(0, 3)]; b = {a.x + t[0] * (s.b() ? 1 : -1), a.y + t[1] * (s.b() ? 1 : -1)}; LL d = (LL)std::llround(std::sqrt((double)d2(a, b))); r2 = s.b() ? std::abs(d - r1) : d + r1; } c.say([&](auto& o) { o << "circles " << ps(a) << " r " << r1 << ", " << ps(b) << " r " << r2 << " points " << ps(p) << ps(q) << " scale " << f.sc; });
	double tol = 1e-12 * f.big(); Circle2D C(f(a), r1 * f.sc), D(f(b).X(), f(b).Y(), r2 * f.sc); LL dd = d2(a, b); CHECK(C.Intersects(D) == (dd <= (r1 + r2) * (r1 + r2) && dd >= (r1 - r2) * (r1 - r2)), "circle-circle intersection"); CHECK(C.Intersects(D) == D.Intersects(C), "symmetry");
	LL e = d2(a, p); double de = std::sqrt((double)e) * f.sc; CHECK(C.Contains(f(p)) == (e <= r1 * r1), "containment"); CHECK(C.IsOnBoundary(f(p)) == (e == r1 * r1), "boundary"); CHECK_NEAR(C.DistanceFromCenter(f(p)), de, tol, "centre distance"); CHECK_NEAR(C.SignedDistance(f(p)), de - r1 * f.sc, tol, "signed distance"); CHECK_NEAR(C.DistanceToPoint(f(p)), std::fabs(de - r1 * f.sc), tol, "distance"); Pt cp = C.ClosestPoint(f(p)); CHECK_NEAR(cp.Dist(f(a)), r1 * f.sc, tol, "closest point off the circle"); CHECK_NEAR(cp.Dist(f(p)), std::fabs(de - r1 * f.sc), tol, "closest point is not closest");
	if (!(p == q)) { LL z = cr(p, q, a); LL l2 = d2(p, q); __int128 lhs = (__int128)z * z, rhs = (__int128)r1 * r1 * l2; if (lhs != rhs) CHECK(C.Intersects(Line2D(f(p), f(q))) == (lhs < rhs), "line-circle intersection"); Circle2D E = Circle2D::FromDiameter(f(p), f(q)); CHECK_NEAR(E.Diameter(), std::sqrt((double)l2) * f.sc, tol, "diameter"); CHECK(near(E.Center(), f.X((p.x + q.x) / 2.0L), f.Y((p.y + q.y) / 2.0L), tol), "centre"); }
	double th = s.uni(-10, 10); Pt at = C.PointAt(th); CHECK(near(at, f(a).X() + r1 * f.sc * std::cos(th), f(a).Y() + r1 * f.sc * std::sin(th), tol), "point at angle"); Vc tg = C.TangentAt(th); CHECK(std::fabs(tg.X() * (at.X() - f(a).X()) + tg.Y() * (at.Y() - f(a).Y())) <= tol && std::fabs(tg.NormL2() - 1) < 1e-14, "tangent"); CHECK(tg.X() * -std::sin(th) + tg.Y() * std::cos(th) > 0.999, "tangent orientation"); double r = r1 * f.sc; CHECK_NEAR(C.Area(), Constants::PI * r * r, 1e-14 * r * r, "area"); CHECK_NEAR(C.Circumference(), 2 * Constants::PI * r, 1e-14 * r, "circumference"); CHECK_NEAR(C.ArcLength(th), r * std::fabs(th), 1e-13 * r, "arc"); CHECK_NEAR(C.SectorArea(th), r * r * std::fabs(th) / 2, 1e-13 * r * r, "sector"); if (std::fabs(th) <= 2 * Constants::PI) CHECK_NEAR(C.ChordLength(th), C.PointAt(0).Dist(C.PointAt(th)), tol * 10, "chord");
	auto bb = C.GetBoundingBox(); CHECK_NEAR(bb.Width(), 2 * r, tol, "box"); CHECK(near(bb.Center(), f(a).X(), f(a).Y(), tol), "box centre"); CHECK(bb.minX <= at.X() + tol && bb.maxX >= at.X() - tol && bb.minY <= at.Y() + tol && bb.maxY >= at.Y() - tol, "box does not contain the circle"); Circle2D tr = C.Translated(Vc(3, -2)); CHECK(near(tr.Center(), f(a).X() + 3, f(a).Y() - 2, tol) && tr.Radius() == C.Radius(), "translation"); CHECK_NEAR(C.Scaled(2.5).Radius(), 2.5 * r, tol, "scaling"); CHECK_THROWS(C.Scaled(-s.unit()), GeometryError, "negative scale"); CHECK_THROWS(Circle2D(f(a), -0.01 - s.unit()), GeometryError, "negative radius"); CHECK_THROWS(Circle2D(1, 2, -0.01 - s.unit()), GeometryError, "negative radius");
	c.nontrivial(r1 > 0);
}
LAW(boxes, 2000, 30000) {
	Fr f = frame(s); int k = (int)s.pick({3, 20}); I2 a = ip(s, k), b = ip(s, k), p = ip(s, k + 2), u = ip(s, k), v = ip(s, k); LL r = s.i(0, 10); c.say([&](auto& o) { o << "box " << ps(a) << ps(b) << " box " << ps(u) << ps(v) << " point " << ps(p) << " scale " << f.sc; });
	double tol = 1e-12 * f.big(); Box2D B = s.b() ? Box2D(f(a), f(b)) : Box2D(f(a).X(), f(a).Y(), f(b).X(), f(b).Y()), Q(f(u), f(v)); LL x0 = std::min(a.x, b.x), x1 = std::max(a.x, b.x), yl = std::min(a.y, b.y), yh = std::max(a.y, b.y), X0 = std::min(u.x, v.x), X1 = std::max(u.x, v.x), Yl = std::min(u.y, v.y), Yh = std::max(u.y, v.y);
	CHECK(B.MinX() == f.X(x0) && B.MaxX() == f.X(x1) && B.MinY() == f.Y(yl) && B.MaxY() == f.Y(yh), "corners not normalised"); double w = (x1 - x0) * f.sc, h = (yh - yl) * f.sc; CHECK(B.Width() == w && B.Height() == h && B.Area() == w * h && B.Perimeter() == 2 * (w + h), "measures"); CHECK_NEAR(B.Diagonal(), std::hypot(w, h), tol, "diagonal"); if (h > 0) CHECK_NEAR(B.AspectRatio(), w / h, 1e-14 * w / h, "aspect"); CHECK(near(B.Center(), f.X((x0 + x1) / 2.0L), f.Y((yl + yh) / 2.0L), tol), "centre"); CHECK(B.IsDegenerate() == (w == 0 || h == 0), "degenerate");
	bool in = p.x >= x0 && p.x <= x1 && p.y >= yl && p.y <= yh; CHECK(B.Contains(f(p)) == in, "containment expected " << in); LL dx = std::max({x0 - p.x, 0LL, p.x - x1}), dy = std::max({yl - p.y, 0LL, p.y - yh}); CHECK_NEAR(B.DistanceToPoint(f(p)), std::hypot((double)dx, (double)dy) * f.sc, tol, "distance"); Pt cp = B.ClosestPoint(f(p)); CHECK(B.Contains(cp), "closest point outside"); CHECK_NEAR(cp.Dist(f(p)), std::hypot((double)dx, (double)dy) * f.sc, tol, "closest point");
	bool is = x0 <= X1 && X0 <= x1 && yl <= Yh && Yl <= yh; CHECK(B.Intersects(Q) == is && Q.Intersects(B) == is, "box intersection expected " << is); CHECK(B.Contains(Q) == (X0 >= x0 && X1 <= x1 && Yl >= yl && Yh <= yh), "box in box"); Box2D I = B.Intersection(Q), U = B.Union(Q); if (is) CHECK(I.MinX() == f.X(std::max(x0, X0)) && I.MaxX() == f.X(std::min(x1, X1)) && I.MinY() == f.Y(std::max(yl, Yl)) && I.MaxY() == f.Y(std::min(yh, Yh)), "intersection"); else CHECK(I.Area() == 0, "empty intersection"); CHECK(U.MinX() == f.X(std::min(x0, X0)) && U.MaxX() == f.X(std::max(x1, X1)) && U.MinY() == f.Y(std::min(yl, Yl)) && U.MaxY() == f.Y(std::max(yh, Yh)), "union"); Box2D E = B; E.ExpandToInclude(f(p)); CHECK(E.Contains(f(p)) && E.Contains(B) && E.Width() == std::max(x1, p.x) * f.sc - std::min(x0, p.x) * f.sc, "expansion");
	auto cs = B.Corners(); CHECK(cs.size() == 4 && cs[0] == B.BottomLeft() && cs[1] == B.BottomRight() && cs[2] == B.TopRight() && cs[3] == B.TopLeft(), "corner order"); CHECK_NEAR(B.ToPolygon().SignedArea(), w * h, 1e-11 * f.big() * f.big(), "polygon"); Box2D ex = B.Expanded(2); CHECK_NEAR(ex.Width(), w + 4, tol, "expanded"); Box2D sc = B.Scaled(3); CHECK_NEAR(sc.Width(), 3 * w, tol, "scaled"); CHECK(near(sc.Center(), B.Center().X(), B.Center().Y(), tol), "scaled centre"); Box2D tr = B.Translated(Vc(2, -5)); CHECK(near(tr.Min(), B.MinX() + 2, B.MinY() - 5, tol) && std::fabs(tr.Width() - w) <= tol, "translated"); Box2D fc = Box2D::FromCenterAndSize(f(p), w, h); CHECK(near(fc.Center(), f(p).X(), f(p).Y(), tol) && std::fabs(fc.Width() - w) <= tol && std::fabs(fc.Height() - h) <= tol, "from centre"); Box2D fp = Box2D::FromPoints({f(a), f(b), f(p), f(u)}); CHECK(fp.MinX() == f.X(std::min({x0, p.x, u.x})) && fp.MaxY() == f.Y(std::max({yh, p.y, u.y})) && fp.Contains(f(a)) && fp.Contains(f(b)) && fp.Contains(f(p)), "from points"); CHECK_THROWS(Box2D::FromPoints({}), GeometryError, "no points"); CHECK(B.Intersects(Circle2D(f(p), r * f.sc)) == (dx * dx + dy * dy <= r * r), "box-circle");
	c.nontrivial(w > 0 && h > 0);
}
LAW(shapes, 2000, 30000) { // measures of named shapes against coordinates
	double a = s.pwide(-3, 3), b = a * s.uni(0.2, 5), an = s.uni(0.05, 3.09); c.say([&](auto& o) { o << "a " << fmt(a) << " b " << fmt(b) << " angle " << fmt(an); }); double t = 1e-12 * (a + b), t2 = t * (a + b);
	Parallelogram P(a, b, an); double px = a + b * std::cos(an), py = b * std::sin(an), qx = a - b * std::cos(an); CHECK(P.IsValid(), "valid"); CHECK_NEAR(P.Area(), a * py, t2, "area"); CHECK_NEAR(P.DiagonalQ(), std::hypot(px, py), t * 100, "long diagonal"); CHECK_NEAR(P.DiagonalP(), std::hypot(qx, py), t * 100, "short diagonal"); CHECK_NEAR(P.HeightToA(), py, t, "height"); CHECK_NEAR(P.HeightToB(), a * std::sin(an), t, "height"); CHECK_NEAR(P.Perimeter(), 2 * (a + b), t, "perimeter"); CHECK_NEAR(P.AcuteAngle() + P.ObtuseAngle(), Constants::PI, 1e-14, "angles"); CHECK(P.AcuteAngle() <= P.ObtuseAngle(), "acute"); CHECK(P.IsRectangle() == (std::fabs(an - Constants::PI / 2) < 1e-10) || std::fabs(std::fabs(an - Constants::PI / 2)) < 1e-6, "rectangle");
	{ double p = a, q = b, be = an; Parallelogram F = Parallelogram::FromDiagonals(p, q, be); CHECK_NEAR(F.Area(), 0.5 * p * q * std::sin(be), 1e-7 * p * q, "area from diagonals " << fmt(p) << " " << fmt(q) << " " << fmt(be) << ": " << fmt(F.Area())); double f1 = F.DiagonalP(), f2 = F.DiagonalQ(); CHECK_NEAR(std::min(f1, f2), std::min(p, q), 1e-7 * (p + q), "diagonal"); CHECK_NEAR(std::max(f1, f2), std::max(p, q), 1e-7 * (p + q), "diagonal"); }
	Rhombus R(a, b); double sd = std::hypot(a, b) / 2; CHECK_NEAR(R.Side(), sd, t, "side"); CHECK_NEAR(R.Area(), a * b / 2, t2, "area"); CHECK_NEAR(R.Perimeter(), 4 * sd, t * 4, "perimeter"); CHECK_NEAR(R.Height(), a * b / 2 / sd, t, "height"); CHECK_NEAR(R.Inradius(), a * b / 4 / sd, t, "inradius"); CHECK_NEAR(std::sin(R.AcuteAngle()) * sd * sd, a * b / 2, t2, "acute angle"); CHECK(R.AcuteAngle() <= Constants::PI / 2 + 1e-14, "acute"); Rhombus R2 = Rhombus::FromSideAndAngle(a, an); CHECK_NEAR(R2.Area(), a * a * std::sin(an), t2, "rhombus from angle"); CHECK_NEAR(R2.Side(), a, t, "side"); Rhombus R3 = Rhombus::FromSideAndDiagonal(sd, a); CHECK_NEAR(R3.Diagonal2(), b, 1e-10 * (a + b), "second diagonal");
	Rectangle Q(a, b); CHECK_NEAR(Q.Area(), a * b, t2, "area"); CHECK_NEAR(Q.Diagonal(), std::hypot(a, b), t, "diagonal"); CHECK_NEAR(Q.InscribedCircleRadius(), std::min(a, b) / 2, t, "inscribed"); CHECK_NEAR(Q.CircumscribedCircleRadius(), std::hypot(a, b) / 2, t, "circumscribed"); Rectangle Q2 = Rectangle::FromDiagonalAndRatio(a, b / a); CHECK_NEAR(Q2.Diagonal(), a, t, "diagonal"); CHECK_NEAR(Q2.AspectRatio(), b / a, 1e-13 * b / a, "ratio"); Rectangle gr = Rectangle::GoldenRectangle(a); CHECK_NEAR(gr.Height() * (1 + std::sqrt(5.0)) / 2, a, t, "golden");
	Trapezoid Z(a, b, an); CHECK_NEAR(Z.Area(), (a + b) / 2 * an, t * 4, "trapezoid"); CHECK_NEAR(Z.Median(), (a + b) / 2, t, "median"); double leg = std::fabs(a - b) / 2 + s.uni(0.1, 1) * a; Trapezoid Zi = Trapezoid::Isosceles(a, b, leg); CHECK_NEAR(std::hypot(Zi.Height(), (a - b) / 2), leg, 1e-11 * leg, "leg");
	double mj = std::max(a, b), mn = std::min(a, b); Ellipse E(mj, mn); double cf = std::sqrt(std::max(0.0, mj * mj - mn * mn)); CHECK_NEAR(E.Area(), Constants::PI * a * b, t2, "ellipse area"); CHECK_NEAR(E.LinearEccentricity(), cf, 1e-7 * mj, "focus"); CHECK_NEAR(E.Eccentricity(), cf / mj, 1e-7, "eccentricity"); CHECK_NEAR(E.SemiLatusRectum(), mn * mn / mj, t, "latus rectum"); if (mj > 1.001 * mn) CHECK_NEAR(E.DirectrixDistance() * E.Eccentricity(), mj, 1e-10 * mj, "directrix"); Ellipse Ef = Ellipse::FromFoci(E.FocalDistance(), E.MajorAxis()); CHECK_NEAR(Ef.SemiMinor(), mn, 1e-9 * mj, "from foci"); LD L = 0; int N = 256; for (int i = 0; i < N; i++) { LD th = 2 * M_PIl * (i + 0.5L) / N; L += sqrtl((LD)mj * mj * sinl(th) * sinl(th) + (LD)mn * mn * cosl(th) * cosl(th)); } L *= 2 * M_PIl / N; CHECK_NEAR(E.Circumference(), (double)L, 2e-3 * (double)L, "circumference (Ramanujan)"); if (mj < 2 * mn) CHECK_NEAR(E.Circumference(), (double)L, 1e-6 * (double)L, "circumference (Ramanujan)");
	CircularSector S(a, 2 * an); CHECK_NEAR(S.Area(), a * a * an, t2 * 10, "sector"); CHECK_NEAR(S.ArcLength(), 2 * a * an, t * 10, "arc"); CHECK_NEAR(S.Perimeter(), 2 * a + 2 * a * an, t * 10, "perimeter"); CHECK_NEAR(S.ChordLength(), a * std::hypot(1 - std::cos(2 * an), std::sin(2 * an)), t * 10, "chord"); CircularSegment G(a, 2 * an); CHECK_NEAR(G.Area(), a * a * an - a * a * std::sin(2 * an) / 2, t2 * 10, "segment"); CHECK_NEAR(G.Sagitta(), a - a * std::cos(an), t * 10, "sagitta"); CircularSegment G2 = CircularSegment::FromSagitta(a, G.Sagitta()); CHECK_NEAR(G2.Angle(), 2 * an, 1e-8, "from sagitta"); CHECK_NEAR(G.Perimeter(), 2 * a * an + S.ChordLength(), t * 10, "segment perimeter"); Circle K(a); CHECK_NEAR(K.SegmentArea(2 * an), G.Area(), t2 * 10, "circle segment"); CHECK_NEAR(Circle::FromArea(K.Area()).Radius(), a, t, "from area"); CHECK_NEAR(Circle::FromCircumference(K.Circumference()).Radius(), a, t, "from circumference");
	Annulus An(mn, mj); CHECK_NEAR(An.Area(), Constants::PI * (mj - mn) * (mj + mn), t2 * 10, "annulus"); CHECK_NEAR(An.MeanCircumference() * An.Width(), An.Area(), t2 * 10, "annulus");
	int n = (int)s.i(3, 40); RegularPolygon N1(n, a); Polygon2D pg; double CR = a / (2 * std::sin(M_PI / n)); for (int i = 0; i < n; i++) pg.AddVertex(Pt(CR * std::cos(2 * M_PI * i / n), CR * std::sin(2 * M_PI * i / n))); CHECK_NEAR(N1.Area(), pg.Area(), 1e-11 * pg.Area(), "regular polygon area"); CHECK_NEAR(N1.Perimeter(), pg.Perimeter(), 1e-11 * pg.Perimeter(), "perimeter"); CHECK_NEAR(N1.Circumradius(), CR, 1e-12 * CR, "circumradius"); CHECK_NEAR(N1.Apothem(), pg.Edge(0).DistanceToPoint(Pt(0, 0)), 1e-11 * CR, "apothem"); CHECK_NEAR(N1.InteriorAngle() + N1.ExteriorAngle(), Constants::PI, 1e-14, "angles"); CHECK_NEAR(RegularPolygon::FromCircumradius(n, CR).SideLength(), a, 1e-11 * a, "from R"); CHECK_NEAR(RegularPolygon::FromInradius(n, N1.Inradius()).SideLength(), a, 1e-11 * a, "from r"); CHECK_NEAR(RegularPolygon::FromArea(n, N1.Area()).SideLength(), a, 1e-11 * a, "from area");
	c.nontrivial(true);
}
