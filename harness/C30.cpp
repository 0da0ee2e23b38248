// C30: typed vectors and points against their Cartesian meaning in extended precision
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "base/Geometry/GeometryCore/GeometryPoints.h"
#include "base/BaseUtils/AngleCoordUtils.h"
typedef std::array<LD, 3> V3;
static const LD PI = acosl(-1.0L);
static double ang(Src& s) { int k = (int)s.i(0, 4); if (k == 0) return (double)(PI / 4) * (int)s.i(-8, 8); if (k == 1) return (double)(PI) * (int)s.i(-2, 2) + s.uni(-1, 1) * 1e-9; return s.uni(-7, 7); }
static double inc(Src& s) { int k = (int)s.i(0, 4); if (k == 0) return (double)(PI / 4) * (int)s.i(0, 4); if (k == 1) return s.b() ? s.pwide(-9, 0) : (double)PI - s.pwide(-9, 0); return s.uni(0, (double)PI); }
static double rad(Src& s) { return s.chance(1, 12) ? 0.0 : s.pwide(-6, 6); }
static double comp(Src& s) { return s.chance(1, 6) ? 0.0 : s.chance(1, 3) ? (double)s.i(-4, 4) : s.wide(-6, 6); }
static V3 sph(double r, double t, double p) { return { (LD)r * sinl(t) * cosl(p), (LD)r * sinl(t) * sinl(p), (LD)r * cosl(t) }; }
static V3 cyl(double r, double p, double z) { return { (LD)r * cosl(p), (LD)r * sinl(p), (LD)z }; }
static LD len(const V3& a) { return sqrtl(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
static V3 sub(const V3& a, const V3& b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
static V3 add(const V3& a, const V3& b) { return { a[0] + b[0], a[1] + b[1], a[2] + b[2] }; }
static LD dist(const V3& a, const V3& b) { return len(sub(a, b)); }
static LD hyp(const V3& a) { return sqrtl(a[0] * a[0] + a[1] * a[1]); }
#define NEARV(v, w, tol, msg) CHECK(dist(v, w) <= (tol), msg << ": off by " << (double)dist(v, w) << " (tol " << (double)(tol) << ")")

LAW(conversions, 6000, 80000) { double x = comp(s), y = comp(s), z = comp(s); c.say([&](auto& o) { o << "(" << fmt(x) << "," << fmt(y) << "," << fmt(z) << ")"; }); c.nontrivial(x != 0 && y != 0 && z != 0); V3 p{ x, y, z }; LD R = len(p); LD e = 1e-15L * R;
	double r, t, f, a, b, d; Utils::CartesianToSpherical(x, y, z, r, t, f); CHECK(r >= 0 && t >= 0 && t <= (double)PI + 1e-15 && f >= -(double)PI && f <= (double)PI, "spherical ranges r=" << r << " theta=" << fmt(t) << " phi=" << fmt(f)); LD pole = std::min(3e-8L, 3e-16L * R / std::max(hyp(p), 1e-300L)) * R; NEARV(sph(r, t, f), p, 4 * e + pole, "CartesianToSpherical");
	Utils::SphericalToCartesian(r, t, f, a, b, d); NEARV((V3{ a, b, d }), sph(r, t, f), 4 * e, "SphericalToCartesian");
	Utils::CartesianToCylindrical(x, y, z, r, t, f); CHECK(r >= 0 && std::fabs(t) <= (double)PI && f == z, "cylindrical ranges"); NEARV(cyl(r, t, f), p, 4 * e, "CartesianToCylindrical"); Utils::CylindricalToCartesian(r, t, f, a, b, d); NEARV((V3{ a, b, d }), p, 4 * e, "CylindricalToCartesian");
	Utils::CartesianToPolar(x, y, r, t); CHECK(r >= 0 && std::fabs(t) <= (double)PI, "polar ranges"); NEARV(cyl(r, t, 0), (V3{ x, y, 0 }), 4 * e, "CartesianToPolar"); Utils::PolarToCartesian(r, t, a, b); NEARV((V3{ a, b, 0 }), (V3{ x, y, 0 }), 4 * e, "PolarToCartesian");
	Pnt3Cart P(x, y, z); Pnt3Sph S(P); Pnt3Cyl C(P); Pnt2Cart Q(x, y); Pnt2Pol L(Q); CHECK(S.R() >= 0 && S.Theta() >= 0 && S.Theta() <= (double)PI && std::fabs(S.Phi()) <= (double)PI && C.R() >= 0 && L.R() >= 0, "point ranges"); Pnt3Cart S2 = S.TransfToCart(), C2 = C.TransfToCart(); Pnt2Cart L2 = L.TransfToCart();
	NEARV(sph(S.R(), S.Theta(), S.Phi()), p, 4 * e, "Point3Spherical"); NEARV((V3{ S2.X(), S2.Y(), S2.Z() }), p, 6 * e, "Point3Spherical round trip"); NEARV((V3{ C2.X(), C2.Y(), C2.Z() }), p, 6 * e, "Point3Cylindrical round trip"); NEARV((V3{ L2.X(), L2.Y(), 0 }), (V3{ x, y, 0 }), 6 * e, "Point2Polar round trip");
	CHECK(S.TransfToCart().IsEqualTo(P, 1e-14 * (double)R + 1e-300) && P.Dist(P) == 0, "round-tripped point not equal"); }

LAW(distances, 6000, 80000) { double r1 = rad(s), r2 = s.chance(1, 3) ? r1 * (1 + s.uni(-1, 1) * s.pick({0.0, 1e-15, 1e-10, 1e-3})) : rad(s), t1 = inc(s), t2 = s.chance(1, 3) ? t1 + s.uni(-1, 1) * s.pick({0.0, 1e-12, 1e-6}) : inc(s), p1 = ang(s), p2 = s.chance(1, 3) ? p1 + s.uni(-1, 1) * s.pick({0.0, 1e-12, 1e-6}) : ang(s), z1 = comp(s), z2 = s.b() ? z1 : comp(s); c.say([&](auto& o) { o << "(" << fmt(r1) << "," << fmt(t1) << "," << fmt(p1) << "; z " << fmt(z1) << ") (" << fmt(r2) << "," << fmt(t2) << "," << fmt(p2) << "; z " << fmt(z2) << ")"; }); c.nontrivial(r1 > 0 && r2 > 0 && p1 != p2); c.label(p1 == p2 && r1 == r2 ? "same polar" : "different");
	LD sc = std::max(r1, r2), e = 2e-15L * sc; Pnt2Pol A(r1, p1), B(r2, p2); V3 a = cyl(r1, p1, 0), b = cyl(r2, p2, 0); CHECK_NEAR((LD)A.Dist(B), dist(a, b), e, "polar distance"); CHECK(A.Dist(B) == B.Dist(A) || std::fabs(A.Dist(B) - B.Dist(A)) <= (double)e, "polar distance not symmetric"); CHECK(A.Dist(A) == 0 && A.IsEqualTo(A), "polar point not equal to itself"); CHECK_NEAR((LD)A.TransfToCart().Dist(B.TransfToCart()), dist(a, b), 2 * e, "Cartesian distance of polar points");
	Pnt3Sph S(r1, t1, p1), T(r2, t2, p2); V3 sa = sph(r1, t1, p1), sb = sph(r2, t2, p2); CHECK_NEAR((LD)S.Dist(T), dist(sa, sb), 2 * e, "spherical distance"); CHECK(S.Dist(S) == 0 && S.IsEqualTo(S), "spherical point not equal to itself"); CHECK_NEAR((LD)S.TransfToCart().Dist(T.TransfToCart()), dist(sa, sb), 2 * e, "Cartesian distance of spherical points");
	Pnt3Cyl C(r1, p1, z1), D(r2, p2, z2); V3 ca = cyl(r1, p1, z1), cb = cyl(r2, p2, z2); LD e2 = e + 4e-16L * (fabsl(z1) + fabsl(z2)); CHECK_NEAR((LD)C.Dist(D), dist(ca, cb), 2 * e2, "cylindrical distance"); CHECK(C.Dist(C) == 0 && C.IsEqualTo(C), "cylindrical point not equal to itself");
	double eps = s.pick({1e-12, 1e-6, 1e-2, 1.0}); auto eq = [&](bool got, LD d, LD tol) { if (d < eps - 4 * tol) CHECK(got, "points closer than eps not equal"); if (d > eps + 4 * tol) CHECK(!got, "points farther than eps equal"); }; eq(A.IsEqualTo(B, eps), dist(a, b), e); eq(S.IsEqualTo(T, eps), dist(sa, sb), e); eq(C.IsEqualTo(D, eps), dist(ca, cb), e2); CHECK((A == B) == !(A != B) && (S == T) == !(S != T) && (C == D) == !(C != D), "== against !="); }

LAW(cartesian, 6000, 80000) { double u[3], v[3]; for (int i = 0; i < 3; i++) { u[i] = comp(s); v[i] = comp(s); } int mode = (int)s.i(0, 4); double k = s.wide(-3, 3); if (mode == 1) for (int i = 0; i < 3; i++) v[i] = k * u[i]; if (mode == 2) { v[0] = -u[1]; v[1] = u[0]; v[2] = 0; } c.say([&](auto& o) { o << "u=(" << fmt(u[0]) << "," << fmt(u[1]) << "," << fmt(u[2]) << ") v=(" << fmt(v[0]) << "," << fmt(v[1]) << "," << fmt(v[2]) << ") k=" << fmt(k); }); Vec3Cart a(u[0], u[1], u[2]), b(v[0], v[1], v[2]); V3 A{ u[0], u[1], u[2] }, B{ v[0], v[1], v[2] }; LD la = len(A), lb = len(B), dot = A[0] * B[0] + A[1] * B[1] + A[2] * B[2]; V3 cr{ A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0] }; LD E = 1e-15L * la * lb; c.nontrivial(la > 0 && lb > 0); c.label(mode == 1 ? "parallel" : mode == 2 ? "perpendicular" : "general");
	CHECK_NEAR((LD)(a * b), dot, E, "dot"); CHECK_NEAR((LD)a.ScalarProduct(b), dot, E, "ScalarProduct"); CHECK_NEAR((LD)ScalarProduct(a, b), dot, E, "ScalarProduct()"); Vec3Cart x = VectorProduct(a, b); NEARV((V3{ x.X(), x.Y(), x.Z() }), cr, 2 * E, "cross");
	Vec3Cart sm = a + b, df = a - b, ng = -a, ml = a * k, mr = k * a, dv = a / k; for (int i = 0; i < 3; i++) CHECK(sm[i] == u[i] + v[i] && df[i] == u[i] - v[i] && ng[i] == -u[i] && ml[i] == u[i] * k && mr[i] == u[i] * k && dv[i] == u[i] / k, "component arithmetic"); CHECK((a == b) == (u[0] == v[0] && u[1] == v[1] && u[2] == v[2]) && (a == b) == !(a != b), "=="); double eps = s.pick({1e-10, 1e-3, 1.0}); CHECK(a.IsEqualTo(b, eps) == (std::fabs(u[0] - v[0]) < eps && std::fabs(u[1] - v[1]) < eps && std::fabs(u[2] - v[2]) < eps), "IsEqualTo");
	Pnt3Cart p(u[0], u[1], u[2]), q(v[0], v[1], v[2]); Vec3Cart pq(p, q), vp(p); Pnt3Cart back = p + pq, mn = q - pq; CHECK(pq.X() == v[0] - u[0] && pq.Y() == v[1] - u[1] && pq.Z() == v[2] - u[2] && vp == a && a.getAsPoint() == p, "vector between points"); LD m = la + lb; NEARV((V3{ back.X(), back.Y(), back.Z() }), B, 4e-16L * m, "p + (q-p)"); NEARV((V3{ mn.X(), mn.Y(), mn.Z() }), A, 4e-16L * m, "q - (q-p)"); CHECK_NEAR((LD)p.Dist(q), dist(A, B), 1e-15L * m, "Dist"); Pnt3Cart ps = p + q, pd = p - q, pm = p * k, pk = k * p, pv = p / k, w = p; w += q; CHECK(w == ps, "+="); w = p; w -= q; CHECK(w == pd, "-="); w = p; w *= k; CHECK(w == pm && pm == pk, "*="); w = p; w /= k; CHECK(w == pv, "/="); CHECK(ps.X() == u[0] + v[0] && ps.Y() == u[1] + v[1] && ps.Z() == u[2] + v[2] && pd.Z() == u[2] - v[2] && pd.X() == u[0] - v[0] && pd.Y() == u[1] - v[1] && pm.X() == u[0] * k && pm.Y() == u[1] * k && pm.Z() == u[2] * k && pv.X() == u[0] / k && pv.Y() == u[1] / k && pv.Z() == u[2] / k, "point arithmetic");
	for (const Vec3Cart& n : { a.Normalized(), a.GetAsUnitVector(), a.GetAsUnitVectorAtPos(b) }) { if (la == 0) CHECK(n.X() == 0 && n.Y() == 0 && n.Z() == 0, "unit vector of zero"); else NEARV((V3{ n.X(), n.Y(), n.Z() }), (V3{ A[0] / la, A[1] / la, A[2] / la }), 1e-15L, "unit vector"); }
	Vec3Cart g1, g2; bool got = a.GetPerpendicularVectors(g1, g2); CHECK(got == (la > 0) || la < 1e-8L, "perpendicular vectors refused"); if (got) { CHECK_NEAR(g1.NormL2(), 1, 1e-14, "unit"); CHECK_NEAR(g2.NormL2(), 1, 1e-14, "unit"); CHECK_NEAR(g1 * a, 0, 1e-14 * (double)la, "perpendicular"); CHECK_NEAR(g2 * a, 0, 1e-14 * (double)la, "perpendicular"); CHECK_NEAR(g1 * g2, 0, 1e-14, "perpendicular to each other"); }
	if (la > 1e-10L && lb > 1e-10L) { LD an = atan2l(len(cr), dot); double g = Vec3Cart(a).AngleToVector(b); CHECK(g >= 0 && g <= (double)PI + 1e-15, "angle range"); CHECK_NEAR((LD)g, an, std::min(4e-8L, 4e-16L + 2e-15L / std::max(1e-30L, sinl(an))), "AngleToVector"); if (mode == 1 && k > 0) CHECK(a.IsParallelTo(b), "multiple not parallel"); if (sinl(an) > 1e-3) CHECK(!a.IsParallelTo(b), "vectors at angle " << (double)an << " parallel"); double pe = s.pick({1e-6, 0.1}); if (fabsl(fabsl(dot) - pe) > 2 * E) CHECK(a.IsPerpendicularTo(b, pe) == (fabsl(dot) < pe), "IsPerpendicularTo"); }
	else if (la == 0 || lb == 0) { CHECK_THROWS(Vec3Cart(a).AngleToVector(b), DivisionByZeroError, "angle with the zero vector"); CHECK(!a.IsParallelTo(b), "zero vector parallel"); } }

LAW(plane_vectors, 4000, 50000) { double u[2] = { comp(s), comp(s) }, v[2] = { comp(s), comp(s) }, k = s.wide(-3, 3); Vec2Cart a(u[0], u[1]), b(v[0], v[1]); LD la = hypotl(u[0], u[1]), lb = hypotl(v[0], v[1]); c.say([&](auto& o) { o << "u=(" << fmt(u[0]) << "," << fmt(u[1]) << ") v=(" << fmt(v[0]) << "," << fmt(v[1]) << ")"; }); c.nontrivial(la > 0 && lb > 0); LD dot = (LD)u[0] * v[0] + (LD)u[1] * v[1]; CHECK_NEAR((LD)(a * b), dot, 1e-15L * la * lb, "dot"); CHECK_NEAR((LD)ScalarProduct(a, b), dot, 1e-15L * la * lb, "dot()"); Vec2Cart sm = a + b, df = a - b, ng = -a, ml = a * k, mr = k * a, dv = a / k; for (int i = 0; i < 2; i++) CHECK(sm[i] == u[i] + v[i] && df[i] == u[i] - v[i] && ng[i] == -u[i] && ml[i] == u[i] * k && mr[i] == u[i] * k && dv[i] == u[i] / k, "arithmetic"); CHECK((a == b) == (u[0] == v[0] && u[1] == v[1]) && (a == b) == !(a != b), "==");
	Pnt2Cart p(u[0], u[1]), q(v[0], v[1]); Vec2Cart pq(p, q); CHECK(pq.X() == v[0] - u[0] && pq.Y() == v[1] - u[1], "between points"); Pnt2Cart pp = p + b, pm = p - b, ps = p + q, pd = p - q, px = p * k, w = p; CHECK(pp.X() == u[0] + v[0] && pp.Y() == u[1] + v[1] && pm.X() == u[0] - v[0] && pm.Y() == u[1] - v[1] && ps == pp && pd == pm && px.X() == u[0] * k && px.Y() == u[1] * k && k * p == px, "point arithmetic"); w += q; CHECK(w == ps, "+="); w -= q; w = p; w -= q; CHECK(w == pd, "-="); w = p; w *= k; CHECK(w == px, "*="); w = p; w /= k; CHECK(w == p / k && w.X() == u[0] / k && w.Y() == u[1] / k, "/="); CHECK_NEAR((LD)p.Dist(q), hypotl((LD)u[0] - v[0], (LD)u[1] - v[1]), 1e-15L * (la + lb), "Dist");
	for (const Vec2Cart& n : { a.Normalized(), a.GetAsUnitVector(), a.GetAsUnitVectorAtPos(b) }) if (la == 0) CHECK(n.X() == 0 && n.Y() == 0, "zero"); else { CHECK_NEAR((LD)n.X(), u[0] / la, 1e-15L, "unit"); CHECK_NEAR((LD)n.Y(), u[1] / la, 1e-15L, "unit"); } Vec2Cart g1, g2; a.getPerpendicularVectors(g1, g2); CHECK(g1 * a == 0 && g2 * a == 0 && g1 == -g2, "perpendicular"); CHECK_NEAR((LD)g1.NormL2(), la, 1e-15L * la, "perpendicular length");
	double r1 = rad(s), p1 = ang(s), r2 = rad(s), p2 = ang(s); Vec2Pol A(r1, p1), B(r2, p2); V3 ca = cyl(r1, p1, 0), cb = cyl(r2, p2, 0); LD e = 1e-14L * (r1 + r2); auto cc = [](const Vec2Pol& x) { return cyl(x.R(), x.Phi(), 0); }; Vec2Pol S = A + B, D = A - B, N = -A; NEARV(cc(S), add(ca, cb), e, "polar sum"); NEARV(cc(D), sub(ca, cb), e, "polar difference"); NEARV(cc(N), sub(V3{ 0, 0, 0 }, ca), e, "polar negation"); CHECK(S.R() >= 0 && D.R() >= 0, "polar radius"); V3 ck = { ca[0] * k, ca[1] * k, 0 }; NEARV(cc(A * k), ck, 1e-15L * 4 * r1 * fabsl(k), "polar scaling"); NEARV(cc(k * A), ck, 1e-15L * 4 * r1 * fabsl(k), "polar scaling"); NEARV(cc(A / k), (V3{ ca[0] / k, ca[1] / k, 0 }), 1e-15L * 4 * r1 / fabsl(k), "polar division"); CHECK(A.GetAsUnitVectorAtPos(B).R() == 1, "polar unit"); }

LAW(space_vectors, 6000, 80000) { double r1 = rad(s), t1 = inc(s), p1 = ang(s), r2 = s.chance(1, 4) ? r1 : rad(s), t2 = s.chance(1, 4) ? t1 : inc(s), p2 = s.chance(1, 4) ? p1 : ang(s), k = s.wide(-3, 3), z1 = comp(s), z2 = comp(s); c.say([&](auto& o) { o << "(" << fmt(r1) << "," << fmt(t1) << "," << fmt(p1) << "; z " << fmt(z1) << ") (" << fmt(r2) << "," << fmt(t2) << "," << fmt(p2) << "; z " << fmt(z2) << ") k=" << fmt(k); }); c.nontrivial(r1 > 0 && r2 > 0); Vec3Sph A(r1, t1, p1), B(r2, t2, p2); V3 a = sph(r1, t1, p1), b = sph(r2, t2, p2); auto cs = [](const Vec3Sph& v) { return sph(v.R(), v.Theta(), v.Phi()); }; auto pole = [](const V3& w, LD e) { LD R = len(w); return 4 * e + (R > 0 ? R * std::min(4e-8L, 4e-16L * R / std::max(1e-300L, hyp(w))) : 0); }; LD e = 2e-15L * (r1 + (LD)r2);
	Vec3Sph S = A + B, D = A - B; NEARV(cs(S), add(a, b), pole(add(a, b), e), "spherical sum"); NEARV(cs(D), sub(a, b), 4 * e + len(sub(a, b)) * 4e-8L, "spherical difference"); NEARV(cs(-A), (V3{ -a[0], -a[1], -a[2] }), e, "spherical negation"); NEARV(cs(A * k), (V3{ a[0] * k, a[1] * k, a[2] * k }), e * fabsl(k), "spherical scaling"); NEARV(cs(k * A), (V3{ a[0] * k, a[1] * k, a[2] * k }), e * fabsl(k), "spherical scaling"); NEARV(cs(A / k), (V3{ a[0] / k, a[1] / k, a[2] / k }), e / fabsl(k), "spherical division"); CHECK_THROWS(A / 0.0, DivisionByZeroError, "division by zero");
	CHECK((A == B) == (r1 == r2 && t1 == t2 && p1 == p2) && (A == B) == !(A != B), "=="); CHECK(A.IsEqualTo(A) && A.IsEqualTo(Vec3Sph(r1, t1, p1 + (double)(2 * PI)), 1e-9), "IsEqualTo with a full turn");
	if (r1 > 0) { // unit vector of A expressed in the local basis at B
		V3 er = sph(1, t2, p2), et{ cosl(t2) * cosl(p2), cosl(t2) * sinl(p2), -sinl(t2) }, ep{ -sinl(p2), cosl(p2), 0 }; auto d3 = [](const V3& x, const V3& y) { return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]; }; V3 un{ d3(a, er) / r1, d3(a, et) / r1, d3(a, ep) / r1 }; Vec3Sph u = A.GetAsUnitVectorAtPos(B); NEARV((V3{ u[0], u[1], u[2] }), un, 4e-15L, "unit vector in local spherical components"); Vec3Sph g = A.GetAsUnitVectorAtPosGlobalSpher(B); CHECK(g.R() == 1, "global unit length"); V3 gl{ cosl(g.Theta()), sinl(g.Theta()) * cosl(g.Phi()), sinl(g.Theta()) * sinl(g.Phi()) }; NEARV(gl, un, 1e-7L, "angles of the local components"); }
	Vec3Cyl C(r1, p1, z1), E(r2, p2, z2); V3 ca = cyl(r1, p1, z1), ce = cyl(r2, p2, z2); auto cc = [](const Vec3Cyl& v) { return cyl(v.R(), v.Phi(), v.Z()); }; LD m = 8e-15L * (len(ca) + len(ce)); NEARV(cc(C + E), add(ca, ce), m, "cylindrical sum"); NEARV(cc(C - E), sub(ca, ce), m, "cylindrical difference"); NEARV(cc(C * k), (V3{ ca[0] * k, ca[1] * k, ca[2] * k }), m * fabsl(k), "cylindrical scaling"); NEARV(cc(k * C), (V3{ ca[0] * k, ca[1] * k, ca[2] * k }), m * fabsl(k), "cylindrical scaling"); NEARV(cc(C / k), (V3{ ca[0] / k, ca[1] / k, ca[2] / k }), m / fabsl(k), "cylindrical division"); CHECK_THROWS(C / 0.0, DivisionByZeroError, "division by zero"); if (z1 == 0) NEARV(cc(-C), (V3{ -ca[0], -ca[1], -ca[2] }), m, "cylindrical negation");
	if (len(ca) > 0) { LD L = len(ca); Vec3Cyl u = C.GetAsUnitVectorAtPos(E); NEARV((V3{ u[0], u[1], u[2] }), (V3{ (ca[0] * cosl(p2) + ca[1] * sinl(p2)) / L, (-ca[0] * sinl(p2) + ca[1] * cosl(p2)) / L, ca[2] / L }), 4e-15L, "unit vector in local cylindrical components"); } }

LAW(minkowski, 4000, 50000) { double a[4], b[4]; int mode = (int)s.i(0, 3); for (int i = 0; i < 4; i++) { a[i] = mode ? comp(s) : (double)s.i(-3, 3); b[i] = mode ? comp(s) : (double)s.i(-3, 3); } if (mode == 1) { a[0] = std::sqrt(a[1] * a[1] + a[2] * a[2] + a[3] * a[3]); if (s.b()) a[0] = std::nextafter(a[0], s.b() ? 1e300 : -1e300); } Vec4Mink u{ a[0], a[1], a[2], a[3] }, v{ b[0], b[1], b[2], b[3] }; c.say([&](auto& o) { for (double x : a) o << fmt(x) << " "; o << "| "; for (double x : b) o << fmt(x) << " "; }); LD q = (LD)a[0] * a[0] - (LD)a[1] * a[1] - (LD)a[2] * a[2] - (LD)a[3] * a[3], sq = (LD)a[0] * a[0] + (LD)a[1] * a[1] + (LD)a[2] * a[2] + (LD)a[3] * a[3], E = 1e-15L * sq + 1e-300L; c.nontrivial(sq > 0); c.label(fabsl(q) <= E ? "light-like" : q > 0 ? "time-like" : "space-like");
	LD sp = (LD)a[0] * b[0] - (LD)a[1] * b[1] - (LD)a[2] * b[2] - (LD)a[3] * b[3], mg = fabsl((LD)a[0] * b[0]) + fabsl((LD)a[1] * b[1]) + fabsl((LD)a[2] * b[2]) + fabsl((LD)a[3] * b[3]); CHECK_NEAR((LD)ScalarProduct(u, v), sp, 1e-15L * mg, "Minkowski product"); CHECK(ScalarProduct(u, v) == ScalarProduct(v, u), "symmetry"); int cl = u.isTimelike() + u.isSpacelike() + u.isLightlike(); CHECK(cl == 1, "interval belongs to " << cl << " classes"); if (q > E) CHECK(u.isTimelike(), "not time-like"); if (q < -E) CHECK(u.isSpacelike(), "not space-like"); if (mode == 0) CHECK(u.isLightlike() == (q == 0), "light-like");
	double n = u.Norm(); CHECK(std::isfinite(n), "Norm is not finite"); CHECK(fabsl((LD)n * fabsl(n) - q) <= 4 * E, "Norm^2 is not the interval"); double d = u.Distance(v); LD dq = 0; LD ds = 0; for (int i = 0; i < 4; i++) { LD t = (LD)a[i] - b[i]; dq += i ? -t * t : t * t; ds += t * t; } CHECK(std::isfinite(d), "Distance is not finite"); CHECK(fabsl((LD)d * fabsl(d) - dq) <= 8e-15L * ds + 1e-300L, "Distance^2 is not the interval between the events"); }

LAW(angles, 6000, 80000) { int m = (int)s.i(0, 4); double x = m == 0 ? (double)(PI) * (int)s.i(-6, 6) : m == 1 ? (double)PI * (int)s.i(-6, 6) + s.uni(-1, 1) * s.pick({1e-16, 1e-9}) : m == 2 ? s.uni(-30, 30) : m == 3 ? s.wide(-20, 5) : s.wide(5, 18); c.say([&](auto& o) { o << fmt(x); }); c.nontrivial(std::fabs(x) > 3); c.label(std::fabs(x) > 1e5 ? "huge" : "moderate"); const double tp = 2 * Constants::PI; double a = Utils::AngleTo2PiRange(x), b = Utils::AngleToPiPiRange(x); CHECK(a >= 0 && a < tp, "[0,2pi): " << fmt(a)); CHECK(b >= -Constants::PI && b < Constants::PI, "[-pi,pi): " << fmt(b)); auto eqv = [&](double y) { return std::fabs(std::remainder(y - std::fmod(x, tp), tp)); }; CHECK(eqv(a) < 1e-13 * (1 + std::min(std::fabs(x), 1e6)), "not an equivalent angle: " << fmt(a)); CHECK(eqv(b) < 1e-13 * (1 + std::min(std::fabs(x), 1e6)), "not an equivalent angle: " << fmt(b));
	if (std::fabs(x) < 100) { CHECK_NEAR((LD)Utils::DegToRad(x), (LD)x * PI / 180, 1e-15L * fabsl(x), "DegToRad"); CHECK_NEAR((LD)Utils::RadToDeg(x), (LD)x * 180 / PI, 6e-14L * fabsl(x), "RadToDeg"); double d, mi, se; Utils::AngleDegToExplicit(x, d, mi, se); CHECK(d == std::floor(x) && mi >= 0 && mi <= 60 && se >= -1e-9 && se <= 60 + 1e-9 && mi == std::floor(mi), "degrees/minutes/seconds of " << fmt(x) << ": " << d << " " << mi << " " << fmt(se)); CHECK_NEAR(Utils::ExplicitToAngleDeg(d, mi, se), x, 1e-12, "degrees round trip"); Utils::AngleRadToExplicit(x, d, mi, se); CHECK_NEAR(Utils::ExplicitToAngleRad(d, mi, se), x, 1e-12, "radians round trip"); }
	double y = s.b() ? x + tp * (int)s.i(-3, 3) + s.uni(-1, 1) * 1e-3 : s.uni(-10, 10); if (std::fabs(x) < 100) { double diff = std::fabs(std::remainder(x - y, tp)), eps = s.pick({1e-6, 1e-2, 1.0}); if (std::fabs(diff - eps) > 1e-12) CHECK(AnglesAreEqual(x, y, eps) == (diff < eps), "AnglesAreEqual " << fmt(x) << " " << fmt(y)); double n = normalizeAngle(x); CHECK(n >= -Constants::PI && n <= Constants::PI && std::fabs(std::remainder(n - x, tp)) < 1e-13, "normalizeAngle"); } }

FINDING(cylindrical_negation) { double z = s.uni(0.5, 5); c.nontrivial(true); Vec3Cyl v(s.uni(1, 5), 0.5, z), n = -v; if (n.Z() != -z) pbt::fail("-Vector3Cylindrical keeps Z", "C30-cylindrical-negation"); }
