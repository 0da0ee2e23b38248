// C28 (second part): the pure measure classes of solids, and bodies given by boundary functions
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Geometry/Geometry.h"
#include "base/Geometry/Geometry3D.h"
#include "base/Geometry/Geometry3DBodies.h"
#include "base/Geometry/GeometryCore/Geometry2DShapes.h"
#include "base/Geometry/GeometryCore/Geometry3DShapes.h"
static LD PI_ = 3.14159265358979323846264338327950288L;
#define EQT(got, want, tol, what) do { LD w_ = (want); CHECK_NEAR(got, (double)w_, (tol), what << " is " << fmt(got) << " instead of " << fmt((double)w_)); } while (0)
#define EQ(got, want, what) EQT(got, want, 1e-13 * std::fabs((double)w_) + 1e-300, what)
LAW(round_solids, 3000, 40000) {
	double r = s.pwide(-6, 6), h = r * s.uni(0.05, 10); LD R = r, H = h; c.say([&](auto& o) { o << "radius " << fmt(r) << " height " << fmt(h); });
	SphereGeom S(r); double cap = 2 * r * s.uni(0.001, 1); LD P = cap; EQ(S.Radius(), R, "radius"); EQ(S.Diameter(), 2 * R, "diameter"); EQ(S.Volume(), 4 * PI_ * R * R * R / 3, "volume"); EQ(S.SurfaceArea(), 4 * PI_ * R * R, "area"); EQ(S.GreatCircle().Radius(), R, "great circle"); EQ(S.CapArea(cap), 2 * PI_ * R * P, "cap area"); EQ(S.CapVolume(cap), PI_ * P * P * (R - P / 3), "cap volume"); EQ(S.ZoneArea(cap), 2 * PI_ * R * P, "zone area"); EQ(SphereGeom::FromVolume(S.Volume()).Radius(), R, "radius from volume"); EQ(SphereGeom::FromSurfaceArea(S.SurfaceArea()).Radius(), R, "radius from area"); EQ(SphereGeom::Circumscribed(Rectangle(r, h), 2 * r).Radius(), sqrtl(5 * R * R + H * H) / 2, "circumscribed sphere"); CHECK(S.IsValid() && !SphereGeom().IsValid(), "validity"); S.Radius() = h; EQ(S.SurfaceArea(), 4 * PI_ * H * H, "area after assignment");
	CylinderGeom C(r, h); EQ(C.Radius(), R, "radius"); EQ(C.Height(), H, "height"); EQ(C.Diameter(), 2 * R, "diameter"); EQ(C.Volume(), PI_ * R * R * H, "volume"); EQ(C.LateralArea(), 2 * PI_ * R * H, "lateral area"); EQ(C.BaseArea(), PI_ * R * R, "base area"); EQ(C.SurfaceArea(), 2 * PI_ * R * (R + H), "area"); EQ(C.Base().Radius(), R, "base"); EQ(CylinderGeom::FromVolume(C.Volume(), r).Height(), H, "height from volume"); CHECK(C.IsValid() && !CylinderGeom().IsValid() && !CylinderGeom(r, -h).IsValid(), "validity"); C.Radius() = h; C.Height() = r; EQ(C.Volume(), PI_ * H * H * R, "volume after assignment");
	ConeGeom K(r, h); LD L = hypotl(R, H); EQ(K.Radius(), R, "radius"); EQ(K.Height(), H, "height"); EQ(K.SlantHeight(), L, "slant height"); EQ(K.Volume(), PI_ * R * R * H / 3, "volume"); EQ(K.LateralArea(), PI_ * R * L, "lateral area"); EQ(K.BaseArea(), PI_ * R * R, "base area"); EQ(K.SurfaceArea(), PI_ * R * (R + L), "area"); EQ(K.ApexAngle(), atan2l(R, H), "half angle at the apex"); EQ(K.Base().Radius(), R, "base"); EQT(ConeGeom::FromSlantHeight(r, (double)L).Height(), H, 1e-14 * (double)(L * L / H), "height from slant height"); CHECK(K.IsValid() && !ConeGeom().IsValid(), "validity"); K.Height() = 2 * h; EQ(K.Volume(), 2 * PI_ * R * R * H / 3, "volume after assignment");
	double r2 = r * s.uni(0.01, 3); LD Q = r2; Frustum F(r, r2, h); LD l = hypotl(R - Q, H); EQ(F.BottomRadius(), R, "bottom"); EQ(F.TopRadius(), Q, "top"); EQ(F.Height(), H, "height"); EQ(F.SlantHeight(), l, "slant height"); EQ(F.Volume(), PI_ * H * (R * R + R * Q + Q * Q) / 3, "volume"); EQ(F.LateralArea(), PI_ * (R + Q) * l, "lateral area"); EQ(F.SurfaceArea(), PI_ * ((R + Q) * l + R * R + Q * Q), "area"); EQ(F.BottomBase().Radius(), R, "bottom base"); EQ(F.TopBase().Radius(), Q, "top base"); CHECK(F.IsValid() && !Frustum().IsValid(), "validity");
	double m = r * s.uni(0.05, 0.95); LD M = m; TorusGeom T(r, m); EQ(T.MajorRadius(), R, "major radius"); EQ(T.MinorRadius(), M, "minor radius"); EQ(T.Volume(), 2 * PI_ * PI_ * R * M * M, "volume"); EQ(T.SurfaceArea(), 4 * PI_ * PI_ * R * M, "area"); EQT(T.InnerRadius(), R - M, 1e-15 * r, "inner radius"); EQ(T.OuterRadius(), R + M, "outer radius"); EQ(T.TubeCrossSection().Radius(), M, "tube"); CHECK(T.IsValid() && T.IsRingTorus() && !T.IsSpindleTorus() && TorusGeom(r, r).IsHornTorus() && TorusGeom(m, r).IsSpindleTorus() && !TorusGeom().IsValid(), "kind of torus");
	c.nontrivial();
}
LAW(spheroids, 2000, 20000) {
	double a = s.pwide(-7, 7), q = s.chance(1, 4) ? 1 + s.pick({1., -1.}) * std::pow(10, -(double)s.i(1, 15)) : s.uni(0.05, 8), p = a * q; LD A = a, C = p; c.say([&](auto& o) { o << "equatorial " << fmt(a) << " polar " << fmt(p); }); c.label(q < 1 ? "oblate" : "prolate");
	Spheroid S(a, p); EQ(S.EquatorialRadius(), A, "equatorial radius"); EQ(S.PolarRadius(), C, "polar radius"); EQ(S.Volume(), 4 * PI_ * A * A * C / 3, "volume"); EQT(S.Flattening(), (A - C) / A, 1e-15 * (1 + q), "flattening"); CHECK(S.IsOblate() == (p < a) && S.IsProlate() == (p > a), "kind"); EQT(S.Eccentricity(), p < a ? sqrtl((A - C) * (A + C)) / A : sqrtl((C - A) * (C + A)) / C, 3e-8, "eccentricity");
	// dS = 2 pi x ds with x = a sqrt(1-u^2), z = c u: x ds = a sqrt(c^2 (1-u^2) + a^2 u^2) du, by Simpson's rule
	LD want = 0; int M = 2000; for (int i = 0; i <= M; i++) { LD u = -1 + 2.0L * i / M, w = i == 0 || i == M ? 1 : i % 2 ? 4 : 2; want += w * sqrtl(C * C * (1 - u * u) + A * A * u * u); } want *= 2.0L / M / 3;
	EQT(S.SurfaceArea(), 2 * PI_ * A * want, 1e-7 * (double)(2 * PI_ * A * want), "surface area"); CHECK(S.IsValid() && !Spheroid().IsValid(), "validity"); if (s.chance(1, 8)) EQ(Spheroid(a, a).SurfaceArea(), 4 * PI_ * A * A, "area of a sphere"); c.nontrivial();
}
LAW(tetrahedra, 3000, 40000) {
	double k = s.pwide(-5, 5); LD v[4][3]; bool reg = s.chance(1, 8); for (auto& p : v) for (auto& x : p) x = s.uni(-1, 1) * k; if (reg) { LD R[4][3] = {{1, 1, 1}, {1, -1, -1}, {-1, 1, -1}, {-1, -1, 1}}; for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) v[i][j] = R[i][j] * k; }
	auto d = [&](int i, int j) { LD t = 0; for (int m = 0; m < 3; m++) t += (v[i][m] - v[j][m]) * (v[i][m] - v[j][m]); return sqrtl(t); }; auto tri = [&](LD x, LD y, LD z) { LD q = (x + y + z) / 2; return sqrtl(std::max<LD>(0, q * (q - x) * (q - y) * (q - z))); };
	LD e[3][3]; for (int i = 0; i < 3; i++) for (int m = 0; m < 3; m++) e[i][m] = v[i + 1][m] - v[0][m]; LD det = e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0]) + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]); LD vol = fabsl(det) / 6;
	LD ab = d(0, 1), ac = d(0, 2), ad = d(0, 3), bc = d(1, 2), bd = d(1, 3), cd = d(2, 3); LD f1 = tri(ab, ac, bc), f2 = tri(ab, ad, bd), f3 = tri(ac, ad, cd), f4 = tri(bc, bd, cd), mx = std::max({ab, ac, ad, bc, bd, cd}); DISCARD_IF(mx == 0 || vol < 1e-2 * mx * mx * mx || std::min({f1, f2, f3, f4}) < 1e-2 * mx * mx);
	Tetrahedron T((double)ab, (double)ac, (double)ad, (double)bc, (double)bd, (double)cd); if (reg && s.b()) T = Tetrahedron::Regular((double)ab); c.say([&](auto& o) { o << "edges " << fmt((double)ab) << " " << fmt((double)ac) << " " << fmt((double)ad) << " " << fmt((double)bc) << " " << fmt((double)bd) << " " << fmt((double)cd); });
	EQ(T.AB(), ab, "AB"); EQ(T.AC(), ac, "AC"); EQ(T.AD(), ad, "AD"); EQ(T.BC(), bc, "BC"); EQ(T.BD(), bd, "BD"); EQ(T.CD(), cd, "CD"); double t = 1e-9; EQT(T.Volume(), vol, t * (double)(mx * mx * mx), "volume"); EQT(T.SurfaceArea(), f1 + f2 + f3 + f4, t * (double)(mx * mx), "surface area"); EQT(T.FaceABC().Area(), f1, t * (double)(mx * mx), "face ABC"); EQT(T.FaceABD().Area(), f2, t * (double)(mx * mx), "face ABD"); EQT(T.FaceACD().Area(), f3, t * (double)(mx * mx), "face ACD"); EQT(T.FaceBCD().Area(), f4, t * (double)(mx * mx), "face BCD"); EQT(T.Inradius(), 3 * vol / (f1 + f2 + f3 + f4), t * (double)mx, "inradius");
	if (reg) { CHECK(T.IsRegular(1e-9 * (double)mx), "regular"); EQT(Tetrahedron::Regular((double)ab).Circumradius(), ab * sqrtl(6) / 4, t * (double)mx, "circumradius of a regular tetrahedron"); }

	c.nontrivial();
}
// bodies given by boundary functions
static LD bA, bB, bC, bX; static int bK;
static Real by1(Real x) { LD t = (x - bX); return bK == 0 ? (Real)(-bB * sqrtl(std::max<LD>(0, 1 - t * t / (bA * bA)))) : bK == 1 ? (Real)(-bB - bB * t / (4 * bA)) : (Real)(-bB * (1 - t * t / (2 * bA * bA))); }
static Real by2(Real x) { LD t = (x - bX); return bK == 0 ? -by1(x) : bK == 1 ? (Real)(bB + bB * t / (4 * bA)) : (Real)(bB * (2 + sinl(3 * t / bA))); }
static Real bz1(Real x, Real y) { LD t = (x - bX) / bA, u = y / bB; return bK == 0 ? (Real)(-bC * sqrtl(std::max<LD>(0, 1 - t * t - u * u))) : bK == 1 ? (Real)(-bC * (1 + t / 4 + u / 8)) : (Real)(-bC * (1 + t * t + u * u / 4)); }
static Real bz2(Real x, Real y) { LD t = (x - bX) / bA, u = y / bB; return bK == 0 ? -bz1(x, y) : bK == 1 ? (Real)(bC * (1 + t / 4 - u / 8)) : (Real)(bC * (2 + cosl(2 * t) * cosl(u))); }
LAW(boundary_boxes, 300, 4000) {
	bK = (int)s.i(0, 2); bA = s.pwide(-2, 2); bB = bA * s.uni(0.3, 3); bC = bA * s.uni(0.3, 3); bX = s.b() ? 0 : (LD)(bA * s.uni(-3, 3)); double x1 = (double)(bX - bA), x2 = (double)(bX + bA); SolidBodyWithBoundaryConstDensity B(x1, x2, by1, by2, bz1, bz2, 1.0); c.say([&](auto& o) { o << "kind " << bK << " half-sizes " << fmt((double)bA) << " " << fmt((double)bB) << " " << fmt((double)bC) << " centre " << fmt((double)bX); }); c.label(bK == 0 ? "ellipsoid" : bK == 1 ? "monotonic" : "curved");
	Box3D bx = B.GetBoundingBox(); auto sp = B.GetBoundingSphere(); double tol = 0.02 * (double)(bA + bB + bC); int in = 0; LD lo[3] = {1e300L, 1e300L, 1e300L}, hi[3] = {-1e300L, -1e300L, -1e300L};
	for (int i = 0; i < 1500; i++) { double x = x1 + (x2 - x1) * s.unit(); double a = by1(x), b = by2(x), y = a + (b - a) * s.unit(); double p = bz1(x, y), q = bz2(x, y), z = p + (q - p) * s.unit(); Pnt3Cart P(x, y, z); if (!(x1 < x && x < x2 && a < y && y < b && p < z && z < q)) continue; in++; CHECK(B.IsInside(P), "an interior point is reported outside");
		CHECK(x >= bx.Min().X() - tol && x <= bx.Max().X() + tol && y >= bx.Min().Y() - tol && y <= bx.Max().Y() + tol && z >= bx.Min().Z() - tol && z <= bx.Max().Z() + tol, "the body contains (" << fmt(x) << "," << fmt(y) << "," << fmt(z) << ") but its bounding box is x " << fmt(bx.Min().X()) << ".." << fmt(bx.Max().X()) << " y " << fmt(bx.Min().Y()) << ".." << fmt(bx.Max().Y()) << " z " << fmt(bx.Min().Z()) << ".." << fmt(bx.Max().Z()));
		CHECK(sp.Center().Dist(P) <= sp.Radius() + 2 * tol, "the body contains (" << fmt(x) << "," << fmt(y) << "," << fmt(z) << ") outside its bounding sphere of radius " << fmt(sp.Radius())); LD v[3] = {x, y, z}; for (int m = 0; m < 3; m++) { lo[m] = std::min(lo[m], v[m]); hi[m] = std::max(hi[m], v[m]); }
		Pnt3Cart O(s.b() ? x1 - (x2 - x1) * 0.01 : x2 + (x2 - x1) * 0.01, y, z), U(x, b + (b - a) * 0.01 , z), W(x, y, q + (q - p) * 0.01), V(x, y, p - (q - p) * 0.01); CHECK(!B.IsInside(O) && !B.IsInside(U) && !B.IsInside(W) && !B.IsInside(V), "a point beyond the boundary is reported inside"); }
	DISCARD_IF(in < 300); CHECK(bx.Max().X() - bx.Min().X() <= (x2 - x1) * 1.02 && bx.Max().Y() - bx.Min().Y() <= (double)(hi[1] - lo[1]) * 1.6 + tol && bx.Max().Z() - bx.Min().Z() <= (double)(hi[2] - lo[2]) * 1.8 + tol, "the bounding box is far larger than the body"); c.nontrivial();
}
LAW(box_named, 500, 4000) {
	Pnt3Cart ce(s.uni(-5, 5), s.uni(-5, 5), s.uni(-5, 5)); Vec3Cart h(s.uni(0.1, 4), s.uni(0.1, 4), s.uni(0.1, 4)); Box3D b = Box3D::FromCenterAndHalfExtents(ce, h); c.say([&](auto& o) { o << "half extents " << fmt(h.X()) << " " << fmt(h.Y()) << " " << fmt(h.Z()); });
	EQT(b.Min().X(), (LD)ce.X() - h.X(), 1e-14, "min x"); EQT(b.Min().Y(), (LD)ce.Y() - h.Y(), 1e-14, "min y"); EQT(b.Min().Z(), (LD)ce.Z() - h.Z(), 1e-14, "min z"); EQT(b.Max().X(), (LD)ce.X() + h.X(), 1e-14, "max x"); EQT(b.Max().Y(), (LD)ce.Y() + h.Y(), 1e-14, "max y"); EQT(b.Max().Z(), (LD)ce.Z() + h.Z(), 1e-14, "max z"); EQT(b.Size().X(), 2 * (LD)h.X(), 1e-14, "size"); EQT(b.Size().Y(), 2 * (LD)h.Y(), 1e-14, "size"); EQT(b.Size().Z(), 2 * (LD)h.Z(), 1e-14, "size");
	for (Box3D u : {Box3D::UnitBox(), Box3D::UnitCube(), Box3D::CenteredUnitCube(), Box3D()}) { CHECK(u.Size().X() == 1 && u.Size().Y() == 1 && u.Size().Z() == 1, "unit box"); } CHECK(Box3D::CenteredUnitCube().Min().X() == -0.5 && Box3D::CenteredUnitCube().Max().Z() == 0.5 && Box3D::UnitBox().Min().Y() == 0, "placement");
	c.nontrivial();
}
