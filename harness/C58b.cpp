// C58 (second part): parameter ranges, default and short constructors, plane frames and limits, polar radius of curvature, classification of points
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Function.h"
#include "interfaces/ITensorField.h"
#include "core/Integration/Integration1D.h"
#include "base/Geometry/Geometry2D.h"
#include "base/Geometry/Geometry3D.h"
#include "base/Geometry/Geometry3DBodies.h"
#include "core/Derivation.h"
#include "core/Curves.h"
#include "core/Surfaces.h"
using namespace MML::Surfaces; using namespace MML::Curves;
static const double TPI = 2 * std::acos(-1.0);
template<int N> static double dst(const VectorN<Real, N>& a, const VectorN<Real, N>& b) { double q = 0; for (int i = 0; i < N; i++) q += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(q); }
template<class A, class B> static void sameS(Src& s, const A& a, const B& b, const char* n) { for (int i = 0; i < 4; i++) { double u = s.uni(0.1, 1.9), w = s.uni(0.1, 1.9); CHECK(dst(a(u, w), b(u, w)) <= 1e-14, n << ": default differs at " << u << "," << w); } CHECK(a.getMinU() == b.getMinU() && a.getMaxU() == b.getMaxU() && a.getMinW() == b.getMinW() && a.getMaxW() == b.getMaxW(), n << ": ranges"); }
template<class A, class B> static void sameC(Src& s, const A& a, const B& b, const char* n) { for (int i = 0; i < 4; i++) { double t = s.uni(-6, 6); CHECK(dst(a(t), b(t)) <= 1e-14 * std::exp(7.0), n << ": short constructor differs at " << t); } CHECK(a.getMinT() == b.getMinT() && a.getMaxT() == b.getMaxT(), n << ": ranges"); }
LAW(surface_ranges, 400, 4000) { // the declared ranges close the surface up exactly where it is closed
	int k = (int)s.i(0, 8); double a = s.uni(0.5, 3), b = s.uni(0.5, 3), d = s.uni(0.5, 3), tol = 1e-12; c.say([&](auto& o) { o << "surface " << k << " " << a << " " << b << " " << d; }); c.nontrivial(true); c.label("surface " + std::to_string(k));
	auto perW = [&](auto& S, const char* n) { CHECK(S.getMinW() == 0 && std::fabs(S.getMaxW() - TPI) < 1e-14, n << ": angular range"); for (int i = 0; i < 3; i++) { double u = S.getMinU() + (S.getMaxU() - S.getMinU()) * s.unit(); CHECK(dst(S(u, S.getMinW()), S(u, S.getMaxW())) <= 1e-12 * (1 + dst(S(u, 0), S(0, 0))), n << ": does not close at u=" << u); } };
	if (k == 0) { CylinderSurface S(a, b); CHECK(S.getMinU() == 0 && std::fabs(S.getMaxU() - TPI) < 1e-14 && S.getMinW() == 0 && S.getMaxW() == b, "cylinder ranges"); double w = s.uni(0, b); CHECK(dst(S(S.getMinU(), w), S(S.getMaxU(), w)) <= tol * a && std::fabs(S(1, S.getMaxW())[2] - b) < tol && S(1, S.getMinW())[2] == 0, "cylinder ends"); sameS(s, CylinderSurface(), CylinderSurface(1, 1), "cylinder"); }
	else if (k == 1) { Torus S(a + b, b); perW(S, "torus"); double w = s.uni(0, TPI); CHECK(S.getMinU() == 0 && dst(S(S.getMinU(), w), S(S.getMaxU(), w)) <= tol * (a + b) && std::fabs(S.getMaxU() - TPI) < 1e-14, "torus u range"); sameS(s, Torus(), Torus(1, 0.5), "torus"); }
	else if (k == 2) { Sphere S(a); perW(S, "sphere"); double w = s.uni(0, TPI), v = s.uni(0, TPI); CHECK(dst(S(S.getMinU(), w), S(S.getMinU(), v)) <= tol * a && dst(S(S.getMaxU(), w), S(S.getMaxU(), v)) <= tol * a && dst(S(S.getMinU(), w), S(S.getMaxU(), w)) >= 2 * a * (1 - 1e-12), "sphere poles"); sameS(s, Sphere(), Sphere(1), "sphere"); }
	else if (k == 3) { Ellipsoid S(a, b, d); perW(S, "ellipsoid"); double w = s.uni(0, TPI), v = s.uni(0, TPI); CHECK(dst(S(S.getMinU(), w), S(S.getMinU(), v)) <= tol * 3 && dst(S(S.getMaxU(), w), S(S.getMaxU(), v)) <= tol * 3 && std::fabs(dst(S(S.getMinU(), w), S(S.getMaxU(), w)) - 2 * d) <= tol, "ellipsoid poles"); sameS(s, Ellipsoid(), Ellipsoid(1, 1, 1), "ellipsoid"); }
	else if (k == 4) { MobiusStrip S(a); double w = s.uni(-1, 1); CHECK(S.getMinU() == 0 && std::fabs(S.getMaxU() - TPI) < 1e-14 && S.getMinW() == -S.getMaxW() && S.getMaxW() > 0, "strip ranges"); CHECK(dst(S(S.getMinU(), w), S(S.getMaxU(), -w)) <= tol * a, "the strip does not close with a half twist"); sameS(s, MobiusStrip(), MobiusStrip(1), "strip"); }
	else if (k == 5) { KleinBottle S(a); perW(S, "bottle"); double v = s.uni(0, TPI); CHECK(S.getMinU() == 0 && std::fabs(S.getMaxU() - TPI) < 1e-14, "bottle range"); CHECK(dst(S(0, v), S(S.getMaxU(), TPI / 2 - v)) <= 1e-11 * a, "the bottle does not close"); double e = 1e-9; CHECK(dst(S(TPI / 2 - e, v), S(TPI / 2 + e, v)) <= 1e-6 * a, "the bottle jumps in the middle"); sameS(s, KleinBottle(), KleinBottle(1), "bottle"); }
	else if (k == 6) { Hyperboloid S(a, b, d); perW(S, "hyperboloid"); CHECK(S.getMinU() == 0 && S.getMaxU() > 0, "hyperboloid range"); sameS(s, Hyperboloid(), Hyperboloid(1, 1, 1), "hyperboloid"); Paraboloid P(a, b); perW(P, "paraboloid"); double w = s.uni(0, TPI); CHECK(P.getMinU() == 0 && dst(P(P.getMinU(), w), P(P.getMinU(), 0)) == 0 && P.getMaxU() > P.getMinU(), "paraboloid apex"); sameS(s, Paraboloid(), Paraboloid(1, 1), "paraboloid"); }
	else if (k == 7) { MonkeySaddle M; CHECK(M.getMinU() == -M.getMaxU() && M.getMinW() == -M.getMaxW() && M.getMaxU() > 0 && M.getMaxW() > 0, "saddle range"); Helicoid H; CHECK(H.getMinU() == -H.getMaxU() && H.getMaxU() > 0 && H.getMinW() == 0 && H.getMaxW() > 0, "helicoid range"); sameS(s, H, Helicoid(1.0), "helicoid"); }
	else { EnneperSurface E; CHECK(E.getMinU() == -E.getMaxU() && E.getMinW() == -E.getMaxW() && E.getMaxU() > 0 && E.getMaxW() > 0, "Enneper range"); sameS(s, E, EnneperSurface(1), "Enneper"); DiniSurface D; sameS(s, D, DiniSurface(1.0, 0.15), "Dini"); CHECK(D.getMinU() < D.getMaxU() && D.getMinW() > 0 && D.getMaxW() > D.getMinW() && D.getMaxW() < TPI / 2, "Dini range"); for (double w : { D.getMinW(), D.getMaxW() }) CHECK(std::isfinite(D(D.getMinU(), w)[2]), "Dini is singular at its own limits"); }
}
LAW(planes, 600, 6000) { // the plane's frame, limits and refusals
	auto r3 = [&] { return Vec3Cart(s.uni(-3, 3), s.uni(-3, 3), s.uni(-3, 3)); }; Vec3Cart p = r3(), n = r3(), d = r3(); double ln = n.NormL2(); DISCARD_IF(ln < 0.3); Vec3Cart e = d - (ScalarProduct(d, n) / (ln * ln)) * n; DISCARD_IF(e.NormL2() < 0.2); Vec3Cart f = VectorProduct(n, e); double sc = s.uni(0.5, 2); f = (sc / f.NormL2()) * f; int k = (int)s.i(0, 3); c.say([&](auto& o) { o << "constructor " << k; }); c.nontrivial(true); double lo = s.uni(-3, 0), hi = s.uni(0.1, 3), lo2 = s.uni(-3, 0), hi2 = s.uni(0.1, 3), u = s.uni(-2, 2), w = s.uni(-2, 2);
	auto onplane = [&](PlaneSurface& P) { Vec3Cart q(P(u, w)); CHECK(std::fabs(ScalarProduct(q - p, n)) <= 1e-12 * ln * 10, "off the plane"); CHECK(dst(P(0, 0), p) <= 1e-13, "origin"); };
	if (k == 0) { PlaneSurface P(p, n, e, f, lo, hi, lo2, hi2); CHECK(P.getMinU() == lo && P.getMaxU() == hi && P.getMinW() == lo2 && P.getMaxW() == hi2, "limits"); CHECK(dst(P(u, w), p + u * e + w * f) <= 1e-12, "point"); onplane(P); P.SetPlaneLimits(lo2, hi2, lo, hi); CHECK(P.getMinU() == lo2 && P.getMaxU() == hi2 && P.getMinW() == lo && P.getMaxW() == hi, "new limits"); }
	else if (k == 1) { PlaneSurface P(p, n, d); onplane(P); Vec3Cart U(P(1, 0) - P(0, 0)), W(P(0, 1) - P(0, 0)); CHECK(std::fabs(U.NormL2() - 1) < 1e-12 && std::fabs(W.NormL2() - 1) < 1e-12 && std::fabs(ScalarProduct(U, W)) < 1e-12, "frame not orthonormal"); CHECK(dst(U, (1 / e.NormL2()) * e) <= 1e-11, "first axis is not the projected direction"); CHECK(dst(VectorProduct(U, W), (1 / ln) * n) <= 1e-11, "frame is not right-handed about the normal"); CHECK(P.getMinU() == Constants::NegInf && P.getMaxU() == Constants::PosInf && P.getMinW() == Constants::NegInf && P.getMaxW() == Constants::PosInf, "unbounded limits"); }
	else if (k == 2) { if (s.chance(1, 3)) n = Vec3Cart(s.b() ? 2 : -3, 0, 0), ln = n.NormL2(); PlaneSurface P(p, n); onplane(P); Vec3Cart U(P(1, 0) - P(0, 0)), W(P(0, 1) - P(0, 0)); CHECK(std::fabs(U.NormL2() - 1) < 1e-12 && std::fabs(W.NormL2() - 1) < 1e-12 && std::fabs(ScalarProduct(U, W)) < 1e-12, "frame not orthonormal"); CHECK(dst(VectorProduct(U, W), (1 / ln) * n) <= 1e-11, "frame is not right-handed about the normal"); }
	else { Vec3Cart t = s.uni(0.5, 2) * n; CHECK_THROWS(PlaneSurface(p, n, t), std::exception, "direction along the normal"); CHECK_THROWS(PlaneSurface(p, n, -1.0 * t), std::exception, "direction against the normal"); CHECK_THROWS(PlaneSurface(p, n, e + 0.3 * n, f), std::exception, "first axis out of the plane"); CHECK_THROWS(PlaneSurface(p, n, e, f - 0.3 * n), std::exception, "second axis out of the plane"); }
}
LAW(point_kinds, 300, 3000) { // classification of surface points
	double a = s.uni(0.5, 2), b = s.uni(0.5, 2), u = s.uni(0.3, 2.8), w = s.uni(0.3, 0.9); int k = (int)s.i(0, 4); c.say([&](auto& o) { o << "kind " << k << " u " << u << " w " << w << " sizes " << a << " " << b; }); c.nontrivial(true); double eps = 1e-4;
	if (k == 0) { CylinderSurface S(a, 1); CHECK(S.isParabolic(u, w, eps) && S.isFlat(u, w, eps) && !S.isHyperbolic(u, w, eps) && S.isRegular(u, w), "cylinder points are parabolic"); }
	else if (k == 1) { Sphere S(a); CHECK(!S.isParabolic(u, w, eps) && !S.isFlat(u, w, eps) && !S.isHyperbolic(u, w, eps) && S.isRegular(u, w), "sphere points are elliptic"); }
	else if (k == 2) { PlaneSurface S(Vec3Cart(a, b, 1), Vec3Cart(b, a, 1)); CHECK(!S.isParabolic(u, w, eps) && S.isFlat(u, w, eps) && !S.isHyperbolic(u, w, eps) && S.isRegular(u, w), "plane points are planar"); }
	else if (k == 3) { Helicoid S(a); CHECK(!S.isParabolic(u, w, eps) && !S.isFlat(u, w, eps) && S.isHyperbolic(u, w, eps) && S.isRegular(u, w), "helicoid points are hyperbolic"); }
	else { Paraboloid S(a, b); CHECK(!S.isHyperbolic(u, w, eps) && !S.isFlat(u, w, eps), "paraboloid points are elliptic"); }
}
static VectorN<Real, 3> probe3(Real t) { return VectorN<Real, 3>{ t, 2 * t, std::sin(t) }; }
static VectorN<Real, 2> probe2(Real t) { return VectorN<Real, 2>{ t, t * t }; }
LAW(curve_constructors, 300, 3000) { // short constructors, ranges and refused parameters
	double r = s.uni(0.3, 4), t = s.uni(-6, 6); c.say([&](auto& o) { o << "radius " << r << " t " << t; }); c.nontrivial(true); Pnt2Cart o2(0, 0); Pnt3Cart o3(0, 0, 0);
	sameC(s, Circle2DCurve(), Circle2DCurve(1, o2), "circle"); sameC(s, Circle2DCurve(r), Circle2DCurve(r, o2), "circle"); sameC(s, Circle3DXYCurve(r), Circle3DXYCurve(r, o3), "xy circle"); sameC(s, Circle3DXZCurve(r), Circle3DXZCurve(r, o3), "xz circle"); sameC(s, Circle3DYZCurve(r), Circle3DYZCurve(r, o3), "yz circle"); sameC(s, Circle3DXYCurve(), Circle3DXYCurve(1, o3), "xy circle"); sameC(s, Circle3DXZCurve(), Circle3DXZCurve(1, o3), "xz circle"); sameC(s, Circle3DYZCurve(), Circle3DYZCurve(1, o3), "yz circle"); sameC(s, Circle2DCurvePolar(r), Circle2DCurvePolar(r, o2), "polar circle"); sameC(s, Circle2DCurvePolar(), Circle2DCurvePolar(1, o2), "polar circle");
	sameC(s, LogSpiralCurve(), LogSpiralCurve(-1, 1), "spiral"); sameC(s, LogSpiralCurve(-r / 4), LogSpiralCurve(-r / 4, 1), "spiral"); sameC(s, DeltoidCurve(), DeltoidCurve(1), "deltoid"); sameC(s, AstroidCurve(), AstroidCurve(1), "astroid"); sameC(s, EpitrochoidCurve(), EpitrochoidCurve(1, 1, 1), "epitrochoid"); sameC(s, ArchimedeanSpiralCurve(), ArchimedeanSpiralCurve(1), "spiral"); sameC(s, ButterflyCurve(), ButterflyCurve(1), "butterfly"); sameC(s, HelixCurve(), HelixCurve(1, 1), "helix"); sameC(s, ToroidalSpiralCurve(), ToroidalSpiralCurve(1, 1.0), "toroidal"); sameC(s, ToroidalSpiralCurve(3), ToroidalSpiralCurve(3, 1.0), "toroidal"); sameC(s, ToroidalSpiralCurve(r), ToroidalSpiralCurve(1, r), "toroidal");
	auto closed = [&](const auto& C, const char* n) { CHECK(std::isfinite(C.getMinT()) && std::isfinite(C.getMaxT()), n << ": bounded range"); CHECK(dst(C(C.getMinT()), C(C.getMaxT())) <= 1e-11, n << ": not closed over its range"); double h = (C.getMinT() + C.getMaxT()) / 2; CHECK(dst(C(C.getMinT()), C(h)) > 0.1, n << ": range covers it more than once"); };
	closed(Circle2DCurve(r), "circle"); closed(Circle3DXYCurve(r), "xy circle"); closed(Circle3DXZCurve(r), "xz circle"); closed(Circle3DYZCurve(r), "yz circle"); closed(Circle3DCurve(r, Vec3Cart(s.uni(0.1, 2), s.uni(-2, 2), s.uni(-2, 2)), Pnt3Cart(1, 2, 3)), "circle in space"); { ButterflyCurve B(r); double T = B.getMaxT(); CHECK(B.getMinT() == 0 && std::fabs(T - 6 * TPI) < 1e-12, "butterfly range"); double x = s.uni(0, T); CHECK(std::isfinite(B(x)[0]), "butterfly"); }
	for (double m : { LemniscateCurve().getMinT(), DeltoidCurve().getMinT(), AstroidCurve().getMinT(), EpitrochoidCurve().getMinT(), ArchimedeanSpiralCurve().getMinT(), LogSpiralCurve().getMinT(), HelixCurve().getMinT(), TwistedCubicCurve().getMinT(), ToroidalSpiralCurve().getMinT() }) CHECK(m == Constants::NegInf, "unbounded below");
	for (double m : { LemniscateCurve().getMaxT(), DeltoidCurve().getMaxT(), AstroidCurve().getMaxT(), EpitrochoidCurve().getMaxT(), ArchimedeanSpiralCurve().getMaxT(), LogSpiralCurve().getMaxT(), HelixCurve().getMaxT(), TwistedCubicCurve().getMaxT(), ToroidalSpiralCurve().getMaxT() }) CHECK(m == Constants::PosInf, "unbounded above");
	CurveCartesian3D F(probe3), G(-r, 2 * r, probe3); CHECK(F.getMinT() == Constants::NegInf && F.getMaxT() == Constants::PosInf && G.getMinT() == -r && G.getMaxT() == 2 * r && dst(F(t), probe3(t)) == 0 && dst(G(t), probe3(t)) == 0, "curve from a function"); (void)probe2;
	CHECK_THROWS(LogSpiralCurve(r), std::exception, "growing spiral"); CHECK_THROWS(LogSpiralCurve(0.0, 1.0), std::exception, "flat spiral"); CHECK_THROWS(LogSpiralCurve(-1, 0), std::exception, "no spiral"); CHECK_THROWS(AstroidCurve(-r), std::exception, "negative astroid"); CHECK_THROWS(AstroidCurve(0.0), std::exception, "empty astroid"); CHECK_THROWS(Circle3DCurve(r, Vec3Cart(0, 0, 0), o3), std::exception, "circle about nothing");
	Circle2DCurvePolar P(r); CHECK_NEAR(P.getRadiusOfCurvature(s.uni(0.2, 2.5)), r, 1e-5 * r * r, "polar radius of curvature"); Pnt2Cart q(s.uni(-0.2, 0.2) * r, s.uni(-0.2, 0.2) * r); Circle2DCurvePolar Q(r, q); double tt = s.uni(-2.5, 2.5); CHECK_NEAR(Q.getRadiusOfCurvature(tt), r, 1e-4 * (1 + r * r), "polar radius of curvature off centre"); CHECK_NEAR(Q.getRadiusOfCurvature(tt) * Q.getCurvature(tt), 1, 1e-12, "radius times curvature");
}
