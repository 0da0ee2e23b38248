// C58: differential geometry of provided (and user-defined) curves and surfaces.  Oracle: Taylor-jet arithmetic in long double on independently written parametrisations.
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Function.h"
#include "interfaces/ITensorField.h"
#include "core/Integration/Integration1D.h"
#include "base/Geometry/Geometry2D.h"
#include "base/Geometry/Geometry3D.h"
#include "base/Geometry/Geometry3DBodies.h"
#include "core/Derivation.h"
#include "core/Integration.h"
#include "core/Integration/PathIntegration.h"
#include "core/Curves.h"
#include "core/Surfaces.h"
using namespace MML;
using std::vector; using std::string;
namespace {
const LD PIl = acosl(-1.0L);
// --- third-order jets in one variable
struct J { LD a[4]; };
J operator+(J x, J y) { for (int i = 0; i < 4; i++) x.a[i] += y.a[i]; return x; }
J operator-(J x, J y) { for (int i = 0; i < 4; i++) x.a[i] -= y.a[i]; return x; }
J operator*(J x, J y) { return {x.a[0] * y.a[0], x.a[1] * y.a[0] + x.a[0] * y.a[1], x.a[2] * y.a[0] + 2 * x.a[1] * y.a[1] + x.a[0] * y.a[2], x.a[3] * y.a[0] + 3 * x.a[2] * y.a[1] + 3 * x.a[1] * y.a[2] + x.a[0] * y.a[3]}; }
J operator*(LD k, J x) { for (auto& v : x.a) v *= k; return x; }
J operator+(LD k, J x) { x.a[0] += k; return x; }
J chain(J x, LD g0, LD g1, LD g2, LD g3) { LD p = x.a[1], q = x.a[2], r = x.a[3]; return {g0, g1 * p, g2 * p * p + g1 * q, g3 * p * p * p + 3 * g2 * p * q + g1 * r}; }
J sin(J x) { LD s = sinl(x.a[0]), c = cosl(x.a[0]); return chain(x, s, c, -s, -c); }
J cos(J x) { LD s = sinl(x.a[0]), c = cosl(x.a[0]); return chain(x, c, -s, -c, s); }
J exp(J x) { LD e = expl(x.a[0]); return chain(x, e, e, e, e); }
J inv(J x) { LD v = 1 / x.a[0]; return chain(x, v, -v * v, 2 * v * v * v, -6 * v * v * v * v); }
J var(LD t) { return {t, 1, 0, 0}; }
// --- second-order jets in two variables
struct K { LD v, u, w, uu, uw, ww; };
K operator+(K x, K y) { return {x.v + y.v, x.u + y.u, x.w + y.w, x.uu + y.uu, x.uw + y.uw, x.ww + y.ww}; }
K operator*(LD k, K x) { return {k * x.v, k * x.u, k * x.w, k * x.uu, k * x.uw, k * x.ww}; }
K operator-(K x, K y) { return x + (-1.0L) * y; }
K operator+(LD k, K x) { x.v += k; return x; }
K operator*(K x, K y) { return {x.v * y.v, x.u * y.v + x.v * y.u, x.w * y.v + x.v * y.w, x.uu * y.v + 2 * x.u * y.u + x.v * y.uu, x.uw * y.v + x.u * y.w + x.w * y.u + x.v * y.uw, x.ww * y.v + 2 * x.w * y.w + x.v * y.ww}; }
K chain(K x, LD g0, LD g1, LD g2) { return {g0, g1 * x.u, g1 * x.w, g2 * x.u * x.u + g1 * x.uu, g2 * x.u * x.w + g1 * x.uw, g2 * x.w * x.w + g1 * x.ww}; }
K sin(K x) { LD s = sinl(x.v), c = cosl(x.v); return chain(x, s, c, -s); }
K cos(K x) { LD s = sinl(x.v), c = cosl(x.v); return chain(x, c, -s, -c); }
K cosh(K x) { LD s = sinhl(x.v), c = coshl(x.v); return chain(x, c, s, c); }
K sinh(K x) { LD s = sinhl(x.v), c = coshl(x.v); return chain(x, s, c, s); }
K sqrt(K x) { LD s = sqrtl(x.v); return chain(x, s, 0.5L / s, -0.25L / (s * x.v)); }
K logtanhalf(K x) { LD s = sinl(x.v); return chain(x, logl(tanl(x.v / 2)), 1 / s, -cosl(x.v) / (s * s)); }
typedef std::array<LD, 3> V3;
V3 cr(V3 a, V3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
LD dt(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
LD nm(V3 a) { return sqrtl(dt(a, a)); }
V3 sc(LD k, V3 a) { return {k * a[0], k * a[1], k * a[2]}; }
V3 ad(V3 a, V3 b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
template<class V> V3 v3(const V& v) { return {(LD)v[0], (LD)v[1], (LD)v[2]}; }
LD dist(V3 a, V3 b) { return nm(ad(a, sc(-1, b))); }
string sv(V3 a) { return "(" + fmt((double)a[0]) + ", " + fmt((double)a[1]) + ", " + fmt((double)a[2]) + ")"; }
// numerical differentiation errors: relative to the local size of the curve and its derivatives
const LD T1 = 2e-7L, T2 = 1e-5L, T3 = 5e-3L;
}

// ------------------------------------------------------------------------------------------ plane curves
namespace { struct C2 { std::unique_ptr<Curves::ICurveCartesian2D> c; std::function<std::pair<J, J>(J)> f; string name; LD t; };
C2 gen2(pbt::Src& s) { C2 r; double sc0 = s.real(0.2, 5); LD sL = sc0; double t = s.real(-6, 6); int k = (int)s.choice(7); using namespace Curves;
  if (k == 0) { Pnt2Cart ce(s.real(-5, 5), s.real(-5, 5)); r.c.reset(new Circle2DCurve(sc0, ce)); LD X = ce.X(), Y = ce.Y(); r.f = [=](J u) { return std::make_pair(X + sL * cos(u), Y + sL * sin(u)); }; r.name = "Circle2D"; }
  else if (k == 1) { double lam = s.real(-1.5, -0.05), cc = s.b() ? sc0 : -sc0; t = s.real(-3, 3); r.c.reset(new LogSpiralCurve(lam, cc)); LD l = lam, c = cc; r.f = [=](J u) { return std::make_pair(c * (exp(l * u) * cos(u)), c * (exp(l * u) * sin(u))); }; r.name = "LogSpiral"; }
  else if (k == 2) { r.c.reset(new LemniscateCurve()); r.f = [](J u) { J d = inv(1.0L + sin(u) * sin(u)); return std::make_pair(cos(u) * d, sin(u) * cos(u) * d); }; r.name = "Lemniscate"; }
  else if (k == 3) { int n = (int)s.i(1, 4); r.c.reset(new DeltoidCurve(n)); LD N = n; r.f = [=](J u) { return std::make_pair(2 * N * (cos(u) * (1.0L + cos(u))), 2 * N * (sin(u) * (1.0L + (-1.0L) * cos(u)))); }; r.name = "Deltoid"; }
  else if (k == 4) { r.c.reset(new AstroidCurve(sc0)); r.f = [=](J u) { J c = cos(u), d = sin(u); return std::make_pair(sL * (c * c * c), sL * (d * d * d)); }; r.name = "Astroid"; }
  else if (k == 5) { int n = (int)s.i(1, 4); double cc = s.real(-2, 2); r.c.reset(new EpitrochoidCurve(1.0, cc, n)); LD c = cc, N = n; r.f = [=](J u) { return std::make_pair(cos(u) - c * cos(N * u), sin(u) - c * sin(N * u)); }; r.name = "Epitrochoid"; }
  else if (k == 6) { r.c.reset(new ArchimedeanSpiralCurve(sc0)); r.f = [=](J u) { return std::make_pair(sL * (u * cos(u)), sL * (u * sin(u))); }; r.name = "ArchimedeanSpiral"; }
  else { t = s.real(0, 5); r.c.reset(new ButterflyCurve(sc0)); r.f = [=](J u) { J w = sin((1.0L / 12) * u); J w5 = w * w * w * w * w; J q = exp(cos(u)) - 2.0L * cos(4.0L * u) - w5; return std::make_pair(sL * (sin(u) * q), sL * (cos(u) * q)); }; r.name = "Butterfly"; }
  if (s.chance(1, 6) && k != 1 && k != 7) t = s.pick({0.0, (double)PIl / 2, (double)PIl, -(double)PIl / 4}); r.t = t; return r; } }
LAW(plane_curves, 3000, 100000) {
  C2 q = gen2(s); double t = (double)q.t; auto [X, Y] = q.f(var(q.t)); V3 p{X.a[0], Y.a[0], 0}, d{X.a[1], Y.a[1], 0}, e{X.a[2], Y.a[2], 0}, th{X.a[3], Y.a[3], 0}; LD S = nm(p) + nm(d) + nm(e) + nm(th);
  c.say([&](auto& o) { o << q.name << " t=" << t << " r=" << sv(p) << " r'=" << sv(d) << " r''=" << sv(e); }); c.label(q.name);
  auto P = (*q.c)(t); CHECK(hypotl(P[0] - p[0], P[1] - p[1]) <= 1e-13L * S, q.name << "(" << t << ") = (" << P[0] << "," << P[1] << ") expected " << sv(p));
  auto tg = q.c->getTangent(t); CHECK(hypotl(tg[0] - d[0], tg[1] - d[1]) <= T1 * S, q.name << " tangent (" << tg[0] << "," << tg[1] << ") expected " << sv(d));
  auto no = q.c->getNormal(t); CHECK(hypotl(no[0] - e[0], no[1] - e[1]) <= T2 * S, q.name << " second derivative (" << no[0] << "," << no[1] << ") expected " << sv(e));
  LD sp = nm(d); DISCARD_IF(sp < 0.02L * S || sp < 1e-3L); c.nontrivial(true);
  auto tu = q.c->getTangentUnit(t), nu = q.c->getNormalUnit(t); LD ux = d[0] / sp, uy = d[1] / sp;
  CHECK(hypotl(tu[0] - ux, tu[1] - uy) <= 2e-5L, q.name << " unit tangent (" << tu[0] << "," << tu[1] << ")");
  CHECK(fabsl(hypotl(nu[0], nu[1]) - 1) <= 1e-12L && fabsl(nu[0] * ux + nu[1] * uy) <= 2e-5L, q.name << " unit normal (" << nu[0] << "," << nu[1] << ") is not perpendicular to the tangent (" << (double)ux << "," << (double)uy << ")");
  LD cs = d[0] * e[1] - d[1] * e[0], k = cs / (sp * sp * sp), tol = 200 * T2 * S * S / (sp * sp); tol = std::max(tol, (LD)1e-6 * fabsl(k));
  if (fabsl(cs) > 1e-3L * S * S) CHECK(((-uy) * nu[0] + ux * nu[1]) * cs > 0, q.name << " unit normal points away from the centre of curvature");
  if (sp * sp * sp < 1e-11L) return;  // below the library's absolute zero threshold
  Real ks = q.c->getSignedCurvature(t), ku = q.c->getCurvature(t), R = q.c->getRadiusOfCurvature(t);
  CHECK(fabsl(ks - k) <= tol, q.name << " signed curvature " << ks << " expected " << (double)k); CHECK(fabsl(ku - fabsl(k)) <= tol, q.name << " curvature " << ku << " expected " << (double)fabsl(k));
  CHECK(std::abs(Curves::getCurvature2D(*q.c, t) - ku) <= 1e-12 * ku && std::abs(Curves::getSignedCurvature2D(*q.c, t) - ks) <= 1e-12 * ku, "free functions differ");
  if (ku > 1e-9) CHECK(fabsl(R * ku - 1) <= 1e-12L, q.name << " radius of curvature " << R << " for curvature " << ku);
}
namespace { struct PolarCurve : Curves::ICurvePolar2D { double a, b, m, ph; Real getMinT() const { return -10; } Real getMaxT() const { return 10; } VectorN<Real, 2> operator()(Real t) const { return VectorN<Real, 2>{a + b * std::cos(m * t), ph + t + 0.3 * std::sin(t)}; } }; }
LAW(polar_curves, 1500, 40000) {
  PolarCurve q; q.b = s.real(0, 1); q.a = q.b + s.real(0.3, 3); q.m = (int)s.i(1, 3); q.ph = s.real(-3, 3); double t = s.real(-5, 5); bool circ = s.chance(1, 3); J u = var(t), r, th; LD A = q.a, B = q.b; r = A + B * cos((LD)q.m * u); th = (LD)q.ph + u + 0.3L * sin(u);
  std::unique_ptr<Curves::ICurvePolar2D> P(new PolarCurve(q)); J X = r * cos(th), Y = r * sin(th); string name = "polar curve";
  if (circ) { double R = s.real(0.3, 3), cx = R + s.real(0.5, 4), cy = s.real(-2, 2); P.reset(new Curves::Circle2DCurvePolar(R, Pnt2Cart(cx, cy))); X = (LD)cx + (LD)R * cos(u); Y = (LD)cy + (LD)R * sin(u); name = "Circle2DCurvePolar"; }  // the origin is outside, the branch cut of atan2 is never crossed
  V3 d{X.a[1], Y.a[1], 0}, e{X.a[2], Y.a[2], 0}; LD S = fabsl(X.a[0]) + fabsl(Y.a[0]) + nm(d) + nm(e) + hypotl(X.a[3], Y.a[3]), sp = nm(d); DISCARD_IF(sp < 0.05L * S || sp < 1e-3L); c.nontrivial(true);
  c.say([&](auto& o) { o << name << " a=" << q.a << " b=" << q.b << " m=" << q.m << " t=" << t; });
  auto cc = P->toCartesian(t); CHECK(hypotl(cc[0] - X.a[0], cc[1] - Y.a[0]) <= 1e-13L * S, name << " toCartesian"); auto tg = P->getTangent(t), tu = P->getTangentUnit(t), n = P->getNormal(t), nu = P->getNormalUnit(t);
  CHECK(hypotl(tg[0] - d[0], tg[1] - d[1]) <= 10 * T1 * S, name << " tangent (" << tg[0] << "," << tg[1] << ") expected " << sv(d)); CHECK(hypotl(tu[0] - d[0] / sp, tu[1] - d[1] / sp) <= 1e-7L, name << " unit tangent"); CHECK(hypotl(n[0] + d[1], n[1] - d[0]) <= 10 * T1 * S, name << " normal is not the tangent turned by +90 degrees"); CHECK(hypotl(nu[0] + d[1] / sp, nu[1] - d[0] / sp) <= 1e-7L, name << " unit normal");
  LD k = fabsl(d[0] * e[1] - d[1] * e[0]) / (sp * sp * sp); CHECK(fabsl(P->getCurvature(t) - k) <= 500 * T2 * S * S / (sp * sp) + 1e-6L * k, name << " curvature " << P->getCurvature(t) << " expected " << (double)k);
}
// ------------------------------------------------------------------------------------------ space curves
namespace { double gP[6]; VectorN<Real, 3> userCurve(Real t) { return VectorN<Real, 3>{gP[0] * std::cos(gP[1] * t), gP[2] * std::sin(t), gP[3] * t + gP[4] * std::cos(2 * t)}; }
struct C3 { std::unique_ptr<Curves::ICurveCartesian3D> c; std::function<std::array<J, 3>(J)> f; string name; double t; bool line = false; };
Vec3Cart rv(pbt::Src& s) { return Vec3Cart(s.real(-3, 3), s.real(-3, 3), s.real(-3, 3)); }
C3 gen3(pbt::Src& s) { using namespace Curves; C3 r; r.t = s.real(-4, 4); int k = (int)s.choice(8); double R = s.real(0.3, 4); Pnt3Cart ce(s.real(-3, 3), s.real(-3, 3), s.real(-3, 3)); LD x = ce.X(), y = ce.Y(), z = ce.Z(), L = R; auto K0 = [](LD v) { return J{v, 0, 0, 0}; };
  if (k == 0) { r.c.reset(new Circle3DXYCurve(R, ce)); r.f = [=](J u) { return std::array<J, 3>{x + L * cos(u), y + L * sin(u), K0(z)}; }; r.name = "Circle3DXY"; }
  else if (k == 1) { r.c.reset(new Circle3DXZCurve(R, ce)); r.f = [=](J u) { return std::array<J, 3>{x + L * cos(u), K0(y), z + L * sin(u)}; }; r.name = "Circle3DXZ"; }
  else if (k == 2) { r.c.reset(new Circle3DYZCurve(R, ce)); r.f = [=](J u) { return std::array<J, 3>{K0(x), y + L * cos(u), z + L * sin(u)}; }; r.name = "Circle3DYZ"; }
  else if (k == 3) { double b = s.real(-3, 3); LD B = b; r.c.reset(new HelixCurve(R, b)); r.f = [=](J u) { return std::array<J, 3>{L * cos(u), L * sin(u), B * u}; }; r.name = "Helix"; }
  else if (k == 4) { r.t = s.real(-1.5, 1.5); r.c.reset(new TwistedCubicCurve()); r.f = [=](J u) { return std::array<J, 3>{u, u * u, u * u * u}; }; r.name = "TwistedCubic"; }
  else if (k == 5) { int n = (int)s.i(1, 4); r.c.reset(new ToroidalSpiralCurve(n, R)); LD N = n; r.f = [=](J u) { J q = 4.0L + sin(N * u); return std::array<J, 3>{L * (q * cos(u)), L * (q * sin(u)), L * cos(N * u)}; }; r.name = "ToroidalSpiral"; }
  else if (k == 6) { Vec3Cart d = rv(s); if (d.NormL2() < 0.2) d = Vec3Cart(1, 0, 0); r.line = true; if (s.b()) { r.c.reset(new LineCurve(-5, 5, ce, d)); LD dn = d.NormL2(); (void)dn; V3 a{x, y, z}; r.f = nullptr; r.name = "Line(point, direction)"; }
    else { Pnt3Cart p2 = ce + d; double t1 = s.real(-3, 3), t2 = t1 + s.real(0.3, 5); r.c.reset(new LineCurve(t1, ce, t2, p2)); LD a = t1, b = t2; LD p2x = p2.X(), p2y = p2.Y(), p2z = p2.Z(); r.f = [=](J u) { J w = (1 / (b - a)) * ((-a) + u); return std::array<J, 3>{x + (p2x - x) * w, y + (p2y - y) * w, z + (p2z - z) * w}; }; r.name = "Line(t1,p1,t2,p2)"; } }
  else if (k == 7) { Vec3Cart n = rv(s); if (s.chance(1, 3)) n = s.pick<Vec3Cart>({Vec3Cart(0, 0, 1), Vec3Cart(0, 0, -2), Vec3Cart(1, 0, 0), Vec3Cart(0, -1, 0), Vec3Cart(1e-3, 0, 1)}); if (n.NormL2() < 0.1) n = Vec3Cart(0, 1, 0); r.c.reset(new Circle3DCurve(R, n, ce)); r.name = "Circle3D"; r.f = nullptr; gP[0] = n[0]; gP[1] = n[1]; gP[2] = n[2]; gP[3] = R; }
  else { for (auto& v : gP) v = s.real(-2, 2); r.c.reset(new CurveCartesian3D(-5, 5, userCurve)); LD g0 = gP[0], g1 = gP[1], g2 = gP[2], g3 = gP[3], g4 = gP[4]; r.f = [=](J u) { return std::array<J, 3>{g0 * cos(g1 * u), g2 * sin(u), g3 * u + g4 * cos(2.0L * u)}; }; r.name = "user curve"; }
  return r; } }
LAW(space_curves, 3000, 100000) {
  C3 q = gen3(s); double t = q.t; auto& C = *q.c; c.label(q.name); c.say([&](auto& o) { o << q.name << " t=" << t; });
  if (q.name == "Circle3D") {  // any orthonormal pair perpendicular to the normal is allowed
    V3 n{(LD)gP[0], (LD)gP[1], (LD)gP[2]}; n = sc(1 / nm(n), n); LD R = gP[3]; V3 p0 = v3(C(t)), pO = v3(C(t + Constants::PI)); V3 ce = sc(0.5L, ad(p0, pO)); V3 a = ad(p0, sc(-1, ce)), b = ad(v3(C(t + Constants::PI / 2)), sc(-1, ce)); c.nontrivial(true);
    CHECK(fabsl(nm(a) - R) <= 1e-12L * (R + nm(ce)) && fabsl(nm(b) - R) <= 1e-12L * (R + nm(ce)) && fabsl(dt(a, n)) <= 1e-12L * (R + nm(ce)) && fabsl(dt(a, b)) <= 1e-12L * (R + nm(ce)) * R, "Circle3D does not trace the circle of radius " << (double)R << " about normal " << sv(n)); 
    CHECK(fabsl(C.getCurvature(t) - 1 / R) <= 1e-5L * (1 / R) * (1 + nm(ce) / R), "Circle3D curvature " << C.getCurvature(t) << " expected " << (double)(1 / R)); V3 N = v3(C.getNormal(t)); CHECK(dist(N, sc(-1 / R, a)) <= 1e-6L * (1 + nm(ce) / R), "Circle3D normal"); V3 bi = v3(C.getBinormal(t)); CHECK(fabsl(fabsl(dt(bi, n)) - 1) <= 1e-6L * (1 + nm(ce) / R), "Circle3D binormal"); return; }
  if (q.name == "Line(point, direction)") { V3 a = v3(C(0.0)), b = v3(C(t)), m = v3(C(t / 2)); CHECK(dist(sc(0.5L, ad(a, b)), m) <= 1e-13L * (1 + nm(a) + nm(b)), "line midpoint"); CHECK(C.getMinT() == -5 && C.getMaxT() == 5, "limits"); CHECK(C.getCurvature(t) <= 1e-5, "curvature of a line: " << C.getCurvature(t)); return; }
  auto r = q.f(var(t)); V3 p, d, e, h; for (int i = 0; i < 3; i++) { p[i] = r[i].a[0]; d[i] = r[i].a[1]; e[i] = r[i].a[2]; h[i] = r[i].a[3]; } LD S = nm(p) + nm(d) + nm(e) + nm(h);
  CHECK(dist(v3(C(t)), p) <= 1e-13L * S, q.name << "(" << t << ") = " << sv(v3(C(t))) << " expected " << sv(p)); CHECK(dist(v3(C.getTangent(t)), d) <= T1 * S, q.name << " tangent " << sv(v3(C.getTangent(t))) << " expected " << sv(d)); CHECK(dist(v3(C.getSecondDerivative(t)), e) <= T2 * S, q.name << " second derivative");
  LD sp = nm(d); DISCARD_IF(sp < 0.05L * S || sp < 1e-3L); V3 T = sc(1 / sp, d); CHECK(dist(v3(C.getTangentUnit(t)), T) <= 2e-5L, q.name << " unit tangent"); V3 x = cr(d, e); LD k = nm(x) / (sp * sp * sp); CHECK(fabsl(C.getCurvature(t) - k) <= 200 * T2 * S * S / (sp * sp) / S + 1e-6L * k + 100 * T2 * S / (sp * sp), q.name << " curvature " << C.getCurvature(t) << " expected " << (double)k);
  if (q.line || nm(x) < 0.02L * S * S) return; c.nontrivial(true);
  LD K = C.getCurvature(t); CHECK(fabsl(C.getRadiusOfCurvature(t) * K - 1) <= 1e-12L, "radius of curvature"); V3 B = sc(1 / nm(x), x), N = cr(B, T); LD ft = 3e-5L;
  V3 gN = v3(C.getNormal(t)), gB = v3(C.getBinormal(t)); CHECK(dist(gN, N) <= ft, q.name << " principal normal " << sv(gN) << " expected " << sv(N)); CHECK(dist(gB, B) <= ft, q.name << " binormal " << sv(gB) << " expected " << sv(B)); CHECK(fabsl(nm(gN) - 1) <= 1e-9L && fabsl(nm(gB) - 1) <= 1e-9L && fabsl(dt(gN, gB)) <= 1e-9L && fabsl(dt(gN, v3(C.getTangentUnit(t)))) <= 1e-9L, q.name << " Frenet frame is not orthonormal");
  CHECK(dist(v3(C.getCurvatureVector(t)), sc(k, N)) <= ft * (k + 1) + fabsl(K - k) + 1e-6L, q.name << " curvature vector"); Vector3Cartesian a, b2, cB; C.getMovingTrihedron(t, a, b2, cB); CHECK(dist(v3(a), T) <= 1e-7L && dist(v3(b2), gN) <= 1e-12L && dist(v3(cB), gB) <= 1e-12L, "moving trihedron");
  LD tau = dt(x, h) / dt(x, x); LD tt = T3 * S * nm(x) / dt(x, x) + 1e-3L * fabsl(tau) + 20 * T2 * S * S * S / dt(x, x); CHECK(fabsl(C.getTorsion(t) - tau) <= tt, q.name << " torsion " << C.getTorsion(t) << " expected " << (double)tau << " (tolerance " << (double)tt << ")");
  auto plane = [&](const Plane3D& P, V3 n, const char* w) { V3 m{(LD)P.A(), (LD)P.B(), (LD)P.C()}; LD off = dt(m, p) + P.D(); CHECK(dist(cr(m, n), V3{0, 0, 0}) <= ft * nm(m) && nm(m) > 0.5L, q.name << " " << w << " plane has normal " << sv(m) << " expected " << sv(n)); CHECK(fabsl(off) <= 1e-9L * (1 + nm(p)), q.name << " " << w << " plane misses the point by " << (double)off); };
  plane(C.getOsculationPlane(t), B, "osculating"); plane(C.getNormalPlane(t), T, "normal"); plane(C.getRectifyingPlane(t), N, "rectifying");
}
LAW(arc_length, 150, 3000) {
  double R = s.real(0.3, 4), b = s.real(-3, 3), t1 = s.real(-4, 3), t2 = t1 + s.real(0.2, 5); Curves::HelixCurve H(R, b); LD L = hypotl(R, b) * (t2 - t1); c.nontrivial(true); c.say([&](auto& o) { o << "helix R=" << R << " b=" << b << " [" << t1 << "," << t2 << "]"; });
  CHECK(fabsl(PathIntegration::ParametricCurveLength(H, t1, t2) - L) <= 1e-6L * L, "helix length " << PathIntegration::ParametricCurveLength(H, t1, t2) << " expected " << (double)L);
  bool unit = s.b(); double a = s.real(0.1, 1.5); Curves::HelixCurve U(unit ? std::cos(a) : std::cos(a) * 1.01, std::sin(a)); bool got = U.isArcLengthParametrized(t1, t2, 12); LD spd = hypotl(unit ? std::cos(a) : std::cos(a) * 1.01L, std::sin(a)); if (unit) CHECK(got, "unit-speed helix not recognised as arc-length parametrised"); else if (fabsl(spd - 1) > 1e-4L) CHECK(!got, "helix of speed " << (double)spd << " taken for arc-length parametrised");
}
// ------------------------------------------------------------------------------------------ surfaces
namespace { struct S2 { std::unique_ptr<Surfaces::ISurfaceCartesian> s; std::function<std::array<K, 3>(K, K)> f; string name; double u, w; };
S2 genS(pbt::Src& s) { using namespace Surfaces; S2 r; int k = (int)s.choice(12); double a = s.real(0.4, 3), b = s.real(0.4, 3), cc = s.real(0.4, 3); LD A = a, B = b, C = cc; r.u = s.real(0.3, 2.8); r.w = s.real(0, 6.2);
  if (k == 0) { r.w = s.real(0, 3); r.s.reset(new CylinderSurface(a, 4)); r.f = [=](K u, K w) { return std::array<K, 3>{A * cos(u), A * sin(u), w}; }; r.name = "Cylinder"; }
  else if (k == 1) { double R = a + b + 0.2; LD L = R; r.u = s.real(0, 6.2); r.s.reset(new Torus(R, a)); r.f = [=](K u, K w) { K q = L + A * cos(w); return std::array<K, 3>{q * cos(u), q * sin(u), A * sin(w)}; }; r.name = "Torus"; }
  else if (k == 2) { r.s.reset(new Sphere(a)); r.f = [=](K u, K w) { return std::array<K, 3>{A * (sin(u) * cos(w)), A * (sin(u) * sin(w)), A * cos(u)}; }; r.name = "Sphere"; }
  else if (k == 3) { r.u = s.real(-2, 2); r.w = s.real(-2, 2); r.s.reset(new MonkeySaddle()); r.f = [](K u, K w) { return std::array<K, 3>{u, w, u * (u * u - 3.0L * (w * w))}; }; r.name = "MonkeySaddle"; }
  else if (k == 4) { r.u = s.real(0, 6.2); r.w = s.real(-0.8, 0.8); r.s.reset(new MobiusStrip(a)); r.f = [=](K u, K w) { K q = 1.0L + w * cos(0.5L * u); return std::array<K, 3>{A * (q * cos(u)), A * (q * sin(u)), A * (w * sin(0.5L * u))}; }; r.name = "MobiusStrip"; }
  else if (k == 5) { r.s.reset(new Ellipsoid(a, b, cc)); r.f = [=](K u, K w) { return std::array<K, 3>{A * (sin(u) * cos(w)), B * (sin(u) * sin(w)), C * cos(u)}; }; r.name = "Ellipsoid"; }
  else if (k == 6) { r.u = s.real(-1.5, 1.5); r.s.reset(new Hyperboloid(a, b, cc)); r.f = [=](K u, K w) { return std::array<K, 3>{A * (cosh(u) * cos(w)), B * (cosh(u) * sin(w)), C * sinh(u)}; }; r.name = "Hyperboloid"; }
  else if (k == 7) { r.u = s.real(0.5, 5); r.s.reset(new Paraboloid(a, b)); r.f = [=](K u, K w) { K q = sqrt((1 / B) * u); return std::array<K, 3>{A * (q * cos(w)), A * (q * sin(w)), u}; }; r.name = "Paraboloid"; }
  else if (k == 8) { r.u = s.real(-3, 3); r.s.reset(new Helicoid(a)); r.f = [=](K u, K w) { return std::array<K, 3>{u * cos(w), u * sin(w), A * w}; }; r.name = "Helicoid"; }
  else if (k == 9) { r.u = s.real(-1.8, 1.8); r.w = s.real(-1.8, 1.8); r.s.reset(new EnneperSurface(a)); r.f = [=](K u, K w) { return std::array<K, 3>{A * (u - (1.0L / 3) * (u * u * u) + u * w * w), A * (w - (1.0L / 3) * (w * w * w) + w * u * u), A * (u * u - w * w)}; }; r.name = "Enneper"; }
  else if (k == 10) { r.u = s.real(0.1, 9); r.w = s.real(0.4, 1.4); r.s.reset(new DiniSurface(a, b)); r.f = [=](K u, K w) { return std::array<K, 3>{A * (cos(u) * sin(w)), A * (sin(u) * sin(w)), A * (cos(w) + logtanhalf(w)) + B * u}; }; r.name = "Dini"; }
  else { Vec3Cart n = rv(s), p = rv(s), d = rv(s); if (s.chance(1, 3)) n = s.pick<Vec3Cart>({Vec3Cart(1, 0, 0), Vec3Cart(-1, 0, 0), Vec3Cart(-3, 0, 0), Vec3Cart(0, 0, 2), Vec3Cart(0, -1, 0)}); if (n.NormL2() < 0.3) n = Vec3Cart(0, 1, 0); V3 nl = sc(1 / nm(v3(n)), v3(n)); r.name = "Plane"; r.f = nullptr; gP[0] = nl[0]; gP[1] = nl[1]; gP[2] = nl[2]; gP[3] = p[0]; gP[4] = p[1]; gP[5] = p[2];
    if (s.b()) r.s.reset(new PlaneSurface(p, n)); else { if (nm(cr(nl, v3(d))) < 0.2L) d = Vec3Cart(n[1], -n[2], n[0] + 1); if (nm(cr(nl, v3(d))) < 0.2L) r.s.reset(new PlaneSurface(p, n)); else { r.s.reset(new PlaneSurface(p, n, d)); r.name = "Plane(direction)"; } } }
  return r; } }
LAW(surfaces, 3000, 100000) {
  S2 q = genS(s); auto& Z = *q.s; double u = q.u, w = q.w; c.label(q.name); c.say([&](auto& o) { o << q.name << " u=" << u << " w=" << w; });
  if (!q.f) { V3 n{(LD)gP[0], (LD)gP[1], (LD)gP[2]}, p{(LD)gP[3], (LD)gP[4], (LD)gP[5]}; V3 x = v3(Z(u, w)), o = v3(Z(0, 0)), eu = ad(v3(Z(1, 0)), sc(-1, o)), ew = ad(v3(Z(0, 1)), sc(-1, o)); c.nontrivial(true);
    CHECK(dist(o, p) <= 1e-13L * (1 + nm(p)), q.name << " does not start at its point"); CHECK(fabsl(nm(eu) - 1) <= 1e-12L && fabsl(nm(ew) - 1) <= 1e-12L && fabsl(dt(eu, ew)) <= 1e-12L && fabsl(dt(eu, n)) <= 1e-12L && fabsl(dt(ew, n)) <= 1e-12L, q.name << " axes " << sv(eu) << " " << sv(ew) << " are not an orthonormal frame of the plane with normal " << sv(n)); CHECK(dist(x, ad(p, ad(sc(u, eu), sc(w, ew)))) <= 1e-12L * (10 + nm(p)), q.name << " point"); CHECK(dist(v3(Z.Normal(u, w)), n) <= 1e-7L, q.name << " normal " << sv(v3(Z.Normal(u, w))) << " expected " << sv(n)); CHECK(std::abs(Z.GaussianCurvature(u, w)) <= 1e-6 && std::abs(Z.MeanCurvature(u, w)) <= 1e-4 && Z.isRegular(u, w), q.name << " curvature"); return; }
  auto r = q.f(K{(LD)u, 1, 0, 0, 0, 0}, K{(LD)w, 0, 1, 0, 0, 0}); V3 p, ru, rw, uu, uw, ww; for (int i = 0; i < 3; i++) { p[i] = r[i].v; ru[i] = r[i].u; rw[i] = r[i].w; uu[i] = r[i].uu; uw[i] = r[i].uw; ww[i] = r[i].ww; } LD S = nm(p) + nm(ru) + nm(rw) + nm(uu) + nm(uw) + nm(ww);
  CHECK(dist(v3(Z(u, w)), p) <= 1e-13L * S, q.name << " point " << sv(v3(Z(u, w))) << " expected " << sv(p)); VectorN<Real, 3> tu, tw; Z.Tangents(u, w, tu, tw); CHECK(dist(v3(tu), ru) <= 10 * T1 * S && dist(v3(tw), rw) <= 10 * T1 * S, q.name << " tangents " << sv(v3(tu)) << " " << sv(v3(tw)) << " expected " << sv(ru) << " " << sv(rw));
  V3 x = cr(ru, rw); LD m = nm(x); DISCARD_IF(m < 0.02L * S * S || m < 1e-5L); c.nontrivial(true); V3 n = sc(1 / m, x); LD reg = S * S / m; CHECK(dist(v3(Z.Normal(u, w)), n) <= 1e-7L * reg, q.name << " normal " << sv(v3(Z.Normal(u, w))) << " expected " << sv(n)); CHECK(Z.isRegular(u, w), q.name << " not regular");
  LD E = dt(ru, ru), F = dt(ru, rw), G = dt(rw, rw), L = dt(uu, n), M = dt(uw, n), N = dt(ww, n); Real e, f, g, l, mm, nn; Z.GetFirstNormalFormCoefficients(u, w, e, f, g); Z.GetSecondNormalFormCoefficients(u, w, l, mm, nn); LD t1 = 1e-7L * S * S, t2 = 1e-5L * S * reg;
  CHECK(fabsl(e - E) <= t1 && fabsl(f - F) <= t1 && fabsl(g - G) <= t1, q.name << " first form (" << e << "," << f << "," << g << ") expected (" << (double)E << "," << (double)F << "," << (double)G << ")"); CHECK(fabsl(l - L) <= t2 && fabsl(mm - M) <= t2 && fabsl(nn - N) <= t2, q.name << " second form (" << l << "," << mm << "," << nn << ") expected (" << (double)L << "," << (double)M << "," << (double)N << ")");
  auto v1 = Z.GetFirstNormalFormCoefficients(u, w); auto v2 = Z.GetSecondNormalFormCoefficients(u, w); CHECK(v1[0] == e && v1[1] == f && v1[2] == g && v2[0] == l && v2[1] == mm && v2[2] == nn, "vector versions of the forms");
  LD D = E * G - F * F, Kg = (L * N - M * M) / D, H = (E * N + G * L - 2 * F * M) / (2 * D), kap = (fabsl(L) + fabsl(M) + fabsl(N)) * S * S / D + 1e-12L, tK = 2e-4L * kap * kap * reg + 1e-5L, tH = 2e-4L * kap * reg + 1e-5L;
  Real gk = Z.GaussianCurvature(u, w), gh = Z.MeanCurvature(u, w), k1, k2; Z.PrincipalCurvatures(u, w, k1, k2); CHECK(fabsl(gk - Kg) <= tK, q.name << " Gaussian curvature " << gk << " expected " << (double)Kg); CHECK(fabsl(gh - H) <= tH, q.name << " mean curvature " << gh << " expected " << (double)H);
  CHECK(fabsl(k1 + k2 - 2 * gh) <= 1e-9L * (fabsl(k1) + fabsl(k2) + 1) && k1 >= k2, q.name << " principal curvatures " << k1 << ", " << k2 << " do not sum to 2H=" << 2 * gh); LD dd = sqrtl(std::max(H * H - Kg, (LD)0));
  if (dd > 0.02L * (fabsl(H) + dd) && dd > 1e-3L) { CHECK(fabsl(k1 - (H + dd)) <= 20 * tH && fabsl(k2 - (H - dd)) <= 20 * tH, q.name << " principal curvatures " << k1 << ", " << k2 << " expected " << (double)(H + dd) << ", " << (double)(H - dd));
    VectorN<Real, 3> d1, d2; Z.PrincipalDirections(u, w, d1, d2); V3 a = v3(d1), b = v3(d2); LD td = 2e-3L * kap / dd * reg; auto nk = [&](V3 v) { LD ve = dt(v, ru), vg = dt(v, rw), al = (ve * G - vg * F) / D, be = (vg * E - ve * F) / D; return (L * al * al + 2 * M * al * be + N * be * be) / (E * al * al + 2 * F * al * be + G * be * be); };
    CHECK(fabsl(nm(a) - 1) <= 1e-9L && fabsl(nm(b) - 1) <= 1e-9L && fabsl(dt(a, n)) <= 1e-6L * reg && fabsl(dt(b, n)) <= 1e-6L * reg, q.name << " principal directions " << sv(a) << " " << sv(b) << " are not unit tangents"); CHECK(fabsl(dt(a, b)) <= td, q.name << " principal directions " << sv(a) << " " << sv(b) << " are not orthogonal (k " << k1 << "," << k2 << ")"); CHECK(fabsl(nk(a) - k1) <= td * (fabsl(k1) + fabsl(k2)) + 20 * tH && fabsl(nk(b) - k2) <= td * (fabsl(k1) + fabsl(k2)) + 20 * tH, q.name << " normal curvature along the principal directions is " << (double)nk(a) << ", " << (double)nk(b) << " expected " << k1 << ", " << k2); }
  if (Kg < -0.01L - tK) CHECK(Z.isHyperbolic(u, w) && !Z.isFlat(u, w), q.name << " with K=" << (double)Kg << " not classified hyperbolic"); if (Kg > 0.01L + tK) CHECK(!Z.isHyperbolic(u, w) && !Z.isFlat(u, w) && !Z.isParabolic(u, w), q.name << " with K=" << (double)Kg << " misclassified");
}
LAW(closed_surfaces, 300, 6000) {
  // the parametrisations close up where they claim to
  using namespace Surfaces; double v = s.real(0, 6.28), sc0 = s.real(0.3, 3), h = 1e-9; KleinBottle Kb(sc0); c.nontrivial(true); c.say([&](auto& o) { o << "v=" << v << " scale=" << sc0; }); const double P = Constants::PI; LD tol = 1e-6L * sc0;
  CHECK(dist(v3(Kb(P - h, v)), v3(Kb(P + h, v))) <= tol, "Klein bottle torn at u=pi: " << sv(v3(Kb(P - h, v))) << " against " << sv(v3(Kb(P + h, v)))); CHECK(dist(v3(Kb(2 * P - h, v)), v3(Kb(0, P - v))) <= tol, "Klein bottle does not close at u=2pi"); CHECK(dist(v3(Kb(s.real(0, 6.28), 0)), v3(Kb(0, 0))) >= 0, "");
  double u = s.real(0, 6.28); CHECK(dist(v3(Kb(u, 0)), v3(Kb(u, 2 * P))) <= tol, "Klein bottle tube open"); MobiusStrip Mb(sc0); double w = s.real(-1, 1); CHECK(dist(v3(Mb(0, w)), v3(Mb(2 * P, -w))) <= tol, "Moebius strip does not close"); Torus To(sc0 + 1, sc0); CHECK(dist(v3(To(0, v)), v3(To(2 * P, v))) <= tol && dist(v3(To(u, 0)), v3(To(u, 2 * P))) <= tol, "torus");
  CHECK(Kb.getMinU() == 0 && std::abs(Kb.getMaxU() - 2 * P) < 1e-12 && std::abs(Kb.getMaxW() - 2 * P) < 1e-12 && std::abs(Sphere(1).getMaxU() - P) < 1e-12 && CylinderSurface(1, sc0).getMaxW() == sc0, "limits");
  CHECK_THROWS((Curves::LogSpiralCurve(s.real(0, 3))), std::exception, "LogSpiral with lambda >= 0"); CHECK_THROWS((Curves::AstroidCurve(-sc0)), std::exception, "Astroid with c <= 0"); CHECK_THROWS((PlaneSurface(Vec3Cart(0, 0, 0), Vec3Cart(1, 2, 3), Vec3Cart(-2, -4, -6))), std::exception, "plane with u axis antiparallel to the normal"); CHECK_THROWS((PlaneSurface(Vec3Cart(0, 0, 0), Vec3Cart(0, 0, 1), Vec3Cart(1, 0, 1), Vec3Cart(0, 1, 0))), std::exception, "plane with u axis not in the plane");
}
