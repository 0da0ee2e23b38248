// C15 path and surface integrals obey the fundamental theorems
#include "common.h"
#include "interfaces/IFunction.h"
#include "base/Geometry/Geometry3DBodies.h"
#include "core/Integration/Integration1D.h"
#include "core/Integration/PathIntegration.h"
#include "core/Integration/SurfaceIntegration.h"
#include <functional>
typedef std::array<LD, 3> V3;
struct Curve : IParametricCurve<3> { std::vector<double> p[3]; double w = 0, R = 0; double t0 = 0, t1 = 1; Real getMinT() const override { return t0; } Real getMaxT() const override { return t1; }
	V3 at(LD t) const { V3 r; for (int d = 0; d < 3; d++) { r[d] = 0; for (int i = (int)p[d].size() - 1; i >= 0; i--) r[d] = r[d] * t + p[d][i]; } r[0] += R * std::cos(w * t); r[1] += R * std::sin(w * t); return r; }
	V3 der(LD t) const { V3 r; for (int d = 0; d < 3; d++) { r[d] = 0; for (int i = (int)p[d].size() - 1; i >= 1; i--) r[d] = r[d] * t + i * p[d][i]; } r[0] -= R * w * std::sin(w * t); r[1] += R * w * std::cos(w * t); return r; }
	VectorN<Real, 3> operator()(Real t) const override { V3 r = at(t); return VectorN<Real, 3>{(double)r[0], (double)r[1], (double)r[2]}; } };
struct Plane2 : IParametricCurve<2> { const Curve* c; Real getMinT() const override { return 0; } Real getMaxT() const override { return 1; } VectorN<Real, 2> operator()(Real t) const override { V3 r = c->at(t); return VectorN<Real, 2>{(double)r[0], (double)r[1]}; } };
struct Reparam : IParametricCurve<3> { const Curve* c; double a, b; int k; Real getMinT() const override { return 0; } Real getMaxT() const override { return 1; } VectorN<Real, 3> operator()(Real s) const override { double u = k == 0 ? s : k == 1 ? s * (0.3 + 0.7 * s) : (std::exp(s) - 1) / (std::exp(1.0) - 1); return (*c)(a + (b - a) * u); } };
struct SF : IScalarFunction<3> { std::function<double(const VectorN<Real, 3>&)> f; Real operator()(const VectorN<Real, 3>& v) const override { return f(v); } };
struct VF : IVectorFunction<3> { std::function<V3(LD, LD, LD)> f; VectorN<Real, 3> operator()(const VectorN<Real, 3>& v) const override { V3 r = f(v[0], v[1], v[2]); return VectorN<Real, 3>{(double)r[0], (double)r[1], (double)r[2]}; } };
struct RF : IRealFunction { std::function<double(double)> f; Real operator()(Real x) const override { return f(x); } };
static Curve genCurve(Src& s) { Curve c; for (int d = 0; d < 3; d++) { int n = s.size(1, 4); for (int i = 0; i < n; i++) c.p[d].push_back(s.real(-2, 2)); } if (s.chance(1, 3)) { c.R = s.uni(0.3, 2); c.w = s.uni(0.5, 3); } return c; }
static std::string show(const Curve& c) { return str(c.p[0]) + str(c.p[1]) + str(c.p[2]) + " + circle " + fmt(c.R) + "," + fmt(c.w); }
// 12-point composite Gauss in long double
template<class F> static LD quad(F f, LD a, LD b, int panels = 40) { static const LD x[6] = {0.1252334085114689154724414L, 0.3678314989981801937526915L, 0.5873179542866174472967024L, 0.7699026741943046870368938L, 0.9041172563704748566784659L, 0.9815606342467192506905491L}, w[6] = {0.2491470458134027850005624L, 0.2334925365383548087608499L, 0.2031674267230659217490645L, 0.1600783285433462263346525L, 0.1069393259953184309602547L, 0.0471753363865118271946160L}; LD s = 0, h = (b - a) / panels / 2; for (int p = 0; p < panels; p++) { LD m = a + h * (2 * p + 1); for (int i = 0; i < 6; i++) s += w[i] * (f(m + h * x[i]) + f(m - h * x[i])); } return s * h; }
static LD nrm(const V3& v) { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
LAW(length, 600, 5000) {
	Curve cu = genCurve(s); double a = s.uni(-1, 1), b = a + s.uni(0.2, 2); int kind = (int)s.choice(2); c.nontrivial(cu.R != 0 || cu.p[0].size() > 2 || cu.p[1].size() > 2); c.say([&](auto& o) { o << show(cu) << " t " << a << ".." << b; }); LD minv = 1e300L; for (int i = 0; i <= 60; i++) minv = std::min(minv, nrm(cu.der(a + (b - a) * i / 60))); LD L = quad([&](LD t) { return nrm(cu.der(t)); }, a, b); DISCARD_IF(L < 1e-3); double rough = minv < 0.05 * L / (b - a) ? 10 : 1; // near-cusps slow the trapezoid rule down
	IntegrationResult r = PathIntegration::ParametricCurveLength<3>(cu, a, b); CHECK(r.converged, "length does not converge"); CHECK_NEAR(r.value, (double)L, 3e-4 * rough * (double)L, "curve length"); double m = s.uni(0.2, 0.8) * (b - a) + a; CHECK_NEAR(PathIntegration::ParametricCurveLength<3>(cu, a, m).value + PathIntegration::ParametricCurveLength<3>(cu, m, b).value, (double)L, 3e-4 * rough * (double)L, "length is not additive"); Reparam q; q.c = &cu; bool rev = s.b(); q.a = rev ? b : a; q.b = rev ? a : b; q.k = kind; CHECK_NEAR(PathIntegration::ParametricCurveLength<3>(q, 0, 1).value, (double)L, 4e-4 * rough * (double)L, "length depends on the parametrisation"); V3 ch{cu.at(b)[0] - cu.at(a)[0], cu.at(b)[1] - cu.at(a)[1], cu.at(b)[2] - cu.at(a)[2]}; CHECK(r.value >= (double)nrm(ch) * (1 - 1e-3), "shorter than the chord");
	Plane2 p2; p2.c = &cu; LD L2 = quad([&](LD t) { V3 d = cu.der(t); return std::sqrt(d[0] * d[0] + d[1] * d[1]); }, a, b); if (L2 > 1e-2 * L) { LD mv = 1e300L; for (int i = 0; i <= 60; i++) { V3 d = cu.der(a + (b - a) * i / 60); mv = std::min(mv, std::sqrt(d[0] * d[0] + d[1] * d[1])); } CHECK_NEAR(PathIntegration::ParametricCurveLength<2>(p2, a, b).value, (double)L2, (mv < 0.05 * L2 ? 3e-3 : 3e-4) * (double)L2, "plane curve length"); }
	RF rho; double k0 = s.uni(0.5, 2), k1 = s.uni(0, 2); rho.f = [=](double t) { return k0 + k1 * t * t; }; LD M = quad([&](LD t) { return (k0 + k1 * t * t) * nrm(cu.der(t)); }, a, b); CHECK_NEAR(PathIntegration::ParametricCurveMass<3>(cu, rho, a, b).value, (double)M, 3e-4 * rough * (double)M, "curve mass");
}
LAW(line, 600, 5000) {   // scalar fields by definition, gradient fields by end-point difference
	Curve cu = genCurve(s); double a = s.uni(-1, 1), b = a + s.uni(0.2, 1.5); double e[3]; for (double& t : e) t = s.real(-2, 2); double al = s.real(-1, 1), be = s.real(-1, 1), ga = s.real(-1, 1); c.nontrivial(true); c.say([&](auto& o) { o << show(cu) << " t " << a << ".." << b << " field " << e[0] << "," << e[1] << "," << e[2] << "," << al << "," << be << "," << ga; });
	auto phi = [=](LD x, LD y, LD z) { return e[0] * x + e[1] * y * y + e[2] * x * z + al * x * y * z + be * std::sin(x + y) + ga * z * z; }; VF g; g.f = [=](LD x, LD y, LD z) { LD cs = be * std::cos(x + y); return V3{e[0] + e[2] * z + al * y * z + cs, 2 * e[1] * y + al * x * z + cs, e[2] * x + al * x * y + 2 * ga * z}; }; LD ab = quad([&](LD t) { V3 p = cu.at(t), d = cu.der(t), v = g.f(p[0], p[1], p[2]); return std::fabs(v[0] * d[0] + v[1] * d[1] + v[2] * d[2]); }, a, b, 60); V3 A = cu.at(a), B = cu.at(b); LD ex = phi(B[0], B[1], B[2]) - phi(A[0], A[1], A[2]); DISCARD_IF(std::fabs(ex) < 0.05 * ab || ab < 1e-3);
	IntegrationResult r = PathIntegration::LineIntegral(g, cu, a, b); CHECK(r.converged, "line integral does not converge"); CHECK_NEAR(r.value, (double)ex, 1e-4 * (double)ab, "line integral of a gradient field"); CHECK_NEAR(PathIntegration::LineIntegral(g, cu, b, a).value, -(double)ex, 1e-4 * (double)ab, "reversed line integral"); Reparam q; q.c = &cu; q.a = a; q.b = b; q.k = (int)s.choice(2); CHECK_NEAR(PathIntegration::LineIntegral(g, q, 0, 1).value, (double)ex, 2e-4 * (double)ab, "line integral depends on the parametrisation");
	SF sf; double k0 = s.uni(0.5, 3), k1 = s.uni(0, 1); sf.f = [=](const VectorN<Real, 3>& v) { return k0 + k1 * (v[0] * v[0] + v[2] * v[2]) + 0.2 * std::sin(v[1]); }; LD S = quad([&](LD t) { V3 p = cu.at(t); return (k0 + k1 * (p[0] * p[0] + p[2] * p[2]) + 0.2L * std::sin(p[1])) * nrm(cu.der(t)); }, a, b); if (S > 1e-3) { IntegrationResult z = PathIntegration::LineIntegral(sf, cu, a, b); CHECK_NEAR(z.value, (double)S, 5e-4 * (double)S, "scalar line integral"); }
	// rotational field: circulation around a circle is curl times area (Stokes)
	Curve ci; ci.R = s.uni(0.3, 2); ci.w = 1; for (int d = 0; d < 3; d++) ci.p[d] = {s.real(-2, 2)}; VF rot; double o1 = s.nz(0.3, 2), mix = s.real(-1, 1); rot.f = [=](LD x, LD y, LD z) { return V3{-o1 * y + mix, o1 * x + mix * z, (LD)mix}; }; double pi = std::acos(-1.0), area = pi * ci.R * ci.R; CHECK_NEAR(PathIntegration::LineIntegral(rot, ci, 0, 2 * pi).value, 2 * o1 * area, 3e-4 * std::fabs(o1) * (area + ci.R * (std::fabs(ci.p[0][0]) + std::fabs(ci.p[1][0])) * 6) + 1e-6, "circulation around a circle");
}
// flux through parametric surfaces r(u,v) with polynomial components
struct Surf : IParametricSurfaceRect<3> { double k[3][6]; V3 at(LD u, LD v) const { V3 r; for (int d = 0; d < 3; d++) r[d] = k[d][0] + k[d][1] * u + k[d][2] * v + k[d][3] * u * v + k[d][4] * u * u + k[d][5] * v * v; return r; } V3 du(LD u, LD v) const { V3 r; for (int d = 0; d < 3; d++) r[d] = k[d][1] + k[d][3] * v + 2 * k[d][4] * u; return r; } V3 dv(LD u, LD v) const { V3 r; for (int d = 0; d < 3; d++) r[d] = k[d][2] + k[d][3] * u + 2 * k[d][5] * v; return r; } VectorN<Real, 3> operator()(Real u, Real w) const override { V3 r = at(u, w); return VectorN<Real, 3>{(double)r[0], (double)r[1], (double)r[2]}; } Real getMinU() const override { return 0; } Real getMaxU() const override { return 1; } Real getMinW() const override { return 0; } Real getMaxW() const override { return 1; } };
LAW(flux, 600, 5000) {
	Surf S; for (auto& row : S.k) for (double& t : row) t = s.chance(1, 3) ? 0 : s.real(-1, 1); S.k[0][1] += 2; S.k[1][2] += 2; double A[12]; for (double& t : A) t = s.real(-1, 1); VF F; F.f = [=](LD x, LD y, LD z) { return V3{A[0] + A[1] * x + A[2] * y + A[3] * z, A[4] + A[5] * x + A[6] * y + A[7] * z, A[8] + A[9] * x + A[10] * y + A[11] * z}; }; double x1 = s.uni(-1, 0.5), x2 = x1 + s.uni(0.1, 1), y1 = s.uni(-1, 0.5), y2 = y1 + s.uni(0.1, 1); int nu = (int)s.i(2, 25), nv = (int)s.i(2, 25); if (nv == nu) nv++; c.nontrivial(true); c.say([&](auto& o) { o << "surface " << str(std::vector<double>(&S.k[0][0], &S.k[0][0] + 18)) << " field " << str(std::vector<double>(A, A + 12)) << " u " << x1 << ".." << x2 << " v " << y1 << ".." << y2 << " grid " << nu << "x" << nv; });
	auto dens = [&](LD u, LD v) { V3 p = S.at(u, v), a = S.du(u, v), b = S.dv(u, v), f = F.f(p[0], p[1], p[2]); return f[0] * (a[1] * b[2] - a[2] * b[1]) + f[1] * (a[2] * b[0] - a[0] * b[2]) + f[2] * (a[0] * b[1] - a[1] * b[0]); }; LD ex = quad([&](LD u) { return quad([&](LD v) { return dens(u, v); }, y1, y2, 1); }, x1, x2, 1), mid = 0, ab = 0; for (int i = 0; i < nu; i++) for (int j = 0; j < nv; j++) { LD d = dens(x1 + ((LD)x2 - x1) * (i + 0.5L) / nu, y1 + ((LD)y2 - y1) * (j + 0.5L) / nv); mid += d; ab += std::fabs(d); } LD cell = ((LD)x2 - x1) * ((LD)y2 - y1) / nu / nv; mid *= cell; ab *= cell; IntegrationResult r = SurfaceIntegration::SurfaceIntegral(F, S, x1, x2, y1, y2, nu, nv); CHECK_NEAR(r.value, (double)ex, 1.5 * (double)std::fabs(mid - ex) + 1e-7 * (double)ab + 1e-9, "flux"); r = SurfaceIntegration::SurfaceIntegral(F, S, x1, x2, y1, y2); CHECK_NEAR(r.value, (double)ex, 5e-3 * (double)(ab + std::fabs(ex)) + 5e-3 * (x2 - x1) * (y2 - y1), "flux with the default grid");
}
struct Tri : BodyWithTriangleSurfaces {};
LAW(faces, 1500, 12000) {   // flat faces: exact for linear fields, independent of subdivision; closed bodies: divergence theorem
	double A[12]; for (double& t : A) t = s.real(-2, 2); double qd = s.chance(1, 2) ? 0 : s.real(-1, 1); VF F; F.f = [=](LD x, LD y, LD z) { return V3{A[0] + A[1] * x + A[2] * y + A[3] * z + qd * x * y, A[4] + A[5] * x + A[6] * y + A[7] * z + qd * y * y, A[8] + A[9] * x + A[10] * y + A[11] * z - qd * x * z}; }; auto divF = [=](LD x, LD y, LD z) { return A[1] + A[6] + A[11] + qd * (y + 2 * y - x); }; double scale = s.pick({1.0, 1.0, 10.0, 0.05}); auto P = [&]() { return Pnt3Cart(scale * s.real(-2, 2), scale * s.real(-2, 2), scale * s.real(-2, 2)); }; Pnt3Cart p = P(), q = P(), r = P(); double eps = std::pow(10.0, -s.uni(2, 5)); c.nontrivial(true); c.say([&](auto& o) { o << "field " << str(std::vector<double>(A, A + 12)) << " quadratic " << qd << " triangle " << p.X() << "," << p.Y() << "," << p.Z() << " " << q.X() << "," << q.Y() << "," << q.Z() << " " << r.X() << "," << r.Y() << "," << r.Z() << " eps " << eps; });
	V3 n{((LD)q.Y() - p.Y()) * (r.Z() - p.Z()) - ((LD)q.Z() - p.Z()) * (r.Y() - p.Y()), ((LD)q.Z() - p.Z()) * (r.X() - p.X()) - ((LD)q.X() - p.X()) * (r.Z() - p.Z()), ((LD)q.X() - p.X()) * (r.Y() - p.Y()) - ((LD)q.Y() - p.Y()) * (r.X() - p.X())}; LD area = nrm(n) / 2; double ext = std::max({p.Dist(q), q.Dist(r), r.Dist(p)}); DISCARD_IF(area < 0.02 * ext * ext); auto at = [&](LD a, LD b) { LD x = p.X() + a * (q.X() - p.X()) + b * (r.X() - p.X()), y = p.Y() + a * (q.Y() - p.Y()) + b * (r.Y() - p.Y()), z = p.Z() + a * (q.Z() - p.Z()) + b * (r.Z() - p.Z()); V3 f = F.f(x, y, z); return (f[0] * n[0] + f[1] * n[1] + f[2] * n[2]) / 2; }; LD ex = (at(0.5, 0) + at(0, 0.5) + at(0.5, 0.5)) / 3, mag = (std::fabs(at(0.5, 0)) + std::fabs(at(0, 0.5)) + std::fabs(at(0.5, 0.5))) + 1e-3 * area; for (double t : A) mag += std::fabs(t) * area * (1 + ext) * 0.1; Triangle3D T(p, q, r); IntegrationResult z = SurfaceIntegration::SurfaceIntegral(F, T, eps, 4); if (qd == 0) CHECK_NEAR(z.value, (double)ex, 1e-9 * (double)mag, "flux of a linear field through a triangle"); else CHECK_NEAR(z.value, (double)ex, 5e-2 * (double)mag + eps * 256 + std::fabs(qd) * ext * ext * (double)area * 0.02 + eps * 2, "flux through a triangle"); Triangle3D T2(p, r, q); CHECK_NEAR(SurfaceIntegration::SurfaceIntegral(F, T2, eps, 4).value, -z.value, 1e-9 * (double)mag, "flux through the reversed triangle");
	double side = s.uni(0.2, 3) * scale; Pnt3Cart ce(s.real(-2, 2) * scale, s.real(-2, 2) * scale, s.real(-2, 2) * scale); LD D = divF(ce.X(), ce.Y(), ce.Z()) * side * side * side, fm = 0; { V3 f = F.f(std::fabs(ce.X()) + side, std::fabs(ce.Y()) + side, std::fabs(ce.Z()) + side); (void)f; for (double t : A) fm += std::fabs(t); fm = (fm + std::fabs(qd) * 4 * (std::fabs(ce.X()) + std::fabs(ce.Y()) + std::fabs(ce.Z()) + side)) * (1 + std::fabs(ce.X()) + std::fabs(ce.Y()) + std::fabs(ce.Z()) + side) * side * side * 6; }
	if (qd == 0) { Cube3D cb(side, ce); CHECK_NEAR(SurfaceIntegration::SurfaceIntegral(F, cb, eps).value, (double)D, 1e-9 * (double)fm, "flux out of a cube is not the divergence times its volume"); CubeWithTriangles3D ct(side, ce); CHECK_NEAR(SurfaceIntegration::SurfaceIntegral(F, ct, eps).value, (double)D, 1e-9 * (double)fm, "flux out of a triangulated cube is not the divergence times its volume"); } else { double e2 = 1e-3 * std::fabs((double)fm); Cube3D cb(side, ce); CHECK_NEAR(SurfaceIntegration::SurfaceIntegral(F, cb, e2).value, (double)D, 0.3 * (double)fm * 0.1 + std::fabs(qd) * side * side * side * side, "flux out of a cube"); }
	// arbitrary tetrahedron, faces oriented outwards
	Pnt3Cart w = P(); Pnt3Cart v[4] = {p, q, r, w}; LD vol = 0; { LD a[3][3]; for (int i = 0; i < 3; i++) { a[i][0] = v[i + 1].X() - v[0].X(); a[i][1] = v[i + 1].Y() - v[0].Y(); a[i][2] = v[i + 1].Z() - v[0].Z(); } vol = (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])) / 6; } if (qd == 0 && std::fabs(vol) > 0.01 * ext * ext * ext) { if (vol < 0) std::swap(v[1], v[2]), vol = -vol; double tot = 0; int fc[4][3] = {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}}; for (auto& f : fc) tot += SurfaceIntegration::SurfaceIntegral(F, Triangle3D(v[f[0]], v[f[1]], v[f[2]]), eps, 3).value; LD m2 = 0; for (double t : A) m2 += std::fabs(t); m2 *= (1 + 2 * ext + std::fabs(p.X()) + std::fabs(p.Y()) + std::fabs(p.Z())) * 20 * (ext + w.Dist(p)) * (ext + w.Dist(p)); CHECK_NEAR(tot, (double)((A[1] + A[6] + A[11]) * vol), 1e-9 * (double)m2, "flux out of a tetrahedron is not the divergence times its volume"); }
}
