// C21 metric tensors, Christoffel symbols, covariant derivatives
#include "coord.h"
#include "base/Function.h"
#include "core/MetricTensor.h"
typedef VectorN<Real, 3> V3; typedef std::array<std::array<LD, 3>, 3> G3;
static const char* nm[] = {"Cartesian", "cylindrical", "spherical", "spherical from transformation", "cylindrical from transformation", "oblique from transformation"};
struct Sys { int k; J<3> A{};
	G3 g(const V3& q) const { G3 m{}; if (k == 0) m[0][0] = m[1][1] = m[2][2] = 1; else if (k == 1 || k == 4) m[0][0] = m[2][2] = 1, m[1][1] = (LD)q[0] * q[0]; else if (k == 2 || k == 3) { LD s = sinl(q[1]); m[0][0] = 1; m[1][1] = (LD)q[0] * q[0]; m[2][2] = m[1][1] * s * s; } else for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int l = 0; l < 3; l++) m[i][j] += A[l][i] * A[l][j]; return m; }
	LD dg(const V3& q, int i, int j, int l) const { if (i != j) return 0; if ((k == 1 || k == 4) && i == 1 && l == 0) return 2 * q[0]; if (k == 2 || k == 3) { LD s = sinl(q[1]), c = cosl(q[1]); if (i == 1 && l == 0) return 2 * q[0]; if (i == 2 && l == 0) return 2 * q[0] * s * s; if (i == 2 && l == 1) return 2 * (LD)q[0] * q[0] * s * c; } return 0; }
	LD G(const V3& q, int i, int j, int l) const { J<3> m = g(q); J<3> im = inv<3>(m); LD t = 0; for (int r = 0; r < 3; r++) t += im[i][r] * (dg(q, r, j, l) + dg(q, r, l, j) - dg(q, j, l, r)) / 2; return t; } };
static V3 point(Src& s, int k) { if (k == 0 || k == 5) return V3{s.uni(-3, 3), s.uni(-3, 3), s.uni(-3, 3)}; double r = s.pick({s.uni(0.3, 3), s.uni(0.05, 0.3), s.uni(3, 10), 1.0}), ph = s.pick({s.uni(-4, 7), 0.0, Constants::PI}); if (k == 1 || k == 4) return V3{r, ph, s.uni(-3, 3)}; return V3{r, s.pick({s.uni(0.2, 2.9), Constants::PI / 2, s.uni(0.05, 0.2)}), ph}; }
template <class F> static void with(Src& s, Sys& y, F f) { if (y.k == 0) f(MetricTensorCartesian3D()); else if (y.k == 1) f(MetricTensorCylindrical()); else if (y.k == 2) f(MetricTensorSpherical()); else if (y.k == 3) { CoordTransfSphericalToCartesian t; f(MetricTensorFromCoordTransf<Vector3Spherical, Vector3Cartesian, 3>(t)); } else if (y.k == 4) { CoordTransfCylindricalToCartesian t; f(MetricTensorFromCoordTransf<Vector3Cylindrical, Vector3Cartesian, 3>(t)); } else { // map x_from -> components in an oblique basis: jacobian A
		MatrixNM<Real, 3, 3> B; LD d; do { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) B(i, j) = s.uni(-1, 1) + (i == j ? 1.5 : 0); J<3> m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = B(i, j); d = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); } while (fabsl(d) < 0.3);
		Vec3Cart b1(B(0, 0), B(1, 0), B(2, 0)), b2(B(0, 1), B(1, 1), B(2, 1)), b3(B(0, 2), B(1, 2), B(2, 2)); CoordTransfCartesianToOblique3D t(b1, b2, b3); for (int j = 0; j < 3; j++) { V3 e{0, 0, 0}; e[j] = 1; auto w = t.transf(Vector3Cartesian(e)); for (int i = 0; i < 3; i++) y.A[i][j] = w[i]; } f(MetricTensorFromCoordTransf<Vector3Cartesian, Vector3Cartesian, 3>(t)); } }
static std::string vs(const V3& v) { return ps<3>({v[0], v[1], v[2]}); }
LAW(metric_components, 1500, 15000) {
	Sys y{s.i(0, 5)}; V3 q = point(s, y.k); c.label(nm[y.k]); c.say([&](auto& o) { o << nm[y.k] << " point " << vs(q); }); bool num = y.k > 2; V3 v{s.uni(-2, 2), s.uni(-2, 2), s.uni(-2, 2)};
	with(s, y, [&](auto&& g) { G3 E = y.g(q); J<3> I = inv<3>(E); LD sc = 0, si = 0; for (auto& r : E) for (LD t : r) sc = std::max(sc, fabsl(t)); for (auto& r : I) for (LD t : r) si = std::max(si, fabsl(t)); LD te = (num ? 1e-9L : 1e-13L) * std::max<LD>(sc, 1), ti = (num ? 1e-8L : 1e-12L) * si * std::max<LD>(1, sc * si); auto m = g.GetCovariantMetric(q); auto im = g.GetContravariantMetric(q); Tensor2<3> T = g(q); CHECK(T.NumCovar() == 2 && T.NumContravar() == 0, "metric tensor has " << T.NumCovar() << " covariant indices");
		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { NR(g.Component(i, j, q), E[i][j], te, "metric component " << i << j); NR(m(i, j), E[i][j], te, "covariant metric " << i << j); NR(T(i, j), E[i][j], te, "tensor component"); CHECK(m(i, j) == m(j, i), "metric not symmetric"); NR(im(i, j), I[i][j], ti, "contravariant metric " << i << j); LD t = 0; for (int k = 0; k < 3; k++) t += (LD)m(i, k) * im(k, j); NR((double)t, i == j, 1e-11L * sc * si, "metric times inverse"); }
		V3 lo = g.LowerIndex(v, q), up = g.RaiseIndex(v, q), b = g.RaiseIndex(lo, q); Tensor2<3> A(2, 0), C(0, 2); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A(i, j) = C(i, j) = s.i(-3, 3); int w = s.i(0, 1); Tensor2<3> ra = g.RaiseIndex(A, w, q), la = g.LowerIndex(C, w, q);
		for (int i = 0; i < 3; i++) { LD a = 0, d = 0; for (int j = 0; j < 3; j++) a += E[i][j] * v[j], d += I[i][j] * v[j]; NR(lo[i], a, te * 10, "lowered index"); NR(up[i], d, ti * 10, "raised index"); NR(b[i], v[i], (num ? 1e-8L : 1e-11L) * sc * si * 10, "raise after lower"); for (int j = 0; j < 3; j++) { LD r = 0, l = 0; for (int k = 0; k < 3; k++) { r += w == 0 ? I[i][k] * A(k, j) : I[j][k] * A(i, k); l += w == 0 ? E[i][k] * C(k, j) : E[j][k] * C(i, k); } NR(ra(i, j), r, ti * 40, "raised tensor index " << w); NR(la(i, j), l, te * 40, "lowered tensor index " << w); } } CHECK(ra.NumCovar() == 1 && ra.NumContravar() == 1 && la.NumCovar() == 1, "index counts after raising or lowering"); });
	if (y.k == 2) { MetricTensorSphericalContravar gc; J<3> I = inv<3>(y.g(q)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) NR(gc.Component(i, j, q), I[i][j], 1e-12L * fabsl(I[i][i]) + 1e-300L, "contravariant spherical component"); Tensor2<3> T = gc(q); CHECK(T.NumContravar() == 2 && T.NumCovar() == 0, "contravariant metric has wrong index counts"); V3 z = q; if (s.b()) z[0] = 0; else z[1] = s.pick({0.0, Constants::PI}); CHECK_THROWS(gc.Component(2, 2, z), DomainError, "singular point accepted"); }
	c.nontrivial(y.k != 0); }
LAW(christoffel_symbols, 600, 6000) {
	Sys y{s.i(0, 5)}; V3 q = point(s, y.k); c.label(nm[y.k]); c.say([&](auto& o) { o << nm[y.k] << " point " << vs(q); }); bool num = y.k > 2; with(s, y, [&](auto&& g) { G3 E = y.g(q); J<3> I = inv<3>(E); LD sc = 1, si = 1; for (auto& r : E) for (LD t : r) sc = std::max(sc, fabsl(t)); for (auto& r : I) for (LD t : r) si = std::max(si, fabsl(t)); LD tol = (num ? 3e-6L : 1e-8L) * sc * si; double G[3][3][3];
		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) { G[i][j][k] = g.GetChristoffelSymbolSecondKind(i, j, k, q); NR(G[i][j][k], y.G(q, i, j, k), tol, "Christoffel symbol of the second kind " << i << j << k); }
		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) { NR(G[i][j][k], G[i][k][j], 1e-9L * sc * si, "symmetry in the lower indices"); LD e = 0; for (int m = 0; m < 3; m++) e += E[k][m] * y.G(q, m, i, j); if (s.chance(1, 3)) NR(g.GetChristoffelSymbolFirstKind(i, j, k, q), e, tol * sc, "Christoffel symbol of the first kind " << i << j << k); }
		// metric compatibility with the computed symbols: d_l g_ij = G^m_il g_mj + G^m_jl g_im
		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int l = 0; l < 3; l++) { LD t = y.dg(q, i, j, l); for (int m = 0; m < 3; m++) t -= G[m][i][l] * E[m][j] + G[m][j][l] * E[i][m]; NR((double)t, 0, tol * sc * 4, "covariant derivative of the metric " << i << j << l); } });
	c.nontrivial(y.k != 0 && y.k != 5); }
LAW(covariant_derivatives, 300, 3000) { // constant and linear Cartesian fields have known covariant derivatives in every system
	Sys y{s.i(0, 4)}; V3 q = point(s, y.k); bool num = y.k > 2, sph = y.k == 2 || y.k == 3, cart = y.k == 0; c.label(nm[y.k]); double L[3][3], b[3]; bool con = s.chance(1, 3); for (int i = 0; i < 3; i++) { b[i] = s.uni(-2, 2); for (int j = 0; j < 3; j++) L[i][j] = con ? 0 : s.uni(-1, 1); } c.say([&](auto& o) { o << nm[y.k] << " point " << vs(q) << (con ? " constant field" : " linear field"); });
	auto pos = [&](const V3& u) -> P<3> { if (cart) return {u[0], u[1], u[2]}; if (sph) return {u[0] * std::sin(u[1]) * std::cos(u[2]), u[0] * std::sin(u[1]) * std::sin(u[2]), u[0] * std::cos(u[1])}; return {u[0] * std::cos(u[1]), u[0] * std::sin(u[1]), u[2]}; };
	auto jac = [&](const V3& u) { J<3> m{}; if (cart) { m[0][0] = m[1][1] = m[2][2] = 1; return m; } if (sph) { LD st = sinl(u[1]), ct = cosl(u[1]), sp = sinl(u[2]), cp = cosl(u[2]), r = u[0]; m[0] = {st * cp, r * ct * cp, -r * st * sp}; m[1] = {st * sp, r * ct * sp, r * st * cp}; m[2] = {ct, -r * st, 0}; return m; } LD sp = sinl(u[1]), cp = cosl(u[1]), r = u[0]; m[0] = {cp, -r * sp, 0}; m[1] = {sp, r * cp, 0}; m[2] = {0, 0, 1}; return m; };
	auto val = [&](const V3& u, int i) { P<3> x = pos(u); LD t = b[i]; for (int j = 0; j < 3; j++) t += L[i][j] * x[j]; return t; }; VectorFunctionFromStdFunc<3> up([&](const V3& u) { J<3> K = inv<3>(jac(u)); V3 r; for (int i = 0; i < 3; i++) { LD t = 0; for (int j = 0; j < 3; j++) t += K[i][j] * val(u, j); r[i] = (Real)t; } return r; }), lo([&](const V3& u) { J<3> A = jac(u); V3 r; for (int i = 0; i < 3; i++) { LD t = 0; for (int j = 0; j < 3; j++) t += A[j][i] * val(u, j); r[i] = (Real)t; } return r; });
	J<3> A = jac(q), K = inv<3>(A); LD sA = 1, sK = 1; for (auto& r : A) for (LD t : r) sA = std::max(sA, fabsl(t)); for (auto& r : K) for (LD t : r) sK = std::max(sK, fabsl(t)); P<3> x = pos(q); LD M = 8 + std::fabs(x[0]) + std::fabs(x[1]) + std::fabs(x[2]), tol = (num ? 1e-5L : 3e-8L) * M * sA * sA * sK * sK * sK;
	with(s, y, [&](auto&& g) { int j = s.i(0, 2); V3 cu = g.CovariantDerivativeContravar(up, j, q), cl = g.CovariantDerivativeCovar(lo, j, q); for (int i = 0; i < 3; i++) { LD eu = 0, el = 0; for (int a = 0; a < 3; a++) for (int d = 0; d < 3; d++) eu += K[i][a] * L[a][d] * A[d][j], el += A[a][i] * L[a][d] * A[d][j]; NR(cu[i], eu, tol, "covariant derivative of contravariant components, " << i << ";" << j); NR(cl[i], el, tol * sA, "covariant derivative of covariant components, " << i << ";" << j); if (s.chance(1, 3)) { NR(g.CovariantDerivativeContravarComp(up, i, j, q), cu[i], 1e-12L * M * sA * sK, "component form (contravariant)"); NR(g.CovariantDerivativeCovarComp(lo, i, j, q), cl[i], 1e-12L * M * sA * sA * sK, "component form (covariant)"); } } }); c.nontrivial(!cart); }
LAW(minkowski, 300, 3000) { MetricTensorMinkowski g; VectorN<Real, 4> x, v, w; for (int i = 0; i < 4; i++) x[i] = s.uni(-5, 5), v[i] = s.uni(-2, 2), w[i] = s.uni(-2, 2); c.say([&](auto& o) { o << "Minkowski metric"; }); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { double e = i != j ? 0 : i ? 1 : -1; CHECK(g.Component(i, j, x) == e && g.GetCovariantMetric(x)(i, j) == e && std::fabs(g.GetContravariantMetric(x)(i, j) - e) < 1e-15, "Minkowski component " << i << j); } auto lo = g.LowerIndex(v, x), up = g.RaiseIndex(lo, x); CHECK(lo[0] == -v[0] && lo[1] == v[1] && lo[2] == v[2] && lo[3] == v[3] && up[0] == v[0], "raising and lowering"); int i = s.i(0, 3), j = s.i(0, 3), k = s.i(0, 3); CHECK(std::fabs(g.GetChristoffelSymbolSecondKind(i, j, k, x)) < 1e-12, "flat space-time has zero Christoffel symbols"); c.nontrivial(true); }
