// C20 differential field operators: exact Cartesian polynomials expressed in every coordinate system
#include "coord.h"
#include "base/Function.h"
#include "core/MetricTensor.h"
#include "core/FieldOperations.h"
#include "core/Fields.h"
struct Mono { int e[3]; double c; };
struct Poly { std::vector<Mono> m;
	LD d(const P<3>& x, int a = 0, int b = 0, int g = 0) const { LD t = 0; int D[3] = {a, b, g}; for (auto& q : m) { LD v = q.c; for (int k = 0; k < 3; k++) { int e = q.e[k]; for (int r = 0; r < D[k]; r++) v *= e--; if (e < 0) { v = 0; break; } for (int r = 0; r < e; r++) v *= x[k]; } t += v; } return t; }
	LD di(const P<3>& x, int i) const { return d(x, i == 0, i == 1, i == 2); } LD dij(const P<3>& x, int i, int j) const { return d(x, (i == 0) + (j == 0), (i == 1) + (j == 1), (i == 2) + (j == 2)); }
	double size(double R) const { double t = 0; for (auto& q : m) t += std::fabs(q.c) * std::pow(R, q.e[0] + q.e[1] + q.e[2]); return t; }
	std::string str() const { std::string o; for (auto& q : m) { o += fmt(q.c) + "*x^" + std::to_string(q.e[0]) + "y^" + std::to_string(q.e[1]) + "z^" + std::to_string(q.e[2]) + " + "; } return o; } };
static Poly gp(Src& s) { Poly p; int n = s.i(1, 4); for (int i = 0; i < n; i++) { Mono q; int left = 3; for (int& e : q.e) { e = s.i(0, left); left -= e; } q.c = s.pick({(double)s.i(-3, 3), s.uni(-2, 2), 1.0}); p.m.push_back(q); } return p; }
typedef VectorN<Real, 3> V3; typedef P<3> Q;
struct Sys { int k; // 0 cart 1 cyl 2 spher
	Q cart(const V3& q) const { if (k == 0) return {q[0], q[1], q[2]}; if (k == 1) return {q[0] * std::cos(q[1]), q[0] * std::sin(q[1]), q[2]}; return {q[0] * std::sin(q[1]) * std::cos(q[2]), q[0] * std::sin(q[1]) * std::sin(q[2]), q[0] * std::cos(q[1])}; }
	std::array<std::array<LD, 3>, 3> basis(const V3& q) const { std::array<std::array<LD, 3>, 3> e{}; if (k == 0) { e[0][0] = e[1][1] = e[2][2] = 1; return e; } if (k == 1) { LD c = cosl(q[1]), s = sinl(q[1]); e[0] = {c, s, 0}; e[1] = {-s, c, 0}; e[2] = {0, 0, 1}; return e; } LD ct = cosl(q[1]), st = sinl(q[1]), cp = cosl(q[2]), sp = sinl(q[2]); e[0] = {st * cp, st * sp, ct}; e[1] = {ct * cp, ct * sp, -st}; e[2] = {-sp, cp, 0}; return e; }
	LD h(const V3& q, int i) const { if (k == 1) return i == 1 ? q[0] : 1; if (k == 2) return i == 0 ? 1 : i == 1 ? q[0] : q[0] * sinl(q[1]); return 1; } };
static V3 point(Src& s, int k) { if (k == 0) return V3{s.uni(-3, 3), s.uni(-3, 3), s.uni(-3, 3)}; double r = s.pick({s.uni(0.3, 3), s.uni(0.05, 0.3), 1.0}), phi = s.pick({s.uni(-4, 7), 0.0, Constants::PI / 2, Constants::PI}); if (k == 1) return V3{r, phi, s.uni(-3, 3)}; double th = s.pick({s.uni(0.2, 2.9), Constants::PI / 2, s.uni(0.05, 0.2), Constants::PI - s.uni(0.05, 0.2)}); return V3{r, th, phi}; }
static std::string vs(const V3& v) { return ps<3>({v[0], v[1], v[2]}); }
static const char* nm[] = {"Cartesian", "cylindrical", "spherical"};
LAW(gradient_and_laplacian, 1500, 15000) {
	Poly p = gp(s); Sys y{s.i(0, 2)}; V3 q = point(s, y.k); c.label(nm[y.k]); c.say([&](auto& o) { o << nm[y.k] << " point " << vs(q) << " field " << p.str(); }); auto f = ScalarFunctionFromStdFunc<3>([&](const V3& u) { return (Real)p.d(y.cart(u)); }); Q x = y.cart(q); auto e = y.basis(q); double M = p.size(4.5) + 1e-6;
	LD mh = 1; for (int i = 0; i < 3; i++) mh = std::min(mh, y.h(q, i)); static const int ords[] = {0, 1, 2, 4, 6, 8}; static const double to[] = {1e-9, 3e-5, 3e-7, 1e-9, 1e-8, 1e-7}; int oi = s.i(0, 5), od = ords[oi]; FieldOperationConfig cfg; cfg.derivative_order = od; cfg.estimate_error = s.b(); V3 g, gd; Vec3Sph qs(q[0], q[1], q[2]); Vec3Cyl qc(q[0], q[1], q[2]);
	if (y.k == 0) { g = od ? ScalarFieldOperations::GradientCart<3>(f, q, od) : ScalarFieldOperations::GradientCart<3>(f, q); auto r = ScalarFieldOperations::GradientCartDetailed<3>(f, q, cfg); CHECK(r.IsSuccess(), "GradientCartDetailed failed"); gd = r.value; }
	else if (y.k == 1) { g = od ? V3(ScalarFieldOperations::GradientCyl(f, qc, od)) : V3(ScalarFieldOperations::GradientCyl(f, qc)); auto r = ScalarFieldOperations::GradientCylDetailed(f, qc, cfg); CHECK(r.IsSuccess(), "GradientCylDetailed failed"); gd = r.value; }
	else { g = od ? V3(ScalarFieldOperations::GradientSpher(f, qs, od)) : V3(ScalarFieldOperations::GradientSpher(f, qs)); auto r = ScalarFieldOperations::GradientSpherDetailed(f, qs, cfg); CHECK(r.IsSuccess(), "GradientSpherDetailed failed"); gd = r.value; }
	for (int i = 0; i < 3; i++) { LD ex = 0; for (int j = 0; j < 3; j++) ex += e[i][j] * p.di(x, j); NR(g[i], ex, to[oi] * M * 40 / mh, "gradient component " << i << " (order " << od << ")"); CHECK(std::fabs(g[i] - gd[i]) <= 1e-12 * (std::fabs(g[i]) + M) / (double)mh, "detailed gradient component " << i << " is " << fmt(gd[i]) << " not " << fmt(g[i])); }
	LD lap = 0; for (int j = 0; j < 3; j++) lap += p.dij(x, j, j); Real l, ld; if (y.k == 0) { l = ScalarFieldOperations::LaplacianCart<3>(f, q); auto r = ScalarFieldOperations::LaplacianCartDetailed<3>(f, q, {}); CHECK(r.IsSuccess(), "detailed failed"); ld = r.value; } else if (y.k == 1) { l = ScalarFieldOperations::LaplacianCyl(f, qc); auto r = ScalarFieldOperations::LaplacianCylDetailed(f, qc); CHECK(r.IsSuccess(), "detailed failed"); ld = r.value; } else { l = ScalarFieldOperations::LaplacianSpher(f, qs); auto r = ScalarFieldOperations::LaplacianSpherDetailed(f, qs); CHECK(r.IsSuccess(), "detailed failed"); ld = r.value; }
	NR(l, lap, 2e-6 * M / (mh * mh), "Laplacian"); CHECK(l == ld, "LaplacianDetailed differs");
	// the metric-based gradient has contravariant components
	V3 gm; if (y.k == 0) gm = ScalarFieldOperations::Gradient<3>(f, q, MetricTensorCartesian3D()); else if (y.k == 1) gm = ScalarFieldOperations::Gradient<3>(f, q, MetricTensorCylindrical()); else gm = ScalarFieldOperations::Gradient<3>(f, q, MetricTensorSpherical());
	for (int i = 0; i < 3; i++) { LD ex = 0; for (int j = 0; j < 3; j++) ex += e[i][j] * p.di(x, j); NR(gm[i], ex / y.h(q, i), 1e-8 * M / (mh * mh), "metric gradient component " << i); }
	int bad = s.pick({3, 5, 7, 9, -1, 10}); CHECK_THROWS(ScalarFieldOperations::GradientCart<3>(f, q, bad), std::invalid_argument, "order " << bad << " accepted"); cfg.derivative_order = bad; cfg.exception_policy = EvaluationExceptionPolicy::Propagate; CHECK_THROWS(ScalarFieldOperations::GradientCartDetailed<3>(f, q, cfg), std::invalid_argument, "detailed order accepted"); cfg.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; CHECK(!ScalarFieldOperations::GradientCartDetailed<3>(f, q, cfg).IsSuccess(), "bad order reported as success");
	c.nontrivial(p.m.size() > 1 || p.m[0].e[0] + p.m[0].e[1] + p.m[0].e[2] > 1); }
LAW(divergence_and_curl, 1500, 15000) {
	Poly v[3] = {gp(s), gp(s), gp(s)}; Sys y{s.i(0, 2)}; V3 q = point(s, y.k); c.label(nm[y.k]); c.say([&](auto& o) { o << nm[y.k] << " point " << vs(q) << " field (" << v[0].str() << ", " << v[1].str() << ", " << v[2].str() << ")"; }); double M = 1e-6; for (auto& p : v) M += p.size(4.5); Q x = y.cart(q); auto e = y.basis(q); LD mh = 1; for (int i = 0; i < 3; i++) mh = std::min(mh, y.h(q, i));
	auto phys = [&](const V3& u) { Q z = y.cart(u); auto b = y.basis(u); V3 r; LD w[3]; for (int j = 0; j < 3; j++) w[j] = v[j].d(z); for (int i = 0; i < 3; i++) r[i] = (Real)(b[i][0] * w[0] + b[i][1] * w[1] + b[i][2] * w[2]); return r; };
	VectorFunctionFromStdFunc<3> F(phys); LD dv = 0, cu[3]; for (int j = 0; j < 3; j++) { dv += v[j].di(x, j); cu[j] = v[(j + 2) % 3].di(x, (j + 1) % 3) - v[(j + 1) % 3].di(x, (j + 2) % 3); }
	Real d, dd; V3 k, kd; if (y.k == 0) { d = VectorFieldOperations::DivCart<3>(F, q); auto r = VectorFieldOperations::DivCartDetailed<3>(F, q, {}); CHECK(r.IsSuccess(), "detailed failed"); dd = r.value; k = VectorFieldOperations::CurlCart(F, q); FieldOperationConfig FC; FC.estimate_error = true; auto w = VectorFieldOperations::CurlCartDetailed(F, q, FC); CHECK(w.IsSuccess(), "detailed failed"); kd = w.value; Real pe[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { pe[i][j] = 0; Derivation::DeriveVecPartial<3>(F, i, j, q, &pe[i][j]); } for (int j = 0; j < 3; j++) { double we = std::fabs(pe[(j + 2) % 3][(j + 1) % 3]) + std::fabs(pe[(j + 1) % 3][(j + 2) % 3]); CHECK(std::fabs(w.error[j] - we) <= 1e-12 * (we + 1e-300) + 1e-300, "curl error component " << j << " is " << w.error[j] << ", its two partial derivatives give " << we); } } else if (y.k == 1) { d = VectorFieldOperations::DivCyl(F, q); auto r = VectorFieldOperations::DivCylDetailed(F, q); CHECK(r.IsSuccess(), "detailed failed"); dd = r.value; k = VectorFieldOperations::CurlCyl(F, q); auto w = VectorFieldOperations::CurlCylDetailed(F, q); CHECK(w.IsSuccess(), "detailed failed"); kd = w.value; } else { d = VectorFieldOperations::DivSpher(F, q); auto r = VectorFieldOperations::DivSpherDetailed(F, q); CHECK(r.IsSuccess(), "detailed failed"); dd = r.value; k = VectorFieldOperations::CurlSpher(F, q); auto w = VectorFieldOperations::CurlSpherDetailed(F, q); CHECK(w.IsSuccess(), "detailed failed"); kd = w.value; }
	NR(d, dv, 3e-8 * M / mh, "divergence"); CHECK(std::fabs(d - dd) <= 1e-13 * M / (double)mh, "DivDetailed differs"); for (int i = 0; i < 3; i++) { LD ex = e[i][0] * cu[0] + e[i][1] * cu[1] + e[i][2] * cu[2]; NR(k[i], ex, 3e-8 * M / mh, "curl component " << i); CHECK(std::fabs(k[i] - kd[i]) <= 1e-13 * M / (double)mh, "CurlDetailed component " << i << " differs"); }
	// holonomic components against the metric-based divergences
	VectorFunctionFromStdFunc<3> H([&](const V3& u) { V3 r = phys(u); for (int i = 0; i < 3; i++) r[i] = (Real)(r[i] / y.h(u, i)); return r; }); Real d1, d2; auto go = [&](const MetricTensorField<3>& g) { d1 = VectorFieldOperations::Divergence<3>(H, q, g); d2 = VectorFieldOperations::DivergenceViaDet<3>(H, q, g); }; if (y.k == 0) go(MetricTensorCartesian3D()); else if (y.k == 1) go(MetricTensorCylindrical()); else go(MetricTensorSpherical());
	NR(d1, dv, 1e-6 * M / (mh * mh), "metric divergence"); NR(d2, dv, 1e-6 * M / (mh * mh), "divergence via the metric determinant"); c.nontrivial(dv != 0 || cu[0] != 0); }
LAW(identities, 400, 4000) { // curl grad = 0, div curl = 0, div grad = Laplacian, with the library's operators composed
	Poly p = gp(s), v[3] = {gp(s), gp(s), gp(s)}; Sys y{s.i(0, 2)}; V3 q = point(s, y.k); if (y.k == 2) q[0] += 0.2, q[1] = std::min(std::max((double)q[1], 0.3), 2.8); if (y.k == 1) q[0] += 0.2; c.say([&](auto& o) { o << nm[y.k] << " point " << vs(q) << " potential " << p.str() << " field (" << v[0].str() << ", " << v[1].str() << ", " << v[2].str() << ")"; }); double M = p.size(5) + 1e-6; for (auto& z : v) M += z.size(5); LD mh = 1; for (int i = 0; i < 3; i++) mh = std::min(mh, y.h(q, i)); double tol = (double)(1e-6 * M / (mh * mh));
	auto f = ScalarFunctionFromStdFunc<3>([&](const V3& u) { return (Real)p.d(y.cart(u)); }); VectorFunctionFromStdFunc<3> F([&](const V3& u) { Q z = y.cart(u); auto b = y.basis(u); V3 r; LD w[3]; for (int j = 0; j < 3; j++) w[j] = v[j].d(z); for (int i = 0; i < 3; i++) r[i] = (Real)(b[i][0] * w[0] + b[i][1] * w[1] + b[i][2] * w[2]); return r; });
	VectorFunctionFromStdFunc<3> G([&](const V3& u) { return y.k == 0 ? ScalarFieldOperations::GradientCart<3>(f, u) : y.k == 1 ? V3(ScalarFieldOperations::GradientCyl(f, Vec3Cyl(u[0], u[1], u[2]))) : V3(ScalarFieldOperations::GradientSpher(f, Vec3Sph(u[0], u[1], u[2]))); }); VectorFunctionFromStdFunc<3> C([&](const V3& u) { return y.k == 0 ? V3(VectorFieldOperations::CurlCart(F, u)) : y.k == 1 ? V3(VectorFieldOperations::CurlCyl(F, u)) : V3(VectorFieldOperations::CurlSpher(F, u)); });
	auto curl = [&](auto& W) { return y.k == 0 ? V3(VectorFieldOperations::CurlCart(W, q)) : y.k == 1 ? V3(VectorFieldOperations::CurlCyl(W, q)) : V3(VectorFieldOperations::CurlSpher(W, q)); }; auto dv = [&](auto& W) { return y.k == 0 ? VectorFieldOperations::DivCart<3>(W, q) : y.k == 1 ? VectorFieldOperations::DivCyl(W, q) : VectorFieldOperations::DivSpher(W, q); };
	V3 cg = curl(G); for (int i = 0; i < 3; i++) CHECK(std::fabs(cg[i]) <= tol, "curl of the gradient, component " << i << ": " << fmt(cg[i]) << " tol " << tol); Real dc = dv(C); CHECK(std::fabs(dc) <= tol, "divergence of the curl: " << fmt(dc) << " tol " << tol); Real dg = dv(G), la = y.k == 0 ? ScalarFieldOperations::LaplacianCart<3>(f, q) : y.k == 1 ? ScalarFieldOperations::LaplacianCyl(f, Vec3Cyl(q[0], q[1], q[2])) : ScalarFieldOperations::LaplacianSpher(f, Vec3Sph(q[0], q[1], q[2])); CHECK(std::fabs(dg - la) <= 4 * tol, "div grad " << fmt(dg) << " Laplacian " << fmt(la)); c.nontrivial(true); }
LAW(singular_points, 500, 4000) {
	Poly p = gp(s); int k = s.i(1, 2); bool org = k == 1 || s.b(); double z = s.pick({0.0, 1e-15, 1e-300}); V3 q = k == 1 ? V3{z, s.uni(-3, 3), s.uni(-2, 2)} : org ? V3{z, s.uni(0.2, 2.9), s.uni(-3, 3)} : V3{s.uni(0.3, 2), s.pick({0.0, Constants::PI, 1e-15}), s.uni(-3, 3)}; c.say([&](auto& o) { o << nm[k] << " singular point " << vs(q); }); Sys y{k}; auto f = ScalarFunctionFromStdFunc<3>([&](const V3& u) { return (Real)p.d(y.cart(u)); }); VectorFunctionFromStdFunc<3> F([&](const V3& u) { double t = p.d(y.cart(u)); return V3{t, t, t}; }); Vec3Sph qs(q[0], q[1], q[2]); Vec3Cyl qc(q[0], q[1], q[2]); FieldOperationConfig cfg; cfg.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; auto Z = SingularityPolicy::ReturnZero;
	if (k == 1) { CHECK_THROWS(ScalarFieldOperations::GradientCyl(f, qc), DomainError, "gradient on the axis"); CHECK_THROWS(ScalarFieldOperations::GradientCyl(f, qc, 4), DomainError, "gradient on the axis"); CHECK_THROWS(ScalarFieldOperations::LaplacianCyl(f, qc), DomainError, "Laplacian on the axis"); CHECK_THROWS(VectorFieldOperations::DivCyl(F, q), DomainError, "divergence on the axis"); CHECK_THROWS(VectorFieldOperations::CurlCyl(F, q), DomainError, "curl on the axis"); CHECK(!ScalarFieldOperations::GradientCylDetailed(f, qc, cfg).IsSuccess() && !ScalarFieldOperations::LaplacianCylDetailed(f, qc, cfg).IsSuccess() && !VectorFieldOperations::DivCylDetailed(F, q, cfg).IsSuccess() && !VectorFieldOperations::CurlCylDetailed(F, q, cfg).IsSuccess(), "detailed variant reports success on the axis"); V3 g = ScalarFieldOperations::GradientCyl(f, qc, Z); CHECK(g[1] == 0, "ReturnZero policy"); V3 n = ScalarFieldOperations::GradientCyl(f, qc, SingularityPolicy::ReturnNaN); CHECK(std::isnan(n[1]), "ReturnNaN policy"); CHECK(std::isfinite(ScalarFieldOperations::LaplacianCyl(f, qc, Z)) && std::isfinite(VectorFieldOperations::DivCyl(F, q, Z)), "ReturnZero policy"); }
	else { CHECK_THROWS(ScalarFieldOperations::GradientSpher(f, qs), DomainError, "gradient at the singular point"); CHECK_THROWS(ScalarFieldOperations::GradientSpher(f, qs, 2), DomainError, "gradient"); CHECK_THROWS(ScalarFieldOperations::LaplacianSpher(f, qs), DomainError, "Laplacian"); CHECK_THROWS(VectorFieldOperations::DivSpher(F, q), DomainError, "divergence"); CHECK_THROWS(VectorFieldOperations::CurlSpher(F, q), DomainError, "curl"); CHECK(!ScalarFieldOperations::GradientSpherDetailed(f, qs, cfg).IsSuccess() && !ScalarFieldOperations::LaplacianSpherDetailed(f, qs, cfg).IsSuccess() && !VectorFieldOperations::DivSpherDetailed(F, q, cfg).IsSuccess() && !VectorFieldOperations::CurlSpherDetailed(F, q, cfg).IsSuccess(), "detailed variant reports success at a singular point"); V3 g = ScalarFieldOperations::GradientSpher(f, qs, Z); CHECK(g[2] == 0, "ReturnZero policy"); V3 n = ScalarFieldOperations::GradientSpher(f, qs, SingularityPolicy::ReturnNaN); CHECK(std::isnan(n[2]), "ReturnNaN policy"); CHECK(std::isfinite(ScalarFieldOperations::LaplacianSpher(f, qs, Z)) && std::isfinite(VectorFieldOperations::DivSpher(F, q, Z)), "ReturnZero policy"); }
	c.nontrivial(true); }
LAW(predefined_fields, 800, 8000) {
	V3 x{s.uni(-3, 3), s.uni(-3, 3), s.uni(-3, 3)}; double k = s.pick({s.uni(-3, 3), 1.0, -1.0}); V3 m{s.uni(-2, 2), s.uni(-2, 2), s.uni(-2, 2)}, ctr{s.uni(-1, 1), s.uni(-1, 1), s.uni(-1, 1)}; auto n2 = [](const V3& a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }; auto dot = [](const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }; auto cross = [](const V3& a, const V3& b) { return V3{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }; DISCARD_IF(n2(m) < 0.2); V3 r = x - ctr, u = m / n2(m); V3 perp = x - ctr - u * dot(x - ctr, u); DISCARD_IF(n2(x) < 0.3 || n2(r) < 0.3 || n2(perp) < 0.2 || std::hypot(x[0], x[1]) < 0.2); c.say([&](auto& o) { o << "constant " << fmt(k) << " vector " << vs(m) << " centre " << vs(ctr) << " point " << vs(x); });
	auto eq = [&](const V3& a, const V3& b, const char* w, double tol = 1e-11) { double sc = n2(b) + 1e-3; for (int i = 0; i < 3; i++) CHECK(std::fabs(a[i] - b[i]) <= tol * sc * 100, w << " component " << i << ": " << fmt(a[i]) << " expected " << fmt(b[i])); }; double R = n2(x), rho = std::hypot(x[0], x[1]), th = std::acos(x[2] / R), ph = std::atan2(x[1], x[0]);
	// inverse radial potential is one function in three coordinate systems
	CHECK_NEAR(Fields::InverseRadialPotentialFieldCart(k, x), k / R, 1e-12 * std::fabs(k) / R + 1e-300, "potential"); CHECK_NEAR(Fields::InverseRadialPotentialFieldSpher(k, V3{R, th, ph}), k / R, 1e-12, "potential, spherical"); CHECK_NEAR(Fields::InverseRadialPotentialFieldCyl(k, V3{rho, ph, x[2]}), k / R, 1e-12 * (1 + std::fabs(k) / R), "potential, cylindrical"); CHECK_NEAR(Fields::InverseRadialPotentialFieldCart(x), 1 / R, 1e-12 / R, "unit potential"); CHECK_NEAR(Fields::InverseRadialPotentialFieldSpher(V3{R, th, ph}), 1 / R, 1e-12 / R, "unit potential, spherical"); CHECK_NEAR(Fields::InverseRadialPotentialFieldCyl(V3{rho, ph, x[2]}), 1 / R, 1e-12 / R, "unit potential, cylindrical");
	V3 g = x * (-k / (R * R * R)); eq(Fields::InverseRadialPotentialForceFieldCart(k, x), g, "inverse radial force"); eq(Fields::InverseRadialPotentialForceFieldCart(x), x * (-1 / (R * R * R)), "unit inverse radial force"); V3 gs = Fields::InverseRadialPotentialForceFieldSph(k, V3{R, th, ph}); eq(gs, V3{-k / R / R, 0, 0}, "spherical force"); eq(Fields::InverseRadialPotentialForceFieldSph(V3{R, th, ph}), V3{-1 / R / R, 0, 0}, "unit spherical force"); CHECK_NEAR(Fields::InverseRadialFieldCart(k)(x), k / R, 1e-12 * (1 + std::fabs(k) / R), "field class"); CHECK_NEAR(Fields::InverseRadialFieldSpher(k)(V3{R, th, ph}), k / R, 1e-12 * (1 + std::fabs(k) / R), "field class"); Fields::InverseRadialFieldCart pf(k); V3 num = ScalarFieldOperations::GradientCart<3>(pf, x); eq(Fields::InverseRadialForceFieldCart(k)(x), num, "force class against the numerical gradient of the potential", 1e-9); eq(Fields::InverseRadialForceFieldSpher(k)(V3{R, th, ph}), V3{-k / R / R, 0, 0}, "force class, spherical");
	eq(Fields::InfiniteLineCurrentField(k)(x), V3{-k * x[1] / (rho * rho), k * x[0] / (rho * rho), 0}, "line current"); Line3D ln(Pnt3Cart(ctr[0], ctr[1], ctr[2]), Vec3Cart(m[0], m[1], m[2])); eq(Fields::InfiniteLineCurrentFieldGeneral(ln, k)(x), cross(u, perp) * (k / dot(perp, perp)), "general line current"); V3 xp = x - u * dot(x, u); if (n2(xp) > 0.2) eq(Fields::PotentialVortexField(k, m)(x), cross(u, xp) * (k / dot(xp, xp)), "potential vortex"); eq(Fields::PotentialVortexField(k)(x), V3{-k * x[1] / (rho * rho), k * x[0] / (rho * rho), 0}, "potential vortex about z");
	eq(Fields::InfinitePlaneCurrentField(k, m)(x), m * (x[2] >= 0 ? k : -k), "plane current"); eq(Fields::VortexField(m)(x), cross(m, x), "vortex"); eq(Fields::VortexField(k)(x), V3{-k * x[1], k * x[0], 0}, "vortex about z"); eq(Fields::SaddleField(k)(x), V3{k * x[0], -k * x[1], 0}, "saddle"); double rn = n2(r); eq(Fields::SourceSinkField(k, ctr)(x), r * (k / (rn * rn * rn)), "source"); eq(Fields::DipoleField(m, ctr)(x), (r * (3 * dot(m, r)) - m * (rn * rn)) / std::pow(rn, 5), "dipole"); double sg = s.uni(0.5, 2); CHECK_NEAR(Fields::GaussianBumpField(k, sg, ctr)(x), k * std::exp(-rn * rn / (sg * sg)), 1e-12, "Gaussian bump"); CHECK_NEAR(Fields::MexicanHatField(k, sg, ctr)(x), k * (1 - rn * rn / (sg * sg)) * std::exp(-rn * rn / (2 * sg * sg)), 1e-12 * (1 + rn * rn / sg / sg) * 3, "Mexican hat");
	// analytic structure away from sources
	auto dv = [&](const IVectorFunction<3>& F) { return VectorFieldOperations::DivCart<3>(F, x); }; auto cu = [&](const IVectorFunction<3>& F) { return n2(VectorFieldOperations::CurlCart(F, x)); }; double T = 1e-6 * (1 + std::fabs(k)) * std::pow(1 / std::min({R, rn, rho, n2(perp), 1.0}), 6); CHECK(std::fabs(dv(Fields::InverseRadialForceFieldCart(k))) < T && cu(Fields::InverseRadialForceFieldCart(k)) < T, "inverse square force is not source- and curl-free"); CHECK(std::fabs(dv(Fields::DipoleField(m, ctr))) < T * 20 && cu(Fields::DipoleField(m, ctr)) < T * 20, "dipole field is not source- and curl-free"); CHECK(std::fabs(dv(Fields::InfiniteLineCurrentFieldGeneral(ln, k))) < T && cu(Fields::InfiniteLineCurrentFieldGeneral(ln, k)) < T, "line current"); V3 w = VectorFieldOperations::CurlCart(Fields::VortexField(m), x); eq(w, m * 2.0, "vorticity", 1e-9);
	V3 z{0, 0, 0}; CHECK(n2(Fields::SourceSinkField(k, ctr)(ctr)) == 0 && n2(Fields::DipoleField(m, ctr)(ctr)) == 0 && n2(Fields::InfiniteLineCurrentField(k)(V3{0, 0, x[2]})) == 0 && n2(Fields::PotentialVortexField(k, m)(z)) == 0, "value at the singular point"); c.nontrivial(k != 0); }
