// C19 Lorentz transformations
#include "coord.h"
#include "core/CoordTransf/CoordTransfLorentz.h"
typedef Vector4Minkowski M4;
static J<4> boost(LD b) { LD g = 1 / sqrtl((1 - b) * (1 + b)); J<4> m{}; m[0][0] = m[1][1] = g; m[0][1] = m[1][0] = -b * g; m[2][2] = m[3][3] = 1; return m; }
static double vel(Src& s) { return s.pick({s.uni(0, 1), 0.0, 1 - std::pow(10.0, -s.uni(0.5, 8)), std::pow(10.0, -s.uni(0, 9)), 0.5, 0.6}) * (1 - 1e-16); }
static P<4> ev(Src& s) { P<4> x; for (auto& v : x) v = s.pick({s.uni(-10, 10), (double)s.i(-3, 3), s.uni(-1e3, 1e3)}); return x; }
LAW(boost_maps, 800, 8000) {
	double b = vel(s); P<4> x = ev(s); DISCARD_IF(!(b < 1)); c.say([&](auto& o) { o << "velocity " << fmt(b) << " event " << ps<4>(x); }); CoordTransfLorentzXAxis t(b); J<4> A = boost(b), I = boost(-b); LD g = A[0][0], al = 1 + 60 * EPS * g * g; // rounding of 1-b^2 near light speed
	M4 X = mk<M4, 4>(x), Y = t.transf(X), B = t.transfInverse(Y); auto y = app<4>(A, x); LD sc = 0; for (double v : x) sc = std::max<LD>(sc, std::fabs(v)); LD tol = 20 * EPS * sc * g * (1 + g * g); (void)al;
	for (int i = 0; i < 4; i++) { CHECK(fabsl((LD)Y[i] - y[i]) <= tol, "component " << i << ": " << fmt(Y[i]) << " exact " << fmt(y[i]) << " tol " << (double)tol); CHECK(fabsl((LD)B[i] - x[i]) <= tol * g * 4, "inverse " << i); CHECK(t.coordTransfFunc(i)(X) == Y[i] && t.inverseCoordTransfFunc(i)(Y) == B[i], "component functions"); }
	CHECK(Y[2] == x[2] && Y[3] == x[3], "transverse coordinates changed");
	auto iv = [](const M4& p) { return (LD)p[0] * p[0] - (LD)p[1] * p[1] - (LD)p[2] * p[2] - (LD)p[3] * p[3]; }; LD q = iv(X), r = iv(Y); CHECK(fabsl(q - r) <= 60 * EPS * sc * sc * g * g * (1 + g * g), "interval " << (double)q << " became " << (double)r << " gamma " << (double)g);
	// time dilation and simultaneity: a clock at rest at the moving origin
	M4 clock = mk<M4, 4>({x[0], b * x[0], 0, 0}), cl = t.transf(clock); CHECK(std::fabs(cl[1]) <= 4 * tol && fabsl(cl[0] - x[0] / g) <= 4 * tol, "moving clock shows " << cl[0] << " expected " << (double)(x[0] / g));
	// light cone maps to light cone
	M4 ph = t.transf(mk<M4, 4>({x[1], x[1], 0, 0})); CHECK(std::fabs(ph[0] - ph[1]) <= (double)(4 * tol), "photon leaves the light cone"); c.nontrivial(b > 1e-6 && sc > 0); }
LAW(composition, 500, 5000) {
	double a = s.uni(0, 0.999), b = s.pick({s.uni(0, 0.999), a}); double u = (double)(((LD)a + b) / (1 + (LD)a * b)); P<4> x = ev(s); c.say([&](auto& o) { o << "velocities " << fmt(a) << " " << fmt(b) << " event " << ps<4>(x); }); CoordTransfLorentzXAxis A(a), B(b), C(u); M4 X = mk<M4, 4>(x), p = B.transf(A.transf(X)), q = C.transf(X), r = A.transf(B.transf(X)); LD g = boost(a)[0][0] * boost(b)[0][0] * 2, sc = 0; for (double v : x) sc = std::max<LD>(sc, std::fabs(v)); LD tol = 100 * EPS * sc * g * (1 + g * g);
	for (int i = 0; i < 4; i++) { CHECK(fabsl((LD)p[i] - q[i]) <= tol, "composed boosts " << fmt(p[i]) << " single boost " << fmt(q[i]) << " tol " << (double)tol); CHECK(fabsl((LD)p[i] - r[i]) <= tol, "collinear boosts do not commute"); }
	// subtracting: undo one with the inverse
	M4 w = A.transfInverse(q); M4 v = B.transf(X); for (int i = 0; i < 4; i++) CHECK(fabsl((LD)w[i] - v[i]) <= tol * g, "inverse composition"); c.nontrivial(a > 1e-3 && b > 1e-3); }
LAW(transformation_interface, 300, 3000) {
	double b = s.uni(0, 0.95); P<4> x; for (auto& v : x) v = s.uni(-3, 3); c.say([&](auto& o) { o << "velocity " << fmt(b) << " event " << ps<4>(x); }); CoordTransfLorentzXAxis t(b); J<4> A = boost(b), I = boost(-b); check<M4, M4, 4>(s, t, x, app<4>(A, x), A, I, 1e-8, s.chance(1, 6)); c.nontrivial(b > 0.01); }
LAW(velocity_domain, 300, 3000) {
	double b = s.pick({1.0, s.uni(1, 3), 1e300, (double)INFINITY, -(double)INFINITY, (double)NAN, s.uni(-0.99, -1e-9), -1.0, s.uni(-5, -1), std::nextafter(1.0, 2)}); c.say([&](auto& o) { o << "velocity " << fmt(b); }); CHECK_THROWS(CoordTransfLorentzXAxis(b), std::range_error, "velocity " << fmt(b) << " accepted"); double ok = s.pick({0.0, -0.0, std::nextafter(1.0, 0), s.uni(0, 1) * 0.999}); try { CoordTransfLorentzXAxis t(ok); M4 y = t.transf(mk<M4, 4>({1, 0, 0, 0})); for (int i = 0; i < 4; i++) CHECK(std::isfinite(y[i]), "non-finite result"); } catch (std::range_error&) { pbt::fail("valid velocity " + fmt(ok) + " rejected"); } c.nontrivial(true); }
