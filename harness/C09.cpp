// C09 polynomial roots: the returned roots, multiplied out, reproduce the polynomial (scaled backward error), all of them, closed under conjugation
#include "common.h"
#include "base/Polynom.h"
#include "algorithms/RootFinding/RootFindingPolynoms.h"
typedef std::complex<LD> CL;
struct Inst { std::vector<double> a; std::vector<CL> r; double sig = 0, sep = 0; bool exact; std::string kind; };   // a[i] coefficient of x^i, r the generating roots, sig the largest root modulus
static std::vector<CL> expand(const std::vector<CL>& r, LD lead) { std::vector<CL> p{CL(lead)}; for (auto& z : r) { std::vector<CL> q(p.size() + 1, 0); for (size_t i = 0; i < p.size(); i++) { q[i + 1] += p[i]; q[i] -= p[i] * z; } p = q; } return p; }
static Inst gen(Src& s, int n, bool multi = true, bool scales = true) {
	Inst q; int k = (int)s.choice(3); static const char* K[] = {"integer", "separated", "repeated", "coefficients"}; if (k == 2 && !multi) k = 1; q.kind = K[k]; double lead = s.b() ? 1 : s.pick({2.0, -1.0, -3.0, 0.5});
	if (k == 3) { q.a = genRealV(s, n + 1, -5, 5); if (q.a[n] == 0 || std::fabs(q.a[n]) < 0.05) q.a[n] = 1; if (s.chance(1, 4)) q.a[s.i(0, n - 1)] = 0; if (s.chance(1, 4)) for (int i = 0; i < n; i++) q.a[i] *= std::pow(10.0, (double)s.i(-6, 0)); q.exact = false; for (int i = 0; i < n; i++) q.sig = std::max(q.sig, std::pow(std::fabs(q.a[i] / q.a[n]), 1.0 / (n - i))); if (q.sig == 0) q.sig = 1; }
	else {
		while ((int)q.r.size() < n) { bool cx = (int)q.r.size() + 1 < n && s.chance(2, 5); CL z; if (k == 2 && !q.r.empty() && s.b()) { z = q.r[s.i(0, (int)q.r.size() - 1)]; cx = z.imag() != 0; if (cx && (int)q.r.size() + 1 >= n) { z = z.real(); cx = false; } } else if (k == 1) z = cx ? CL(s.uni(-3, 3), s.uni(0.1, 3)) : CL(s.uni(-3, 3)); else z = cx ? CL((LD)s.i(-4, 4), (LD)s.i(1, 4)) : CL((LD)s.i(-6, 6)); q.r.push_back(z); if (cx) q.r.push_back(std::conj(z)); }
		double f = scales && s.chance(1, 3) ? std::pow(2.0, (double)s.i(-20, 20)) : 1; for (auto& z : q.r) z *= f; auto p = expand(q.r, lead); q.a.resize(n + 1); for (int i = 0; i <= n; i++) q.a[i] = (double)p[i].real(); for (auto& z : q.r) q.sig = std::max(q.sig, (double)std::abs(z)); if (q.sig == 0) q.sig = 1; q.exact = true; q.sep = 1e300; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) q.sep = std::min(q.sep, (double)std::abs(q.r[i] - q.r[j]) / q.sig);
	}
	double g = scales && s.chance(1, 3) ? std::pow(2.0, (double)s.i(-20, 20)) : 1; for (auto& x : q.a) x *= g; return q;
}
static void describe(Case& c, const Inst& q, int n) { c.nontrivial(n > 1); c.label(q.kind); c.say([&](auto& o) { o << "coefficients (ascending) " << str(q.a) << " roots"; for (auto& z : q.r) o << " " << (double)z.real() << (z.imag() ? fmt((double)z.imag()) + "i" : ""); }); }
static void reproduce(const Inst& q, const std::vector<Complex>& x, double tol, const char* w) {
	int n = (int)q.a.size() - 1; CHECK((int)x.size() == n, w << ": " << x.size() << " roots of a polynomial of degree " << n); std::vector<CL> r; for (auto& z : x) { CHECK(std::isfinite(z.real()) && std::isfinite(z.imag()), w << ": root is not finite"); r.push_back(CL(z.real(), z.imag())); }
	auto p = expand(r, q.a[n]); for (int i = 0; i < n; i++) { LD sc = std::fabs((LD)q.a[n]) * std::pow((LD)q.sig, n - i); LD e = std::abs(p[i] - (LD)q.a[i]) / sc; CHECK(e <= tol, w << ": product of the roots has coefficient " << i << " = " << (double)p[i].real() << " instead of " << q.a[i] << ", scaled error " << (double)e << "; roots " << [&] { std::string t; for (auto& z : x) t += "(" + fmt(z.real()) + "," + fmt(z.imag()) + ") "; return t; }()); }
	std::vector<bool> used(n, false); double ct = std::pow(tol, 1.0 / n) * q.sig * 4; for (int i = 0; i < n; i++) if (!used[i] && std::fabs(x[i].imag()) > ct) { int b = -1; for (int j = 0; j < n; j++) if (j != i && !used[j] && std::abs(x[j] - std::conj(x[i])) < ct && (b < 0 || std::abs(x[j] - std::conj(x[i])) < std::abs(x[b] - std::conj(x[i])))) b = j; CHECK(b >= 0, w << ": no conjugate of root " << i); used[i] = used[b] = true; }
}
// match every generating root with a computed one when the roots are well separated
static void nearRoots(const Inst& q, const std::vector<Complex>& x, double tol, const char* w) {
	if (!q.exact || q.sep < 0.05) return; int n = (int)q.a.size() - 1; for (auto& z : q.r) { LD d = 1, cond = 0; for (auto& y : q.r) if (y != z) d *= std::abs(z - y) / (LD)q.sig; for (int i = 0; i <= n; i++) cond += std::fabs((LD)q.a[i] / q.a[n]) * std::pow(std::abs(z), i) / std::pow((LD)q.sig, n); cond /= d; double best = 1e300; for (auto& y : x) best = std::min(best, (double)std::abs(CL(y.real(), y.imag()) - z)); CHECK(best <= tol * q.sig * (double)(cond + 1), w << ": root (" << (double)z.real() << "," << (double)z.imag() << ") is missed by " << best << " (condition " << (double)cond << ")"); }
}
LAW(quadratic, 6000, 60000) {
	Inst q = gen(s, 2); describe(c, q, 2); Complex x1, x2; int k = SolveQuadratic(q.a[2], q.a[1], q.a[0], x1, x2); reproduce(q, {x1, x2}, 1e-13, "quadratic"); nearRoots(q, {x1, x2}, 1e-13, "quadratic"); LD D = (LD)q.a[1] * q.a[1] - 4 * (LD)q.a[2] * q.a[0], sc = (LD)q.a[1] * q.a[1] + std::fabs(4 * (LD)q.a[2] * q.a[0]); if (D > 1e-12L * sc || (sc == 0)) { CHECK(k == 2 && x1.imag() == 0 && x2.imag() == 0, "two real roots, reported " << k); LD p = (LD)x1.real() * x2.real(), e = (LD)q.a[0] / q.a[2]; CHECK(std::fabs(p - e) <= 1e-12L * std::fabs(e), "product of real roots " << (double)p << " must be " << (double)e); } else if (D < -1e-12L * sc) CHECK(k == 0 && x1 == std::conj(x2) && x1.imag() != 0, "complex pair, reported " << k << " real roots");
	Complex y1, y2; SolveQuadratic(Complex(q.a[2]), Complex(q.a[1]), Complex(q.a[0]), y1, y2); reproduce(q, {y1, y2}, 1e-13, "complex solver");
	Complex r1(s.uni(-3, 3), s.uni(-3, 3)), r2(s.uni(-3, 3), s.uni(-3, 3)), l(s.uni(0.5, 2), s.uni(-2, 2)); if (s.b()) r2 *= std::pow(10.0, (double)s.i(-9, 0)); Complex z1, z2; SolveQuadratic(l, -l * (r1 + r2), l * r1 * r2, z1, z2); double sg = std::max(std::abs(r1), std::abs(r2)); CHECK_NEAR(std::abs(z1 + z2 - r1 - r2), 0, 1e-13 * sg, "complex sum"); CHECK_NEAR(std::abs(z1 * z2 - r1 * r2), 0, 1e-12 * std::abs(r1) * std::abs(r2) + 1e-300, "complex product of roots " << r1 << " and " << r2);
	double b = s.nz(0.1, 5), d = s.real(-5, 5); k = SolveQuadratic(0.0, b, d, x1, x2); CHECK(k == 1 && std::abs(x1 + d / b) < 1e-14 * (1 + std::fabs(d / b)), "linear equation"); k = SolveQuadratic(0.0, 0.0, d, x1, x2); CHECK(k == 0, "constant equation");
}
LAW(cubic, 6000, 60000) {
	Inst q = gen(s, 3); describe(c, q, 3); Complex x[3]; int k = SolveCubic(q.a[3], q.a[2], q.a[1], q.a[0], x[0], x[1], x[2]); reproduce(q, {x[0], x[1], x[2]}, 1e-11, "cubic"); nearRoots(q, {x[0], x[1], x[2]}, 1e-11, "cubic"); if (q.exact && q.sep > 1e-3) { int e = 0; for (auto& z : q.r) e += z.imag() == 0; CHECK(k == e, k << " real roots reported, there are " << e); int im = 0; for (auto& z : x) im += std::fabs(z.imag()) > 1e-9 * q.sig; CHECK(im == 3 - e, "imaginary parts"); }
	Complex y[2], w[3]; int m = SolveQuadratic(q.a[2], q.a[1], q.a[0], y[0], y[1]), g = SolveCubic(0.0, q.a[2], q.a[1], q.a[0], w[0], w[1], w[2]); CHECK(m == g && (w[0] == y[0] || y[0] != y[0]) && (w[1] == y[1] || y[1] != y[1]), "degenerate cubic is the quadratic");
}
LAW(quartic, 6000, 60000) {
	Inst q = gen(s, 4); if (s.chance(1, 3)) { q.a[1] = q.a[3] = 0; q.exact = false; q.sig = 0; for (int i = 0; i < 4; i++) q.sig = std::max(q.sig, std::pow(std::fabs(q.a[i] / q.a[4]), 1.0 / (4 - i))); if (q.sig == 0) q.sig = 1; q.r.clear(); q.kind = "biquadratic"; } describe(c, q, 4); Complex x[4]; SolveQuartic(q.a[4], q.a[3], q.a[2], q.a[1], q.a[0], x[0], x[1], x[2], x[3]); reproduce(q, {x[0], x[1], x[2], x[3]}, 1e-9, "quartic"); nearRoots(q, {x[0], x[1], x[2], x[3]}, 1e-9, "quartic");
	Complex y[3], w[4]; SolveCubic(q.a[3] + (q.a[3] == 0), q.a[2], q.a[1], q.a[0], y[0], y[1], y[2]); SolveQuartic(0.0, q.a[3] + (q.a[3] == 0), q.a[2], q.a[1], q.a[0], w[0], w[1], w[2], w[3]); for (int i = 0; i < 3; i++) CHECK(w[i] == y[i], "degenerate quartic is the cubic");
}
static std::vector<Complex> toStd(const Vector<Complex>& v) { std::vector<Complex> r; for (int i = 0; i < v.size(); i++) r.push_back(v[i]); return r; }
static double mulTol(const Inst& q, double t) { (void)q; return t; }
LAW(laguerre, 3000, 30000) {
	int n = s.size(1, 9); Inst q = gen(s, n); describe(c, q, n); std::vector<Complex> x; try { x = toStd(RootFinding::LaguerreRoots(PolynomReal(q.a))); } catch (const RootFindingError&) { c.label("reported failure"); CHECK(q.kind == "repeated" || q.kind == "integer" || n > 6, "no convergence on well separated roots"); return; } reproduce(q, x, mulTol(q, 1e-7), "Laguerre"); nearRoots(q, x, 1e-8, "Laguerre");
}
LAW(eigenvalues, 2000, 20000) {
	int n = s.size(1, 9); Inst q = gen(s, n, true, false); describe(c, q, n); std::vector<Complex> x; try { x = toStd(RootFinding::EigenvalueRoots(PolynomReal(q.a))); } catch (const RootFindingError&) { c.label("reported failure"); CHECK(false, "companion matrix iteration failed"); } reproduce(q, x, mulTol(q, 1e-7), "companion matrix"); nearRoots(q, x, 1e-8, "companion matrix");
	std::vector<double> z = q.a; z.back() = 0; CHECK_THROWS(RootFinding::EigenvalueRoots(PolynomReal(z)), RootFindingError, "zero leading coefficient");
}
LAW(bairstow, 3000, 30000) {
	int n = s.size(1, 8); Inst q = gen(s, n); describe(c, q, n); std::vector<Complex> x; Vector<Complex> init; if (s.b() && q.exact && n > 1) { for (auto& z : q.r) init.push_back(Complex((double)z.real() * 1.01, (double)z.imag() * 0.99)); c.label("with initial roots"); } try { x = toStd(RootFinding::BairstowRoots(PolynomReal(q.a), init)); } catch (const std::runtime_error&) { c.label("reported failure"); return; } reproduce(q, x, mulTol(q, 1e-6), "Bairstow"); nearRoots(q, x, 1e-7, "Bairstow");
}
LAW(degenerate, 600, 6000) {
	double a = s.real(-5, 5); c.nontrivial(a != 0); c.say([&](auto& o) { o << "constant " << a; }); PolynomReal p(std::vector<double>{a}), e; CHECK(RootFinding::LaguerreRoots(p).size() == 0 && RootFinding::EigenvalueRoots(p).size() == 0 && RootFinding::BairstowRoots(p).size() == 0 && RootFinding::LaguerreRoots(e).size() == 0, "a constant has no roots"); double b = s.nz(0.1, 4); PolynomReal l(std::vector<double>{a, b}); for (int m = 0; m < 3; m++) { Vector<Complex> r = m == 0 ? RootFinding::LaguerreRoots(l) : m == 1 ? RootFinding::EigenvalueRoots(l) : RootFinding::BairstowRoots(l); CHECK(r.size() == 1 && std::abs(r[0] + a / b) < 1e-9 * (1 + std::fabs(a / b)), "linear polynomial, method " << m); }
	int n = s.size(1, 5); std::vector<double> z = genRealV(s, n); z.push_back(0); for (int m = 0; m < 3; m++) { bool th = false; try { Vector<Complex> r = m == 0 ? RootFinding::LaguerreRoots(PolynomReal(z)) : m == 1 ? RootFinding::EigenvalueRoots(PolynomReal(z)) : RootFinding::BairstowRoots(PolynomReal(z)); } catch (const std::exception&) { th = true; } CHECK(th, "method " << m << " accepts a zero leading coefficient"); }
}
