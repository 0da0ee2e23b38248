// C10 scalar root finding: brackets enclose sign changes, converged roots are roots inside the bracket, failures are reported
#include "common.h"
#include "algorithms/RootFinding/RootFindingBracketing.h"
#include "algorithms/RootFinding/RootFindingMethods.h"
#include <functional>
using namespace RootFinding;
struct Fn : IRealFunction { std::function<double(double)> g; std::vector<double> roots; std::string txt; mutable long calls = 0; mutable double lo = 1e300, hi = -1e300; bool mild = true, flat = false; Real operator()(Real x) const override { calls++; if (calls > 100000) pbt::fail("more than 100000 evaluations", ""); lo = std::min(lo, x); hi = std::max(hi, x); return g(x); } };
static double near(const Fn& f, double x) { double d = 1e300; if (f.roots.size() > 20) { if (std::fabs(x) > 100) return 0; double p = f.roots[1] - f.roots[0], t = (x - f.roots[60]) / p; return std::fabs(t - std::round(t)) * p - 1e-13; } for (double r : f.roots) d = std::min(d, std::fabs(x - r)); return d; }
static void gen(Src& s, Fn& f) {   // a continuous function with exactly known, sign-changing roots
	double r = s.chance(1, 5) ? 0.0 : s.real(-5, 5), a = s.pick({1.0, -1.0, 2.5, -0.3}); if (s.chance(1, 4)) a *= std::pow(10.0, (double)s.i(-6, 8)); int k = (int)s.choice(9); f.roots = {r};
	switch (k) {
	case 0: f.g = [=](double x) { return a * (x - r); }; f.txt = "line"; break;
	case 1: { double p = s.uni(0.2, 3); f.g = [=](double x) { double t = x - r; return a * t * (p + t * t); }; f.txt = "cubic"; break; }
	case 2: { double p = s.uni(0.1, 4); f.g = [=](double x) { return a * std::atan(p * (x - r)); }; f.txt = "atan"; break; }
	case 3: { double p = s.uni(0.1, 4); f.g = [=](double x) { return a * std::expm1(p * (x - r)); }; f.txt = "exp"; f.mild = p < 1; break; }
	case 4: { int m = (int)s.i(1, 4) * 2 + 1; f.g = [=](double x) { return a * std::pow(x - r, m); }; f.txt = "power " + std::to_string(m); f.flat = true; break; }
	case 5: { f.g = [=](double x) { return a * std::cbrt(x - r); }; f.txt = "cbrt"; f.mild = false; break; }
	case 6: { double p = s.uni(0.05, 20), q = s.uni(0.05, 20); f.g = [=](double x) { double t = x - r; return a * (t < 0 ? p * t : q * t); }; f.txt = "kink"; f.mild = false; break; }
	case 7: { int n = (int)s.i(2, 5); f.roots.clear(); for (int i = 0; i < n; i++) f.roots.push_back(r + i * s.uni(0.4, 2)); std::sort(f.roots.begin(), f.roots.end()); for (int i = 1; i < n; i++) if (f.roots[i] - f.roots[i - 1] < 0.2) for (int j = i; j < n; j++) f.roots[j] += 0.3; auto R = f.roots; f.g = [=](double x) { double v = a; for (double z : R) v *= x - z; return v; }; f.txt = "polynomial with " + std::to_string(n) + " roots"; break; }
	case 8: { double w = s.uni(0.3, 3); f.roots.clear(); for (int i = -60; i <= 60; i++) f.roots.push_back(r + i * M_PI / w); f.g = [=](double x) { return a * std::sin(w * (x - r)); }; f.txt = "sine"; break; }
	default: { double p = s.uni(5, 40); f.g = [=](double x) { return a * std::tanh(p * (x - r)); }; f.txt = "steep tanh"; f.mild = false; break; }
	}
	f.txt += " amplitude " + fmt(a) + " root " + fmt(f.roots[f.roots.size() / 2]);
}
static const char* MN[] = {"bisection", "false position", "Newton", "secant", "Ridders", "Brent"};
static RootFindingResult run(int m, const Fn& f, double a, double b, const RootFindingConfig& c) { switch (m) { case 0: return FindRootBisection(f, a, b, c); case 1: return FindRootFalsePosition(f, a, b, c); case 2: return FindRootNewton(f, a, b, c); case 3: return FindRootSecant(f, a, b, c); case 4: return FindRootRidders(f, a, b, c); default: return FindRootBrent(f, a, b, c); } }
static double runT(int m, const Fn& f, double a, double b, double acc) { switch (m) { case 0: return FindRootBisection(f, a, b, acc); case 1: return FindRootFalsePosition(f, a, b, acc); case 2: return FindRootNewton(f, a, b, acc); case 3: return FindRootSecant(f, a, b, acc); case 4: return FindRootRidders(f, a, b, acc); default: return FindRootBrent(f, a, b, acc); } }
static void bracket(Src& s, const Fn& f, double& a, double& b) {   // endpoints around one or an odd number of roots
	double r = f.roots[s.i(0, (int)f.roots.size() - 1)]; if (f.roots.size() > 20) r = f.roots[f.roots.size() / 2 + s.i(-2, 2)]; double w1 = s.uni(0.01, 4), w2 = s.uni(0.01, 4); if (s.chance(1, 4)) w1 *= std::pow(10.0, (double)s.i(-6, 1)); if (s.chance(1, 4)) w2 *= std::pow(10.0, (double)s.i(-6, 1)); a = r - w1; b = r + w2; if (s.b()) std::swap(a, b);
}
static void common(const Fn& f, const RootFindingResult& R, int m, double a, double b, double tol, int lim) {
	double lo = std::min(a, b), hi = std::max(a, b), ulp = 8 * EPS * std::max(std::fabs(lo), std::fabs(hi)); CHECK(R.iterations_used <= lim, MN[m] << " used " << R.iterations_used << " iterations of " << lim);
	if (!R.converged) { CHECK(!R.error_message.empty(), MN[m] << " does not converge and gives no message"); CHECK(R.status != AlgorithmStatus::Success, MN[m] << " does not converge but its status says Success: " << R.error_message); return; }
	CHECK(R.error_message.empty() && R.status == AlgorithmStatus::Success, MN[m] << " converged with message " << R.error_message); CHECK(R.iterations_used >= 1, MN[m] << " converged in " << R.iterations_used << " iterations"); CHECK(std::isfinite(R.root) && m == 3 || R.root >= lo - ulp - (m == 3 ? 1.01 * tol : 0) && R.root <= hi + ulp, MN[m] << ": root " << R.root << " outside the bracket [" << lo << "," << hi << "]"); CHECK(R.function_value == f.g(R.root), MN[m] << ": reported f = " << R.function_value << " but f(root) = " << f.g(R.root)); CHECK(R.achieved_tolerance >= 0, "achieved tolerance");
	double d = near(f, R.root), acc = (m == 2 ? 4 * tol : m == 5 || m == 4 ? 2 * tol : tol) * 1.0000001 + 4 * ulp; bool byValue = (m == 1 || m == 4) && std::fabs(R.function_value) < tol; CHECK(d <= acc || byValue || (m == 2 && f.flat), MN[m] << ": converged to " << R.root << " which is " << d << " away from the nearest root, tolerance " << tol << ", f = " << R.function_value);
}
LAW(methods, 6000, 60000) {
	Fn f; gen(s, f); double a, b; bracket(s, f, a, b); double fa = f.g(a), fb = f.g(b); int m = (int)s.choice(5); double tol = std::pow(10.0, -s.uni(2, 13)); RootFindingConfig c0; c0.tolerance = tol; c0.max_iterations = s.chance(1, 3) ? (int)s.i(1, 12) : s.chance(1, 3) ? 0 : 400; bool valid = fa * fb < 0; c.nontrivial(valid && f.txt[0] != 'l'); c.say([&](auto& o) { o << MN[m] << " on " << f.txt << " bracket " << a << ".." << b << " tol " << tol << " limit " << c0.max_iterations; });
	if (m == 2 && !f.mild) return; int lim = c0.max_iterations > 0 ? c0.max_iterations : m == 5 ? 100 : m == 2 || m == 3 ? 20 : 50; RootFindingResult R = run(m, f, a, b, c0); c.label(std::string(MN[m]) + (R.converged ? " converged" : " not converged")); if (!valid) { if (fa * fb > 0) CHECK(!R.converged && R.status == AlgorithmStatus::InvalidInput, MN[m] << " accepts an invalid bracket"); else if (R.converged) common(f, R, m, a, b, tol, lim); return; } common(f, R, m, a, b, tol, lim);
	double w = std::fabs(b - a), floor = 8 * EPS * std::max(std::fabs(a), std::fabs(b)); double lo = std::min(a, b), hi = std::max(a, b); if (m == 0 || m == 1 || m == 4 || m == 5) CHECK(f.lo >= lo - floor && f.hi <= hi + floor, MN[m] << " evaluates the function outside the bracket, at " << f.lo << " or " << f.hi);
	if (m == 0) { int need = 0; double t = w; while (!(t < tol)) { t *= 0.5; need++; } need = std::max(1, need); if (need <= lim) CHECK(R.converged && (R.iterations_used == need || R.function_value == 0), "bisection needs " << need << " halvings, reports " << R.iterations_used); else CHECK(!R.converged || R.function_value == 0, "bisection claims an accuracy it cannot have reached"); if (R.converged && R.function_value != 0) CHECK_NEAR(R.achieved_tolerance, w * std::pow(0.5, R.iterations_used), 1e-12 * w, "achieved tolerance"); CHECK(f.calls <= lim + 4, "evaluations " << f.calls); }
	if ((m == 4 || m == 5) && lim >= 400) CHECK(R.converged, MN[m] << " does not converge on a valid bracket: " << R.error_message);
	if (m == 1 && lim >= 400 && tol > 1e-14 * (std::fabs(fa) + std::fabs(fb)) && f.txt[0] == 'l') CHECK(R.converged, "false position does not converge on a line"); if ((m == 2 || m == 3) && lim >= 20 && f.txt[0] == 'l' && std::fabs(f.g(f.roots[0] + 1)) > 1e-5) CHECK(R.converged || tol < 10 * floor || m == 2, MN[m] << " does not converge on a line: " << R.error_message);
	f.calls = 0; RootFindingConfig cz = c0; cz.max_iterations = 0; RootFindingResult Z = run(m, f, a, b, cz); bool th = false; double x = 0; try { x = runT(m, f, a, b, tol); } catch (const RootFindingError& e) { th = true; CHECK(std::string(e.what()).find(Z.error_message) != std::string::npos, "exception text"); } CHECK(th == !Z.converged, "throwing overload disagrees with the configured one"); if (!th) CHECK(x == Z.root, "throwing overload returns " << x << " instead of " << Z.root);
}
LAW(endpoints, 2000, 20000) {   // root exactly at an endpoint, equal signs, empty interval: reported or right
	Fn f; gen(s, f); double r = f.roots[f.roots.size() / 2], o = r + (s.b() ? 1 : -1) * s.uni(0.05, 0.19); if (f.g(r) != 0) { r = 0; f = Fn(); f.g = [](double x) { return x; }; f.roots = {0}; f.txt = "identity"; o = s.nz(0.1, 2); } int m = (int)s.choice(5), k = (int)s.choice(2); double a = r, b = o; if (k == 1) { a = o; b = r; } else if (k == 2) { a = o; b = o + (o - r) * s.uni(0, 0.5); } c.nontrivial(true); c.say([&](auto& out) { out << MN[m] << " on " << f.txt << " interval " << a << ".." << b; }); if (m == 2 && !f.mild) return; RootFindingConfig c0; RootFindingResult R = run(m, f, a, b, c0); if (k == 2 && f.g(a) * f.g(b) > 0) CHECK(!R.converged && R.status == AlgorithmStatus::InvalidInput, MN[m] << " accepts an interval without sign change"); else common(f, R, m, a, b, c0.tolerance, 100); if (R.converged) c.label("converged"); else c.label("reported");
}
LAW(nonfinite, 3000, 30000) {   // NaN or infinity in part of the interval or from some evaluation on
	Fn f; gen(s, f); double a, b; bracket(s, f, a, b); double bad = s.pick({(double)NAN, (double)INFINITY, -(double)INFINITY}); auto g = f.g; int k = (int)s.choice(3), m = (int)s.choice(5); double c0 = s.uni(0, 1), c1 = s.uni(0, 1), l = std::min(a, b), w = std::fabs(b - a), z0 = l + w * std::min(c0, c1), z1 = l + w * std::max(c0, c1); long from = s.i(1, 15); c.nontrivial(true); c.say([&](auto& o) { o << MN[m] << " on " << f.txt << " interval " << a << ".." << b << " value " << bad << (k == 0 ? " from evaluation " + std::to_string(from) : k == 1 ? " in a band" : k == 2 ? " at the first end" : " at the second end"); });
	Fn* p = &f; f.g = [=](double x) { return (k == 0 && p->calls >= from) || (k == 1 && x > z0 && x < z1) || (k == 2 && x == a) || (k == 3 && x == b) ? bad : g(x); }; if (g(a) * g(b) >= 0) return; RootFindingConfig cf; cf.max_iterations = 60; RootFindingResult R; try { R = run(m, f, a, b, cf); } catch (const std::exception& e) { c.label("exception"); CHECK(m == 2 && std::string(e.what()).find("non-finite") != std::string::npos, MN[m] << " throws " << e.what()); return; } CHECK(R.iterations_used <= 60, "iterations"); if (R.converged) { CHECK(k < 2 , MN[m] << " converged although an endpoint value is not finite"); f.g = g; f.calls = 0; CHECK(std::isfinite(R.root), MN[m] << " returns a non-finite root"); if (f.mild) { double d = near(f, R.root); CHECK(d < 20 * cf.tolerance + 1e-13 || std::fabs(g(R.root)) < cf.tolerance || (m != 2 && g(z0) * g(z1) < 0), MN[m] << " converged to " << R.root << ", " << d << " from a root"); } c.label("converged"); } else { CHECK(!R.error_message.empty() && R.status != AlgorithmStatus::Success, "unreported failure"); c.label("reported"); }
}
LAW(bracketRoot, 3000, 30000) {
	Fn f; gen(s, f); double a = s.real(-8, 8), w = s.nz(0.01, 3), b = a + w; int tries = s.b() ? 50 : (int)s.i(0, 20); c.nontrivial(f.g(a) * f.g(b) > 0); c.say([&](auto& o) { o << f.txt << " start " << a << ".." << b << " tries " << tries; }); double x1 = a, x2 = b; bool ok = BracketRoot(f, x1, x2, tries); CHECK(f.calls <= tries + 2, "evaluations"); c.label(ok ? "found" : "not found"); double l = std::min(x1, x2), h = std::max(x1, x2); CHECK(l <= std::min(a, b) && h >= std::max(a, b), "the interval shrinks"); if (ok) { CHECK(f.g(x1) * f.g(x2) < 0, "no sign change between " << x1 << " and " << x2); bool in = false; for (double r : f.roots) in |= r >= l && r <= h; CHECK(in || f.roots.size() > 20, "no root inside"); } else if (f.roots.size() == 1 && tries == 50 && f.txt[0] == 'l') CHECK(false, "monotone function not bracketed in 50 expansions"); if (f.g(a) * f.g(b) < 0 && tries > 0) CHECK(ok && x1 == a && x2 == b, "a valid bracket must be returned unchanged"); x1 = x2 = a; CHECK_THROWS(BracketRoot(f, x1, x2), RootFindingError, "empty range");
	Fn g; g.g = [](double x) { return 1 + x * x; }; x1 = a; x2 = b; CHECK(!BracketRoot(g, x1, x2, tries), "bracket of a positive function"); g.g = [](double) { return (double)NAN; }; x1 = a; x2 = b; CHECK(!BracketRoot(g, x1, x2, tries), "bracket of NaN");
}
// piecewise linear function through random node values on a dyadic grid: every sign change, and nothing else, is reported in order
LAW(brackets, 4000, 40000) {
	int n = s.chance(1, 3) ? (int)s.i(40, 160) : s.size(1, 40); double h = std::pow(2.0, -(double)s.i(0, 6)), x0 = (double)s.i(-20, 20) * h; std::vector<double> v(n + 1); int mode = (int)s.choice(2); for (auto& y : v) y = mode == 0 ? s.pick({-1.0, 1.0}) : mode == 1 ? (double)s.i(-3, 3) : s.real(-1, 1); bool rev = s.chance(1, 4); if (s.chance(1, 8)) v[s.i(0, n)] = NAN; Fn f; f.g = [=](double x) { double t = (x - x0) / h; int i = (int)std::floor(t); i = std::max(0, std::min(n - 1, i)); double u = t - i; return u == 0 ? v[i] : u == 1 ? v[i + 1] : v[i] * (1 - u) + v[i + 1] * u; }; double A = x0, B = x0 + n * h; if (rev) std::swap(A, B); std::vector<int> e; for (int i = 0; i < n; i++) { double p = rev ? v[n - i] : v[i], q = rev ? v[n - i - 1] : v[i + 1]; if (p * q <= 0) e.push_back(i); } c.nontrivial(e.size() > 1); c.label(e.size() > 40 ? "over 40" : e.size() > 20 ? "over 20" : "few"); c.say([&](auto& o) { o << "nodes " << str(v) << " from " << A << " to " << B; });
	Vector<Real> l, u; int k = FindRootBrackets(f, A, B, n, l, u); CHECK(k == (int)e.size(), k << " brackets, expected " << e.size()); CHECK(l.size() == k && u.size() == k, "output sizes " << l.size() << "," << u.size() << " for " << k << " brackets"); double d = (B - A) / n; for (int i = 0; i < k; i++) { CHECK(l[i] == A + e[i] * d && u[i] == A + (e[i] + 1) * d, "bracket " << i << " is " << l[i] << ".." << u[i] << " expected " << A + e[i] * d); double p = f.g(l[i]), q = f.g(u[i]); if (p * q < 0) { RootFindingConfig cf; RootFindingResult R = FindRootBrent(f, l[i], u[i], cf); double r = l[i] + (u[i] - l[i]) * p / (p - q); CHECK(R.converged && std::fabs(R.root - r) < 1e-9, "Brent on bracket " << i); } }
}
