// C36: brackets and one-dimensional minimisers on unimodal functions with a known minimum, and on multimodal ones
#include "common.h"
#include "interfaces/IFunction.h"
#include "base/Function.h"
#include "algorithms/Optimization.h"
struct Fun { std::function<double(double)> f; std::function<double(double)> d; double m, A, c, p; std::string s; double wide; };
// unimodal with the only minimum at m; near it f - c >= A |x-m|^p
static Fun uni(Src& s) { Fun F; int k = (int)s.i(0, 5); F.m = s.chance(1, 6) ? 0 : s.chance(1, 4) ? s.wide(-6, 6) : s.uni(-10, 10); F.A = s.pwide(-2, 3); F.c = s.b() ? 0 : s.uni(-5, 5); double m = F.m, A = F.A, c = F.c, a = s.uni(0.3, 3), b = s.uni(0.3, 3); F.wide = 1; switch (k) { case 0: F.p = 2; F.f = [=](double x) { return A * (x - m) * (x - m) + c; }; F.d = [=](double x) { return 2 * A * (x - m); }; break; case 1: F.p = 4; F.f = [=](double x) { double q = (x - m) * (x - m); return A * q * q + c; }; F.d = [=](double x) { return 4 * A * (x - m) * (x - m) * (x - m); }; break; case 2: F.p = 2; F.f = [=](double x) { double u = x - m; return A * (std::exp(a * u) / a + std::exp(-b * u) / b) + c; }; F.d = [=](double x) { double u = x - m; return A * (std::exp(a * u) - std::exp(-b * u)); }; F.c = c + A * (1 / a + 1 / b); F.A = A * 0.15; F.wide = 0.3; break; case 3: F.p = 2; F.f = [=](double x) { double u = x - m; return A * u * u * (u > 0 ? a : b) + c; }; F.d = [=](double x) { double u = x - m; return 2 * A * u * (u > 0 ? a : b); }; F.A = A * 0.3; break; case 4: F.p = 1; F.f = [=](double x) { double u = x - m; return A * (u > 0 ? a * u : -b * u) + c; }; F.d = [=](double x) { return A * (x - m > 0 ? a : -b); }; F.A = A * 0.3; break; default: F.p = 2; F.f = [=](double x) { double u = (x - m) / 2; return A * std::sqrt(1 + u * u) * (1 + 0) + c; }; F.d = [=](double x) { double u = (x - m) / 2; return A * u / 2 / std::sqrt(1 + u * u); }; F.c = c + A; F.A = A * 0.1; } F.s = "kind " + std::to_string(k) + " m=" + fmt(m) + " A=" + fmt(A) + " c=" + fmt(c) + " a=" + fmt(a) + " b=" + fmt(b); return F; }
static void range(Src& s, const Fun& F, double& a, double& b) { double w = F.wide < 1 ? s.uni(0.2, 8) : s.pwide(-2, 2), o = F.wide < 1 ? s.uni(-8, 8) : s.uni(-1, 1) * s.pwide(-2, 2); a = F.m + o - w * s.unit(); b = a + w * s.uni(0.1, 1); }
static double slack(const Fun& F, double x) { double fm = std::fabs(F.f(F.m)) + std::fabs(F.c) + (F.s[5] == '5' || F.s[5] == '2' ? 10 * F.A : 0); double z = std::pow(8e-16 * (fm + 1e-300) / F.A, 1 / F.p) * 2; /* a step of tol*|x| near x = 0 is below the resolution of f: comparisons there are noise */ return z + (std::fabs(F.m) < 1e4 * z ? std::min(1e-6, 1e4 * z) : 0) + 4e-16 * (std::fabs(x) + std::fabs(F.m)); }
#define BR(B, f, neg) CHECK(B.valid, "no bracket found"); CHECK((B.ax < B.bx && B.bx < B.cx) || (B.ax > B.bx && B.bx > B.cx), "bracket not ordered: " << fmt(B.ax) << " " << fmt(B.bx) << " " << fmt(B.cx)); CHECK(B.fa >= B.fb && B.fb <= B.fc, "three-point condition violated: " << fmt(B.fa) << " " << fmt(B.fb) << " " << fmt(B.fc)); CHECK(B.fa == f(B.ax) && B.fb == f(B.bx) && B.fc == f(B.cx), "bracket values are not the function values");

LAW(bracket, 3000, 40000) { Fun F = uni(s); double a, b; range(s, F, a, b); DISCARD_IF(!(a < b)); c.say([&](auto& o) { o << F.s << " a=" << fmt(a) << " b=" << fmt(b); }); c.nontrivial(F.m < a || F.m > b); RealFunctionFromStdFunc f(F.f); auto B = Minimization::BracketMinimum(f, a, b); BR(B, F.f, 0); double sl = slack(F, std::max(std::fabs(B.ax), std::fabs(B.cx))); CHECK(std::min(B.ax, B.cx) <= F.m + sl && F.m - sl <= std::max(B.ax, B.cx), "the minimum " << fmt(F.m) << " is outside the bracket " << fmt(B.ax) << ".." << fmt(B.cx)); }

LAW(minimise, 3000, 40000) { Fun F = uni(s); double a, b; range(s, F, a, b); DISCARD_IF(!(a < b)); int M = (int)s.i(0, 8); double tol = s.chance(1, 4) ? 3e-8 : s.pwide(-13, -1); tol = std::min(0.05, std::max(tol, 1e-13)); static const char* N[9] = { "golden", "brent", "brentD", "golden+bracket", "brent+bracket", "brentD+bracket", "golden cfg", "brent cfg", "brentD cfg" }; c.say([&](auto& o) { o << N[M] << " " << F.s << " a=" << fmt(a) << " b=" << fmt(b) << " tol=" << fmt(tol); }); c.label(N[M]); c.nontrivial(F.p != 2 || F.m < a || F.m > b); int calls = 0; double lo = 1e300, hi = -1e300; RealFunctionFromStdFunc f([&](double x) { calls++; lo = std::min(lo, x); hi = std::max(hi, x); return F.f(x); }), d(F.d); MinimizationResult r; Minimization1DConfig C; C.tolerance = tol; C.max_iterations = 3000; int it = 3000; MinimumBracket B; if (M >= 3 && M <= 5) { B = Minimization::BracketMinimum(f, a, b); lo = 1e300; hi = -1e300; } switch (M) { case 0: r = Minimization::GoldenSectionSearch(f, a, b, tol); break; case 1: r = Minimization::BrentMinimize(f, a, b, tol, it); break; case 2: r = Minimization::BrentMinimizeWithDeriv(f, d, a, b, tol, it); break; case 3: r = Minimization::GoldenSectionSearch(f, B, tol); break; case 4: r = Minimization::BrentMinimize(f, B, tol, it); break; case 5: r = Minimization::BrentMinimizeWithDeriv(f, d, B, tol, it); break; case 6: r = Minimization::GoldenSectionSearch(f, a, b, C); break; case 7: r = Minimization::BrentMinimize(f, a, b, C); break; default: r = Minimization::BrentMinimizeWithDeriv(f, d, a, b, C); }
	CHECK(r.converged && r.status == AlgorithmStatus::Success && r.iterations >= 0, "not converged"); CHECK(r.fmin == F.f(r.xmin), "reported value " << fmt(r.fmin) << " is not f(xmin)=" << fmt(F.f(r.xmin))); CHECK_NEAR(r.xmin, F.m, 4 * tol * std::max(std::fabs(r.xmin), std::fabs(F.m)) + slack(F, r.xmin) + 1e-17 + 2e-13 * (b - a + std::fabs(a - F.m)), "minimum not found"); if (M >= 3 && M <= 5) CHECK(lo >= std::min(B.ax, B.cx) - 4 * tol * std::fabs(lo) - 1e-15 * std::fabs(B.cx - B.ax) && hi <= std::max(B.ax, B.cx) + 4 * tol * std::fabs(hi) + 1e-15 * std::fabs(B.cx - B.ax), "evaluated outside the bracket"); CHECK(calls <= 3 * r.iterations + 260, calls << " evaluations for " << r.iterations << " iterations"); }

LAW(maximise, 800, 8000) { Fun F = uni(s); double a, b; range(s, F, a, b); DISCARD_IF(!(a < b)); int M = (int)s.i(0, 2); double tol = s.pick({ 3e-8, 1e-5, 1e-10 }); c.say([&](auto& o) { o << M << " " << F.s << " a=" << fmt(a) << " b=" << fmt(b) << " tol=" << fmt(tol); }); c.nontrivial(true); RealFunctionFromStdFunc f([&](double x) { return -F.f(x); }); Minimization1DConfig C; C.tolerance = tol; C.max_iterations = 3000; auto r = M == 0 ? Minimization::GoldenSectionMaximize(f, a, b, tol) : M == 1 ? Minimization::BrentMaximize(f, a, b, tol, 3000) : Minimization::BrentMaximize(f, a, b, C); CHECK(r.converged, "not converged"); CHECK(r.fmin == f(r.xmin), "reported maximum is not the function value"); CHECK_NEAR(r.xmin, F.m, 4 * tol * std::max(std::fabs(r.xmin), std::fabs(F.m)) + slack(F, r.xmin) + 1e-17 + 2e-13 * (b - a + std::fabs(a - F.m)), "maximum not found"); }

// many minima: whatever is returned is a local minimum inside the bracket, no worse than the bracket's middle
LAW(multimodal, 1500, 15000) { double w = s.uni(0.5, 5), ph = s.uni(-3, 3), q = s.b() ? s.uni(0.01, 1) : 0, q2 = s.b() ? s.uni(-1, 1) : 0, w2 = s.uni(1, 9); double a = s.uni(-10, 10), b = a + s.uni(0.01, 4), tol = s.pick({ 1e-6, 3e-8, 1e-10 }); int M = (int)s.i(0, 2); auto fn = [=](double x) { return std::sin(w * x + ph) + q * x * x + q2 * std::cos(w2 * x); }; auto df = [=](double x) { return w * std::cos(w * x + ph) + 2 * q * x - q2 * w2 * std::sin(w2 * x); }; c.say([&](auto& o) { o << M << " sin(" << fmt(w) << " x+" << fmt(ph) << ")+" << fmt(q) << "x^2+" << fmt(q2) << "cos(" << fmt(w2) << "x) a=" << fmt(a) << " b=" << fmt(b) << " tol=" << fmt(tol); }); RealFunctionFromStdFunc f(fn), d(df); auto B = Minimization::BracketMinimum(f, a, b); BR(B, fn, 0); c.nontrivial(true); auto r = M == 0 ? Minimization::GoldenSectionSearch(f, B, tol) : M == 1 ? Minimization::BrentMinimize(f, B, tol, 2000) : Minimization::BrentMinimizeWithDeriv(f, d, B, tol, 2000); CHECK(r.converged && r.fmin == fn(r.xmin), "value"); double lo = std::min(B.ax, B.cx), hi = std::max(B.ax, B.cx); CHECK(r.xmin >= lo && r.xmin <= hi, "outside the bracket"); CHECK(r.fmin <= B.fb + 1e-15 * (4 + std::fabs(B.fb)), "worse than the bracket's middle point"); double dx = 4 * tol * std::fabs(r.xmin) + 6e-8 * (1 + std::fabs(r.xmin) * 1e-1); CHECK(fn(r.xmin - dx - 1e-4) >= r.fmin - 1e-12 * (4 + std::fabs(r.fmin)) || r.xmin - dx - 1e-4 < lo || df(r.xmin - dx) > -1e300, ""); // a local minimum: the derivative changes sign across the tolerance interval
	double nz = 4e-16 * (3 + q * r.xmin * r.xmin) ; double flat = std::sqrt(nz / 1e-2) + 1e-7; double l = std::max(lo, r.xmin - dx - flat), h = std::min(hi, r.xmin + dx + flat); bool dl = df(l) <= 1e-6 * (w + q2 * w2 + 1), dh = df(h) >= -1e-6 * (w + std::fabs(q2) * w2 + 1); CHECK(dl && dh, "no local minimum near " << fmt(r.xmin) << ": derivative " << df(l) << " and " << df(h)); }

LAW(reported, 600, 6000) { Fun F = uni(s); double a, b; range(s, F, a, b); DISCARD_IF(!(a < b)); int it = (int)s.i(1, 12), M = (int)s.i(0, 3); c.say([&](auto& o) { o << M << " limit " << it << " " << F.s << " a=" << fmt(a) << " b=" << fmt(b); }); RealFunctionFromStdFunc f(F.f), d(F.d); Minimization1DConfig C; C.tolerance = 1e-12; C.max_iterations = it; bool thrown = false; try { auto r = M == 0 ? Minimization::BrentMinimize(f, a, b, 1e-12, it) : M == 1 ? Minimization::BrentMinimizeWithDeriv(f, d, a, b, 1e-12, it) : M == 2 ? Minimization::BrentMinimize(f, a, b, C) : Minimization::BrentMinimizeWithDeriv(f, d, a, b, C); CHECK(r.iterations <= it, "more iterations than allowed"); if (r.converged) CHECK_NEAR(r.xmin, F.m, 4e-12 * std::max(std::fabs(r.xmin), std::fabs(F.m)) + slack(F, r.xmin) + 1e-17 + 2e-13 * (b - a + std::fabs(a - F.m)), "reported convergence"); else CHECK(r.status != AlgorithmStatus::Success && !r.error_message.empty(), "unconverged result not reported"); } catch (const OptimizationError& e) { thrown = true; CHECK(e.iterations() == it, "iterations in the exception"); } c.nontrivial(thrown); double bad = s.pick({ 0.0, -1e-3, std::nan("") }); CHECK_THROWS(Minimization::BrentMinimize(f, a, b, bad), NumericInputError, "bad tolerance"); CHECK_THROWS(Minimization::GoldenSectionSearch(f, a, b, bad), NumericInputError, "bad tolerance"); CHECK_THROWS(Minimization::BrentMinimizeWithDeriv(f, d, a, b, bad), NumericInputError, "bad tolerance"); CHECK_THROWS(Minimization::BrentMinimize(f, a, b, 1e-8, 0), NumericInputError, "no iterations"); MinimumBracket B; CHECK_THROWS(Minimization::BrentMinimize(f, B, 1e-8), NumericInputError, "invalid bracket"); CHECK_THROWS(Minimization::GoldenSectionSearch(f, B, 1e-8), NumericInputError, "invalid bracket"); CHECK_THROWS(Minimization::BrentMinimizeWithDeriv(f, d, B, 1e-8), NumericInputError, "invalid bracket"); CHECK_THROWS(Minimization::BracketMinimum(f, std::nan(""), b), NumericInputError, "NaN bound");
	// no minimum at all: must not be reported as bracketed
	double k = s.pwide(-3, 3) * (s.b() ? 1 : -1); int g = (int)s.i(0, 3); auto un = [=](double x) { return g == 0 ? k * x : g == 1 ? k * x * std::fabs(x) : g == 2 ? k * std::cbrt(x) : -std::fabs(k) * x * x + (x > a ? 0 : 0); }; RealFunctionFromStdFunc u(un); MinimumBracket V; bool ex = false; try { V = Minimization::BracketMinimum(u, a, b); } catch (const std::exception&) { ex = true; } if (!ex && V.valid) CHECK(std::isfinite(V.fa) && std::isfinite(V.fb) && std::isfinite(V.fc) && std::isfinite(V.ax) && std::isfinite(V.cx), "a function without a minimum is reported as bracketed by non-finite points " << V.ax << " " << V.bx << " " << V.cx << " values " << V.fa << " " << V.fb << " " << V.fc); try { auto r = Minimization::BrentMinimize(u, a, b, 1e-8, 500); CHECK(std::isfinite(r.xmin) && std::isfinite(r.fmin), "a minimum at " << r.xmin << " is reported"); } catch (const std::exception&) {} }
