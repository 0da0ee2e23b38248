// C61: results stay honest under hostile callbacks (docs/ERROR_HANDLING.md): functions that return NaN or infinities
// everywhere, on a region or on the k-th call, overflow, are flat, jump or throw. Every algorithm terminates within a bounded
// number of evaluations, never reports convergence with a non-finite answer or although the callback threw, and its
// status / error message agree with the converged flag.
#include "MMLBase.h"
#include "base/Vector/VectorTypes.h"
#include "base/Matrix/Matrix.h"
#include "base/Matrix/MatrixSym.h"
#include "interfaces/IFunction.h"
#include "interfaces/IODESystem.h"
#include "base/Function.h"
#include "base/ODESystem.h"
#include "base/ODESystemSolution.h"
#include "core/Derivation.h"
#include "core/Integration.h"
#include "core/Integration/GaussKronrod.h"
#include "core/Integration/GaussianQuadrature.h"
#include "core/Integration/IntegrationImproper.h"
#include "algorithms/EigenSystemSolvers.h"
#include "algorithms/RootFinding.h"
#include "algorithms/Optimization.h"
#include "algorithms/OptimizationMultidim.h"
#include "algorithms/ODESolvers/ODESteppers.h"
#include "algorithms/ODESolvers/ODESolverAdaptive.h"
#include "algorithms/ODESolvers/ODESolverStiff.h"
#include "common.h"
#include <unistd.h>
using namespace MML; using namespace MML::Integration; using namespace MML::Optimization; using std::string; using std::vector;
namespace { struct Injected { int id; }; struct Runaway {};
struct Hostile { int mode = 0; double c = 0, a = 1, w = 1, p = 0; int k = 1; long limit = 400000; mutable long n = 0; mutable bool threw = false, ran = false, sawBad = false; string name;
  double base(double x) const { return a * (x - p) + std::sin(w * x) * 0.3; }
  double eval(double x) const { if (++n > limit) { ran = true; throw Runaway{}; } double v = val(x); if (!std::isfinite(v)) sawBad = true; return v; }
  double val(double x) const { const double N = std::nan(""), I = INFINITY; switch (mode) {
      case 0: return N; case 1: return x > c ? N : base(x); case 2: return x > c ? I : base(x); case 3: return x > c ? -I : base(x); case 4: return n % k == 0 ? N : base(x); case 5: if (n == k) { threw = true; throw Injected{k}; } return base(x);
      case 6: return base(x) * 1e308; case 7: return a > 0 ? 0 : a; case 8: return x > c ? 1 : -1; case 9: return base(x); case 10: return I; case 11: return -I; case 12: return 1 / (x - c); case 13: return n % k == 0 ? I : base(x) * base(x); default: return base(x) * base(x) - 0.5; } } };
Hostile gen(pbt::Src& s) { static const char* nm[] = {"NaN everywhere", "NaN beyond c", "+inf beyond c", "-inf beyond c", "NaN on every k-th call", "throws on call k", "overflowing", "constant", "step", "ordinary", "+inf everywhere", "-inf everywhere", "pole", "inf on every k-th call", "square"};
  Hostile h; h.mode = (int)s.choice(14); h.c = s.real(-2, 2); h.a = s.real(-3, 3); h.w = s.real(0.2, 3); h.p = s.real(-1.5, 1.5); h.k = (int)s.i(1, 60); h.name = nm[h.mode]; return h; }
struct Rec { bool conv = false; vector<double> v; bool hasStatus = false; AlgorithmStatus st = AlgorithmStatus::Success; string err; bool threw = false; string what; };
Rec R(const RootFinding::RootFindingResult& r) { return {r.converged, {r.root, r.function_value}, true, r.status, r.error_message}; }
Rec R(const MinimizationResult& r) { return {r.converged, {r.xmin, r.fmin}, true, r.status, r.error_message}; }
Rec R(const MultidimMinimizationResult& r) { Rec o{r.converged, {r.fmin}, true, r.status, r.error_message}; for (int i = 0; i < r.xmin.size(); i++) o.v.push_back(r.xmin[i]); return o; }
Rec R(const IntegrationResult& r) { return {r.converged, {r.value}}; }
Rec R(const GKResult& r) { return {r.converged, {r.value}}; }
template <class F> Rec run(F f) { try { return f(); } catch (const Injected&) { Rec r; r.threw = true; r.what = "injected"; return r; } catch (const Runaway&) { Rec r; r.threw = true; r.what = "runaway"; return r; } catch (const std::exception& e) { Rec r; r.threw = true; r.what = e.what(); return r; } }
string rs(const Rec& r) { string o = r.threw ? "threw " + r.what : string(r.conv ? "converged" : "not converged") + " value"; for (double d : r.v) o += " " + fmt(d); if (r.hasStatus) o += " status " + std::to_string((int)r.st) + " '" + r.err + "'"; return o; }
void judge(const Rec& r, const Hostile& h, const string& alg) {
  CHECK(!h.ran, alg << " on a function that is " << h.name << " needed more than " << h.limit << " evaluations (" << rs(r) << ")"); if (r.threw) return;
  CHECK(!(h.threw && r.conv), alg << " swallowed an exception of the callback and reports convergence: " << rs(r));
  if (r.conv) { for (double d : r.v) CHECK(std::isfinite(d), alg << " on a function that is " << h.name << " reports convergence with a non-finite answer: " << rs(r)); if (r.hasStatus) CHECK(r.st == AlgorithmStatus::Success && r.err.empty(), alg << ": " << rs(r)); }
  else if (r.hasStatus) CHECK(r.st != AlgorithmStatus::Success && !r.err.empty(), alg << " on a function that is " << h.name << " did not converge but the status says otherwise: " << rs(r)); }
struct F1 : IRealFunction { const Hostile& h; F1(const Hostile& q) : h(q) {} Real operator()(Real x) const override { return h.eval(x); } };
template <int N> struct FN : IDifferentiableScalarFunction<N> { const Hostile& h; FN(const Hostile& q) : h(q) {} double g(double x) const { return h.mode == 9 || h.mode == 6 || h.mode == 5 || h.mode == 4 || h.mode <= 3 ? x * x : 1; }
  Real operator()(const VectorN<Real, N>& x) const override { double s = 0; for (int i = 0; i < N; i++) s += (x[i] - h.p) * (x[i] - h.p) * (1 + i); double v = h.eval(x[0]); return h.mode == 7 ? 3.0 : v * v * 0.3 + s; }
  void Gradient(const VectorN<Real, N>& x, VectorN<Real, N>& gr) const override { VectorN<Real, N> y = x; for (int i = 0; i < N; i++) { double e = 1e-6; y[i] = x[i] + e; double u = (*this)(y); y[i] = x[i] - e; double d = (*this)(y); y[i] = x[i]; gr[i] = (u - d) / (2 * e); } } }; }

LAW(root_finders, 2500, 80000) {
  using namespace RootFinding; Hostile h = gen(s); F1 f(h); RootFindingConfig cf; cf.max_iterations = (int)s.i(1, 200); cf.tolerance = s.pick<double>({1e-3, 1e-8, 1e-12, 1e-300}); double a = s.real(-3, 0), b = a + s.real(0.1, 4); int k = (int)s.choice(5); static const char* nm[] = {"FindRootBisection", "FindRootFalsePosition", "FindRootNewton", "FindRootSecant", "FindRootRidders", "FindRootBrent"};
  c.nontrivial(h.mode != 9); c.label(h.name); c.label(nm[k]); c.say([&](auto& o) { o << nm[k] << " on [" << a << "," << b << "] function " << h.name << " c=" << h.c << " a=" << h.a << " w=" << h.w << " p=" << h.p << " k=" << h.k << " max " << cf.max_iterations << " tol " << cf.tolerance; });
  Rec r = run([&] { switch (k) { case 0: return R(FindRootBisection(f, a, b, cf)); case 1: return R(FindRootFalsePosition(f, a, b, cf)); case 2: return R(FindRootNewton(f, a, b, cf)); case 3: return R(FindRootSecant(f, a, b, cf)); case 4: return R(FindRootRidders(f, a, b, cf)); default: return R(FindRootBrent(f, a, b, cf)); } }); judge(r, h, nm[k]);
  if (h.mode == 0) CHECK(!r.conv, nm[k] << " found a root of a function that is NaN everywhere: " << rs(r)); if (h.mode == 10 || h.mode == 11) CHECK(!r.conv, nm[k] << " found a root of an infinite function");
  // the throwing form returns a finite root or throws
  h.n = 0; h.threw = h.ran = false; Rec q = run([&] { double x = 0, e = 1e-8; switch (k) { case 0: x = FindRootBisection(f, a, b, e); break; case 1: x = FindRootFalsePosition(f, a, b, e); break; case 2: x = FindRootNewton(f, a, b, e); break; case 3: x = FindRootSecant(f, a, b, e); break; case 4: x = FindRootRidders(f, a, b, e); break; default: x = FindRootBrent(f, a, b, e); } return Rec{true, {x}}; }); judge(q, h, string(nm[k]) + " (throwing form)");
  if (h.mode == 0 || h.mode >= 10) if (h.mode <= 11) CHECK(q.threw, nm[k] << " (throwing form) returned " << rs(q) << " for a function that is " << h.name);
}
LAW(integrators, 2500, 80000) {
  Hostile h = gen(s); F1 f(h); double a = s.real(-3, 2), b = a + s.real(0.01, 4), e = s.pick<double>({1e-3, 1e-6, 1e-10}); auto g = [&](Real x) { return h.eval(x); }; int k = (int)s.choice(15); static const char* nm[] = {"Trap", "Simpson", "Romberg", "Gauss10", "GK15", "GK21", "GK31", "GKAdaptive15", "GKAdaptive21", "GKAdaptive31", "GaussLegendre", "GaussHermite", "Open", "UpperInf", "LowerSingular", "Inf"}; string alg = string("Integrate") + nm[k];
  c.nontrivial(h.mode != 9); c.label(h.name); c.label(nm[k]); c.say([&](auto& o) { o << alg << " on [" << a << "," << b << "] eps " << e << " function " << h.name << " c=" << h.c << " a=" << h.a << " w=" << h.w << " p=" << h.p << " k=" << h.k; }); h.limit = 4000000;
  if (k >= 12) h.limit = 300000;
  if (k >= 7 && k <= 9 && (h.mode == 4 || h.mode == 13 || h.mode == 12 || h.mode == 6)) h.limit = 40000000;
  Rec r = run([&] { switch (k) { case 0: return R(IntegrateTrap(f, a, b, e)); case 1: return R(IntegrateSimpson(f, a, b, e)); case 2: return R(IntegrateRomberg(f, a, b, e)); case 3: return R(IntegrateGauss10(f, a, b)); case 4: return R(IntegrateGK15(g, a, b)); case 5: return R(MML::Integration::IntegrateGK21(g, a, b)); case 6: return R(IntegrateGK31(g, a, b));
    case 7: return R(IntegrateGKAdaptive(g, a, b, e, e, 40, GKRule::GK15)); case 8: return R(IntegrateGKAdaptive(g, a, b, e, e, 40, GKRule::GK21)); case 9: return R(IntegrateGKAdaptive(g, a, b, e, e, 40, GKRule::GK31)); case 10: return R(IntegrateGaussLegendre(f, a, b, 12)); case 11: return R(IntegrateGaussHermite(f, 12)); case 12: return R(IntegrateOpen(f, a, b, e)); case 13: return R(IntegrateUpperInf(f, 1 + std::abs(a), e)); case 14: return R(IntegrateLowerSingular(f, a, b, e)); default: return R(IntegrateInf(f, e)); } });
  if (k >= 12 && h.ran && h.mode != 0 && h.mode != 10 && h.mode != 11) DISCARD_IF(true);  // finite but not integrable: the documented 20 refinements cost 3^19 evaluations
  judge(r, h, alg);
  if (h.mode == 0 && !r.threw) CHECK(!r.conv && !std::isfinite(r.v[0]), alg << " of a function that is NaN everywhere: " << rs(r));
}
LAW(minimisers_1d, 2500, 80000) {
  Hostile h = gen(s); F1 f(h); Minimization1DConfig cf; cf.max_iterations = (int)s.i(1, 200); cf.tolerance = s.pick<double>({1e-3, 1e-8, 1e-12}); double a = s.real(-3, 0), b = a + s.real(0.1, 4); int k = (int)s.choice(5); static const char* nm[] = {"GoldenSectionSearch", "BrentMinimize", "BrentMinimizeWithDeriv", "BrentMaximize", "BracketMinimum+BrentMinimize", "BracketMinimum+GoldenSection"};
  c.nontrivial(h.mode != 9); c.label(h.name); c.label(nm[k]); c.say([&](auto& o) { o << nm[k] << " on [" << a << "," << b << "] function " << h.name << " c=" << h.c << " a=" << h.a << " w=" << h.w << " p=" << h.p << " k=" << h.k << " max " << cf.max_iterations << " tol " << cf.tolerance; });
  RealFunctionFromStdFunc d([&](Real x) { return (h.eval(x + 1e-6) - h.eval(x - 1e-6)) / 2e-6; });
  Rec r = run([&] { switch (k) { case 0: return R(Minimization::GoldenSectionSearch(f, a, b, cf)); case 1: return R(Minimization::BrentMinimize(f, a, b, cf)); case 2: return R(Minimization::BrentMinimizeWithDeriv(f, d, a, b, cf)); case 3: return R(Minimization::BrentMaximize(f, a, b, cf)); case 4: { auto B = Minimization::BracketMinimum(f, a, b); return R(Minimization::BrentMinimize(f, B, cf.tolerance, cf.max_iterations)); } default: { auto B = Minimization::BracketMinimum(f, a, b); return R(Minimization::GoldenSectionSearch(f, B, cf.tolerance)); } } }); if (k >= 4) r.hasStatus = false; judge(r, h, nm[k]);
  if (h.mode == 0) CHECK(!r.conv, nm[k] << " minimised a function that is NaN everywhere: " << rs(r));
}
LAW(minimisers_nd, 1200, 40000) {
  Hostile h = gen(s); FN<2> f(h); VectorN<Real, 2> x0{s.real(-3, 3), s.real(-3, 3)}; MultidimOptimizationConfig cf; cf.max_iterations = (int)s.i(1, 400); cf.tolerance = s.pick<double>({1e-4, 1e-8}); int k = (int)s.choice(4); static const char* nm[] = {"NelderMeadMinimize", "PowellMinimize", "ConjugateGradientMinimize", "BFGSMinimize", "LBFGSMinimize"};
  c.nontrivial(h.mode != 9); c.label(h.name); c.label(nm[k]); c.say([&](auto& o) { o << nm[k] << " from (" << x0[0] << "," << x0[1] << ") function " << h.name << " c=" << h.c << " a=" << h.a << " w=" << h.w << " p=" << h.p << " k=" << h.k << " max " << cf.max_iterations; }); h.limit = 3000000;
  Rec r = run([&] { switch (k) { case 0: return R(NelderMeadMinimize<2>(f, x0, cf)); case 1: return R(PowellMinimize<2>(f, x0, cf)); case 2: return R(ConjugateGradientMinimize<2>(f, x0, cf)); case 3: return R(BFGSMinimize<2>(f, x0, cf)); default: return R(LBFGSMinimize<2>(f, x0, cf)); } }); judge(r, h, nm[k]);
  if (h.mode == 0) CHECK(!r.conv, nm[k] << " minimised a function that is NaN everywhere: " << rs(r));
}

namespace {
template <class S> ODESystemSolution ad(const IODESystem& sys, const Vector<Real>& x0, double T0, double T1, int np, double eps, bool at) { ODEAdaptiveIntegrator<S> I(sys); if (!at) return I.integrate(x0, T0, T1, (T1 - T0) / np, eps); Vector<Real> ts(np + 1); for (int i = 0; i <= np; i++) ts[i] = i == np ? T1 : T0 + (T1 - T0) * i / np; return I.integrateAt(x0, ts, eps); }
string sv(const ODESystemSolution& so) { string o; for (int i = 0; i < so.size() && i < 6; i++) o += " t=" + fmt(so.getTValue(i)) + " x=" + fmt(so.getXValue(i, 0)); return o; } }

// A system y_0' = F(t) - y_0, y_i' = y_{i-1} - y_i, where F misbehaves: the solver must finish, and hand back only finite states (or say that it failed).
LAW(ode_solvers, 2500, 60000) {
  Hostile h = gen(s); if (h.mode == 4 || h.mode == 13) h.mode = 1; static const char* hm[] = {"NaN everywhere", "NaN beyond c", "+inf beyond c", "-inf beyond c", "", "throws on call k", "overflowing", "constant", "step", "ordinary", "+inf everywhere", "-inf everywhere", "pole"}; if (h.mode > 12) h.mode = 9; h.name = hm[h.mode];
  int n = (int)s.i(1, 3), k = (int)s.choice(7), np = (int)s.i(1, 12); bool at = s.b(), onY = s.chance(1, 4), cfg = s.b(); double T0 = s.real(-2, 1), T1 = T0 + s.real(0.1, 3), eps = s.pick<double>({1e-4, 1e-7, 1e-10}), st = (T1 - T0) / (int)s.i(3, 60); static const char* nm[] = {"DormandPrince5", "CashKarp", "DormandPrince8", "BulirschStoer", "BulirschStoerRational", "BackwardEuler", "BDF2", "Rosenbrock23"};
  Vector<Real> x0(n); for (int i = 0; i < n; i++) x0[i] = s.real(-1, 1);
  auto F = [&](Real t, const Vector<Real>& y, Vector<Real>& f) { double q = h.eval(onY ? y[0] : t); f[0] = q - y[0]; for (int i = 1; i < n; i++) f[i] = y[i - 1] - y[i]; };
  ODESystemFromStdFunc sys(n, F); ODESystemWithJacobianFromStdFunc stiff(n, F, [&](const Real t, const Vector<Real>& y, Vector<Real>& f, Matrix<Real>& J) { F(t, y, f); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) J(i, j) = i == j ? -1 : j == i - 1 ? 1 : 0; if (onY) { double u = h.eval(y[0] + 1e-6), d = h.eval(y[0] - 1e-6); J(0, 0) += (u - d) / 2e-6; } });
  c.nontrivial(h.mode != 9 && h.mode != 7); c.label(nm[k]); c.label(h.name); c.say([&](auto& o) { o << nm[k] << (k < 5 ? at ? " integrateAt" : " integrate" : cfg ? " config" : "") << " n=" << n << " t in [" << fmt(T0) << "," << fmt(T1) << "] outputs " << np << " eps " << eps << " step " << st << (onY ? " F of y_0" : " F of t") << " F is " << h.name << " c=" << h.c << " a=" << h.a << " w=" << h.w << " p=" << h.p << " k=" << h.k; });
  h.limit = 3000000; ODESystemSolution so(T0, T1, n, 1); AlgorithmStatus stt = AlgorithmStatus::Success; string err;
  Rec r = run([&] { switch (k) { case 0: so = ad<DormandPrince5_Stepper>(sys, x0, T0, T1, np, eps, at); break; case 1: so = ad<CashKarp_Stepper>(sys, x0, T0, T1, np, eps, at); break; case 2: so = ad<DormandPrince8_Stepper>(sys, x0, T0, T1, np, eps, at); break; case 3: so = ad<BulirschStoer_Stepper>(sys, x0, T0, T1, np, eps, at); break; case 4: so = ad<BulirschStoerRational_Stepper>(sys, x0, T0, T1, np, eps, at); break;
    case 5: case 6: if (cfg) { StiffSolverConfig C; C.step_size = st; auto q = k == 5 ? SolveBackwardEuler(stiff, T0, x0, T1, C) : SolveBDF2(stiff, T0, x0, T1, C); so = q.solution; stt = q.status; err = q.error_message; } else so = k == 5 ? SolveBackwardEuler(stiff, T0, x0, T1, st) : SolveBDF2(stiff, T0, x0, T1, st); break;
    default: { Rosenbrock23Solver ro(stiff, eps, eps); so = ro.Solve(T0, x0, T1, st, 20000); } } return Rec{true}; });
  DISCARD_IF(h.ran && onY && k < 5);  // a state creeping towards a barrier by less than one ulp per admissible step: no step limit is documented for the plain integrators
  CHECK(!h.ran, nm[k] << " on a derivative that is " << h.name << " needed more than " << h.limit << " evaluations"); if (r.threw) return;
  if (h.threw) CHECK(stt != AlgorithmStatus::Success && !err.empty(), nm[k] << " swallowed an exception of the derivative and reports success:" << sv(so));
  if (stt != AlgorithmStatus::Success) { CHECK(!err.empty(), nm[k] << " failed without a message"); return; }
  int N = so.size(); CHECK(N >= 2, "no states"); for (int i = 0; i < N; i++) for (int j = 0; j < n; j++) CHECK(std::isfinite(so.getXValue(i, j)), nm[k] << " on a derivative that is " << h.name << " returns a non-finite state as success:" << sv(so));
  CHECK(std::abs(so.getTValue(N - 1) - T1) <= 1e-9 * (1 + std::abs(T1)), nm[k] << " stopped at t=" << fmt(so.getTValue(N - 1)) << " without saying so"); CHECK(std::abs(so.getTValue(0) - T0) <= 1e-12, "start");
}
LAW(eigen_solvers, 2500, 60000) {
  int n = (int)s.i(1, 6), k = (int)s.choice(2); bool cfg = s.b(); double tol = s.pick<double>({1e-6, 1e-10, 1e-300, 0.0}); int mi = (int)s.i(1, 60); static const char* nm[] = {"SymmMatEigenSolverJacobi", "SymmMatEigenSolverQR", "EigenSolver"}; static const char* bad[] = {"NaN", "+inf", "-inf", "1e308", "-1e308", "1e200", "no bad entry"};
  Matrix<Real> A(n, n); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { A(i, j) = s.chance(1, 4) ? 0 : s.real(-3, 3); A(j, i) = k < 2 ? (double)A(i, j) : s.chance(1, 4) ? 0 : s.real(-3, 3); }
  int bk = (int)s.choice(6), cnt = bk == 6 ? 0 : (int)s.i(1, s.b() ? 1 : n * n); static const double bv[] = {NAN, INFINITY, -INFINITY, 1e308, -1e308, 1e200}; for (int q = 0; q < cnt; q++) { int i = (int)s.i(0, n - 1), j = (int)s.i(0, n - 1); A(i, j) = bv[bk]; if (k < 2) A(j, i) = bv[bk]; }
  c.nontrivial(bk != 6); c.label(nm[k]); c.label(bad[bk]); c.say([&](auto& o) { o << nm[k] << (cfg ? " config" : "") << " tol " << tol << " max iterations " << mi << " matrix"; for (int i = 0; i < n; i++) { o << " [";  for (int j = 0; j < n; j++) o << fmt(A(i, j)) << " "; o << "]"; } });
  int it = 0; EigenSolverConfig C; C.tolerance = tol; C.max_iterations = mi; bool vf = true; string what;
  auto rec = [&](auto r) { Rec o; o.conv = r.converged; o.hasStatus = cfg; o.st = r.status; o.err = r.error_message; it = r.iterations; for (int i = 0; i < r.eigenvectors.rows(); i++) for (int j = 0; j < r.eigenvectors.cols(); j++) if (!std::isfinite(r.eigenvectors(i, j))) vf = false; return o; };
  Rec r = run([&]() -> Rec { if (k == 0) { auto q = cfg ? SymmMatEigenSolverJacobi::Solve(A, C) : SymmMatEigenSolverJacobi::Solve(A, tol, mi); Rec o = rec(q); for (int i = 0; i < n; i++) o.v.push_back(q.eigenvalues[i]); return o; }
    if (k == 1) { auto q = cfg ? SymmMatEigenSolverQR::Solve(A, C) : SymmMatEigenSolverQR::Solve(A, tol, mi); Rec o = rec(q); for (int i = 0; i < n; i++) o.v.push_back(q.eigenvalues[i]); return o; }
    auto q = cfg ? EigenSolver::Solve(A, C) : EigenSolver::Solve(A, tol, mi); Rec o = rec(q); for (auto& z : q.eigenvalues) { o.v.push_back(z.real); o.v.push_back(z.imag); } return o; });
  if (r.threw) return; CHECK((int)r.v.size() == (k == 2 ? 2 * n : n), nm[k] << " returned " << r.v.size() << " eigenvalues");
  CHECK(it <= mi * (k == 1 ? n : 1) + 2, nm[k] << " made " << it << " iterations with a maximum of " << mi);
  if (r.conv) { for (double d : r.v) CHECK(std::isfinite(d), nm[k] << " reports convergence with a non-finite eigenvalue: " << rs(r)); CHECK(vf, nm[k] << " reports convergence with non-finite eigenvectors: " << rs(r)); if (cfg) CHECK(r.st == AlgorithmStatus::Success && r.err.empty(), nm[k] << ": " << rs(r)); }
  else if (cfg) CHECK(r.st != AlgorithmStatus::Success && !r.err.empty(), nm[k] << " did not converge without saying why: " << rs(r));
}
