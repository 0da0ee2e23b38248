// C37 (second part): optimizer objects: settings, limits, start simplices and rejected inputs
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Function.h"
#include "algorithms/OptimizationMultidim.h"
using namespace MML::Optimization;
template<int N> struct Qd : public IDifferentiableScalarFunction<N> { // |L (x - m)|^2 / 2 + c with a unit lower triangular L
	double L[N][N], m[N], c = 0; mutable long calls = 0; mutable double best = 1e300; int fail = 0;
	Real operator()(const VectorN<Real, N>& x) const override { calls++; double q = 0; for (int i = 0; i < N; i++) { double v = 0; for (int j = 0; j <= i; j++) v += L[i][j] * (x[j] - m[j]); q += v * v; } if (fail && calls >= fail) return NAN; q = q / 2 + c; if (q < best) best = q; return q; }
	void Gradient(const VectorN<Real, N>& x, VectorN<Real, N>& g) const override { double v[N]; for (int i = 0; i < N; i++) { v[i] = 0; for (int j = 0; j <= i; j++) v[i] += L[i][j] * (x[j] - m[j]); } for (int j = 0; j < N; j++) { g[j] = 0; for (int i = j; i < N; i++) g[j] += L[i][j] * v[i]; } }
};
template<int N> static Qd<N> quad(Src& s) { Qd<N> q; for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) q.L[i][j] = j < i ? s.uni(-1, 1) : j == i ? s.uni(0.5, 2) : 0; q.m[i] = s.uni(-3, 3); } q.c = s.chance(1, 2) ? 0 : s.uni(-2, 2); return q; }
template<int N> static VectorN<Real, N> start(Src& s) { VectorN<Real, N> x; for (int i = 0; i < N; i++) x[i] = s.uni(-5, 5); return x; }
template<int N> static VectorN<Real, N> pt(const MultidimMinimizationResult& r) { VectorN<Real, N> x; for (int i = 0; i < N; i++) x[i] = r.xmin[i]; return x; }
template<int N> static void judge(const Qd<N>& f, const VectorN<Real, N>& x0, const MultidimMinimizationResult& r, const char* n, double need) { // what any answer must satisfy
	CHECK(r.xmin.size() == N, n << ": dimension"); auto x = pt<N>(r); double v = f(x), v0 = f(x0); CHECK_NEAR(v, r.fmin, 1e-12 * (1 + std::fabs(v)), n << ": reported value against the value at the point"); CHECK(r.fmin <= v0 + 1e-12 * (1 + std::fabs(v0)), n << ": worse than the start, " << r.fmin << " against " << v0); CHECK(r.fmin >= f.c - 1e-12 * (1 + std::fabs(f.c)), n << ": below the minimum");
	if (r.converged) CHECK(r.fmin - f.c <= need * (1 + std::fabs(f.c)), n << ": claims convergence " << r.fmin - f.c << " above the minimum");
}
template<int N> static void run(Src& s, Case& c) {
	auto f = quad<N>(s); auto x0 = start<N>(s); int k = (int)s.i(0, 4), lim = s.chance(1, 3) ? (int)s.i(1, 6) : 2000; double ft = s.pick({ 1e-12, 1e-10, 1e-8 }), gt = s.pick({ 1e-10, 1e-8 }); int mem = (int)s.i(1, 6);
	c.say([&](auto& o) { o << N << "-dim method " << k << " limit " << lim << " ftol " << ft << " memory " << mem; }); c.nontrivial(lim > 100); c.label(lim > 100 ? "free" : "limited"); MultidimMinimizationResult r; auto same = [&](auto& A) { CHECK(A.getFtol() == ft && A.getMaxIter() == lim, "settings not kept"); };
	auto tail = [&](auto& A) { CHECK(A.getCurrentFValue() == r.fmin, "current value " << A.getCurrentFValue() << " against " << r.fmin); CHECK(A.getIterations() <= lim, "iterations " << A.getIterations()); CHECK(r.iterations <= lim + 1, "reported iterations " << r.iterations << " limit " << lim); };
	if (k == 0) { Powell A; A.setFtol(ft); A.setMaxIter(lim); same(A); if (s.b()) { Matrix<Real> D(N, N, 0.0); for (int i = 0; i < N; i++) { D(i, i) = s.uni(0.5, 2); for (int j = 0; j < i; j++) D(i, j) = s.uni(-0.5, 0.5); } r = A.Minimize(f, x0, D); } else r = A.Minimize(f, x0); judge(f, x0, r, "Powell", 1e-4); tail(A); }
	else if (k == 1) { ConjugateGradient A; auto m = s.b() ? ConjugateGradient::Method::FletcherReeves : ConjugateGradient::Method::PolakRibiere; A.setFtol(ft); A.setGtol(gt); A.setMaxIter(lim); A.setMethod(m); same(A); CHECK(A.getGtol() == gt && A.getMethod() == m, "settings not kept"); r = A.Minimize(f, x0); judge(f, x0, r, "ConjugateGradient", 1e-4); tail(A); }
	else if (k == 2) { BFGS A; A.setFtol(ft); A.setGtol(gt); A.setMaxIter(lim); same(A); CHECK(A.getGtol() == gt, "settings not kept"); r = A.Minimize(f, x0); judge(f, x0, r, "BFGS", 1e-4); tail(A); }
	else if (k == 3) { LBFGS A; A.setFtol(ft); A.setGtol(gt); A.setMaxIter(lim); A.setMemorySize(mem); same(A); CHECK(A.getGtol() == gt && A.getMemorySize() == mem, "settings not kept"); r = A.Minimize(f, x0); judge(f, x0, r, "LBFGS", 1e-4); tail(A); }
	else { NelderMead A; if (lim < 100) lim *= 8; A.setFtol(ft); A.setMaxIter(lim); same(A); int how = (int)s.i(0, 2); Vector<Real> d(N); Matrix<Real> P(N + 1, N); for (int i = 0; i < N; i++) d[i] = s.uni(0.3, 2) * (s.b() ? 1 : -1); for (int i = 0; i <= N; i++) for (int j = 0; j < N; j++) P(i, j) = x0[j] + (i == j + 1 ? d[j] : 0); f.calls = 0; f.best = 1e300;
		r = how == 0 ? A.Minimize(f, x0, 1.0) : how == 1 ? A.Minimize(f, x0, d) : A.Minimize(f, P); long used = f.calls; double best = f.best; CHECK(A.getNumFuncEvals() <= used && used <= A.getNumFuncEvals() + N + 3, "evaluations " << A.getNumFuncEvals() << ", made " << used); CHECK_NEAR(r.fmin, best, 1e-12 * (1 + std::fabs(best)), "not the best vertex"); judge(f, x0, r, "NelderMead", 1e-4);
		auto& S = A.getSimplex(); auto& Y = A.getSimplexValues(); CHECK(S.rows() == N + 1 && S.cols() == N && Y.size() == N + 1, "simplex shape"); for (int i = 0; i <= N; i++) { VectorN<Real, N> v; for (int j = 0; j < N; j++) v[j] = S(i, j); CHECK_NEAR(f(v), Y[i], 1e-9 * (1 + std::fabs(Y[i])), "vertex value " << i); CHECK(r.fmin <= Y[i] + 1e-12 * (1 + std::fabs(Y[i])), "vertex " << i << " is better"); } }
	if (lim >= 2000) CHECK(r.converged, "no convergence on a well conditioned quadratic, method " << k);
}
LAW(optimizer_objects, 700, 7000) { int n = (int)s.i(0, 2); if (n == 0) run<1>(s, c); else if (n == 1) run<2>(s, c); else run<4>(s, c); }

LAW(configured, 500, 5000) { // configuration presets, limits and the diagnostics they produce
	auto f = quad<2>(s); auto x0 = start<2>(s); int k = (int)s.i(0, 5), pre = (int)s.i(0, 4), lim = s.chance(1, 3) ? (int)s.i(1, 4) : 0, mem = (int)s.i(2, 30); MultidimOptimizationConfig C = pre == 0 ? MultidimOptimizationConfig() : pre == 1 ? MultidimOptimizationConfig::HighPrecision() : pre == 2 ? MultidimOptimizationConfig::Fast() : pre == 3 ? MultidimOptimizationConfig::LargeScale(mem) : MultidimOptimizationConfig(1e-9, 3000);
	if (pre == 1) CHECK(C.tolerance < 1e-10 && C.max_iterations >= 5000, "high precision preset"); if (pre == 2) CHECK(C.tolerance > 1e-6 && C.max_iterations < 5000, "fast preset"); if (pre == 3) CHECK(C.lbfgs_memory_size == mem, "memory preset"); if (pre == 4) CHECK(C.tolerance == 1e-9 && C.max_iterations == 3000, "plain configuration"); if (lim) C.max_iterations = lim;
	c.say([&](auto& o) { o << "method " << k << " preset " << pre << " limit " << lim; }); c.nontrivial(!lim); struct Neg : IScalarFunction<2> { const Qd<2>* q; Real operator()(const VectorN<Real, 2>& x) const override { return -(*q)(x); } } ng; ng.q = &f; f.calls = 0;
	MultidimMinimizationResult r = k == 0 ? NelderMeadMinimize(f, x0, C) : k == 1 ? NelderMeadMaximize(ng, x0, C) : k == 2 ? PowellMinimize(f, x0, C) : k == 3 ? ConjugateGradientMinimize(f, x0, C) : k == 4 ? BFGSMinimize(f, x0, C) : LBFGSMinimize(f, x0, C);
	auto q = r; if (k == 1) q.fmin = -r.fmin; judge(f, x0, q, "configured", pre == 2 ? 0.05 : 1e-4); CHECK((r.status == AlgorithmStatus::Success) == r.converged, "status " << (int)r.status << " converged " << r.converged); CHECK(r.converged || (r.status == AlgorithmStatus::MaxIterationsExceeded && !r.error_message.empty()), "failure not reported"); CHECK(!r.converged || r.error_message.empty(), "message on success"); CHECK(r.converged || lim, "no convergence under " << C.max_iterations << " iterations"); CHECK(!r.algorithm_name.empty(), "name"); CHECK(r.function_evaluations >= 0 && r.elapsed_time_ms >= 0, "diagnostics");
}
LAW(bad_inputs, 300, 3000) { // refused inputs
	auto f = quad<2>(s); auto x0 = start<2>(s); int k = (int)s.i(0, 4), w = (int)s.i(0, 5); double bad = s.pick({ (double)NAN, HUGE_VAL, -HUGE_VAL }); c.say([&](auto& o) { o << "method " << k << " defect " << w << " value " << bad; }); c.nontrivial(true);
	auto go = [&](double ft, double gt, int lim, VectorN<Real, 2> x) { if (k == 0) { NelderMead A(ft, lim); A.Minimize(f, x, 1.0); } else if (k == 1) { Powell A(ft, lim); A.Minimize(f, x); } else if (k == 2) { ConjugateGradient A(ft, gt, lim); A.Minimize(f, x); } else if (k == 3) { BFGS A(ft, gt, lim); A.Minimize(f, x); } else { LBFGS A(ft, gt, lim, (int)s.i(1, 4)); A.Minimize(f, x); } };
	if (w == 0) { x0[(int)s.i(0, 1)] = bad; CHECK_THROWS(go(1e-8, 1e-8, 100, x0), std::exception, "start with " << bad); }
	else if (w == 1) { double t = s.pick({ 0.0, -1e-8, (double)NAN }); CHECK_THROWS(go(t, 1e-8, 100, x0), std::exception, "tolerance " << t); if (k >= 2) CHECK_THROWS(go(1e-8, t, 100, x0), std::exception, "gradient tolerance " << t); }
	else if (w == 2) { int l = (int)s.i(-2, 0); CHECK_THROWS(go(1e-8, 1e-8, l, x0), std::exception, "limit " << l); }
	else if (w == 3) { f.fail = 1; CHECK_THROWS(go(1e-8, 1e-8, 100, x0), std::exception, "an undefined first value"); }
	else if (w == 4) { NelderMead A; Vector<Real> d(2); d[0] = d[1] = 1; d[(int)s.i(0, 1)] = s.b() ? 0 : bad; CHECK_THROWS(A.Minimize(f, x0, d), std::exception, "step " << bad); Vector<Real> e(3); e[0] = e[1] = e[2] = 1; CHECK_THROWS(A.Minimize(f, x0, e), std::exception, "three steps in two dimensions"); Matrix<Real> P(3, 2, 0.0); P(1, 0) = P(2, 1) = 1; P((int)s.i(0, 2), (int)s.i(0, 1)) = bad; CHECK_THROWS(A.Minimize(f, P), std::exception, "simplex with " << bad); Matrix<Real> Q((int)s.pick({ 2, 4 }), 2, 1.0), R(3, 3, 1.0); CHECK_THROWS(A.Minimize(f, Q), std::exception, "simplex rows"); CHECK_THROWS(A.Minimize(f, R), std::exception, "simplex columns"); }
	else { Powell A; Matrix<Real> D(2, 2, 0.0); D(0, 0) = D(1, 1) = 1; D((int)s.i(0, 1), (int)s.i(0, 1)) = bad; CHECK_THROWS(A.Minimize(f, x0, D), std::exception, "direction with " << bad); LBFGS B; B.setMemorySize((int)s.i(-2, 0)); CHECK_THROWS(B.Minimize(f, x0), std::exception, "no memory"); }
}
