// C37: multi-dimensional minimisers on convex quadratics and smooth convex functions with a known minimum
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Function.h"
#include "algorithms/OptimizationMultidim.h"

using namespace MML::Optimization;
template<int N> struct Obj : public IDifferentiableScalarFunction<N> {
	int kind = 0; double Q[N][N], D[N], m[N], c = 0; mutable long calls = 0;
	void u(const VectorN<Real, N>& x, double* v) const { for (int i = 0; i < N; i++) { v[i] = 0; for (int j = 0; j < N; j++) v[i] += Q[i][j] * (x[j] - m[j]); } }
	Real operator()(const VectorN<Real, N>& x) const override { calls++; double v[N]; u(x, v); double q = 0; switch (kind) { case 0: for (int i = 0; i < N; i++) q += D[i] * v[i] * v[i] / 2; return q + c; case 1: for (int i = 0; i < N; i++) q += D[i] * (std::cosh(std::min(600.0, std::max(-600.0, v[i]))) - 1); return q + c; case 2: for (int i = 0; i < N; i++) q += D[i] * v[i] * v[i]; return std::sqrt(1 + q) - 1 + c; case 3: for (int i = 0; i < N; i++) q += D[i] * v[i] * v[i] / 2; return q + q * q / 4 + c; case 4: { double X = x[0] - m[0] + 1, Y = N > 1 ? x[N > 1 ? 1 : 0] - m[N > 1 ? 1 : 0] + 1 : 0, s2 = 0; if (N == 1) return D[0] * (1 - X) * (1 - X) + c; for (int i = 2; i < N; i++) s2 += D[i] * (x[i] - m[i]) * (x[i] - m[i]); return (1 - X) * (1 - X) + 10 * D[0] * (Y - X * X) * (Y - X * X) + s2 + c; }
		default: { for (int i = 0; i < N; i++) { double z = x[i] - m[i] + 1; if (!(z > 0)) return kind == 5 ? HUGE_VAL : std::log(-1.0 - std::fabs(z)); q += D[i] * (z - 1 - std::log(z)); } return q + c; } } }
	void Gradient(const VectorN<Real, N>& x, VectorN<Real, N>& g) const override { double v[N], w[N]; u(x, v); double q = 0; for (int i = 0; i < N; i++) q += D[i] * v[i] * v[i]; if (kind == 4) { double X = x[0] - m[0] + 1; if (N == 1) { g[0] = -2 * D[0] * (1 - X); return; } double Y = x[N > 1 ? 1 : 0] - m[N > 1 ? 1 : 0] + 1; g[0] = -2 * (1 - X) - 40 * D[0] * X * (Y - X * X); g[N > 1 ? 1 : 0] = 20 * D[0] * (Y - X * X); for (int i = 2; i < N; i++) g[i] = 2 * D[i] * (x[i] - m[i]); return; } if (kind >= 5) { for (int i = 0; i < N; i++) { double z = x[i] - m[i] + 1; g[i] = z > 0 ? D[i] * (1 - 1 / z) : std::log(-1.0); } return; } for (int i = 0; i < N; i++) w[i] = kind == 0 ? D[i] * v[i] : kind == 1 ? D[i] * std::sinh(std::min(600.0, std::max(-600.0, v[i]))) : kind == 2 ? D[i] * v[i] / std::sqrt(1 + q) : D[i] * v[i] * (1 + q / 4); for (int j = 0; j < N; j++) { g[j] = 0; for (int i = 0; i < N; i++) g[j] += Q[i][j] * w[i]; } }
	double big() const { double b = std::fabs(c) ; for (int i = 0; i < N; i++) b += D[i]; return b; }
};
template<int N> struct Neg : public IScalarFunction<N> { const Obj<N>& f; Neg(const Obj<N>& F) : f(F) {} Real operator()(const VectorN<Real, N>& x) const override { return -f(x); } };
template<int N> static Obj<N> gen(Src& s, int kmax) { Obj<N> F; F.kind = s.b() ? 0 : (int)s.i(0, kmax); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) F.Q[i][j] = i == j; if (s.chance(3, 4)) for (int a = 0; a < N; a++) for (int b = a + 1; b < N; b++) { double t = s.uni(-3, 3); for (int j = 0; j < N; j++) { double p = F.Q[a][j], q = F.Q[b][j]; F.Q[a][j] = p * std::cos(t) - q * std::sin(t); F.Q[b][j] = p * std::sin(t) + q * std::cos(t); } } double e = s.pick({ 0.3, 0.6, 1.0 }); for (int i = 0; i < N; i++) { F.D[i] = s.pwide(-e, e); F.m[i] = s.uni(-3, 3); } F.c = s.b() ? 0 : s.uni(-5, 5); return F; }
template<int N> static VectorN<Real, N> start(Src& s, const Obj<N>& F) { VectorN<Real, N> x; for (int i = 0; i < N; i++) x[i] = F.kind >= 5 ? F.m[i] + s.uni(-0.95, 3) : F.kind == 1 || F.kind == 4 ? F.m[i] + s.uni(-3, 3) : s.chance(1, 8) ? F.m[i] : s.uni(-10, 10); return x; }
template<int N> static std::string show(const Obj<N>& F, const VectorN<Real, N>& x) { std::ostringstream o; o << "N=" << N << " kind " << F.kind << " c=" << fmt(F.c) << " D="; for (int i = 0; i < N; i++) o << fmt(F.D[i]) << ","; o << " m="; for (int i = 0; i < N; i++) o << fmt(F.m[i]) << ","; o << " start="; for (int i = 0; i < N; i++) o << fmt(x[i]) << ","; o << " Q0="; for (int i = 0; i < N; i++) o << fmt(F.Q[0][i]) << ","; return o.str(); }
static const char* NM[6] = { "NelderMead", "Powell", "CG-PR", "CG-FR", "BFGS", "LBFGS" };
template<int N> static MultidimMinimizationResult run(int M, const Obj<N>& F, const VectorN<Real, N>& x, double tol, int cfg, int it, int mem, double delta) { MultidimOptimizationConfig C(tol, it); C.lbfgs_memory_size = mem; C.initial_delta = delta; if (cfg) switch (M) { case 0: return NelderMeadMinimize<N>(F, x, C); case 1: return PowellMinimize<N>(F, x, C); case 2: return ConjugateGradientMinimize<N>(F, x, C); case 3: return ConjugateGradientMinimize<N>(F, x, C, ConjugateGradient::Method::FletcherReeves); case 4: return BFGSMinimize<N>(F, x, C); default: return LBFGSMinimize<N>(F, x, C); } switch (M) { case 0: return NelderMeadMinimize<N>(F, x, delta, tol); case 1: return PowellMinimize<N>(F, x, tol); case 2: return ConjugateGradientMinimize<N>(F, x, tol); case 3: return ConjugateGradientMinimize<N>(F, x, tol, ConjugateGradient::Method::FletcherReeves); case 4: return BFGSMinimize<N>(F, x, tol); default: return LBFGSMinimize<N>(F, x, tol, mem); } }
template<int N> static VectorN<Real, N> vec(const Vector<Real>& v) { VectorN<Real, N> r; for (int i = 0; i < N; i++) r[i] = v[i]; return r; }
template<int N> static double gap(int M, const Obj<N>& F, double tol, double f0, double fr) { double sc = std::fabs(F.c) + std::fabs(fr); double K = M == 0 ? 3e3 : M == 1 ? 300 : 300; return K * tol * sc + 1e-9 * std::min(1.0, F.big()) + K * tol * 1e-3 + 1e-15 * std::fabs(f0); }

template<int N> static void minimise(Src& s, Case& c) { Obj<N> F = gen<N>(s, 4); auto x = start<N>(s, F); int M = (int)s.i(0, 5); if (M == 0 && N > 3) M = 1; double tol = s.chance(1, 3) ? 3e-8 : s.pick({ 1e-6, 1e-7, 1e-8, 1e-10 }); int cfg = s.b(), mem = (int)s.i(1, 12); double delta = s.pick({ 1.0, 0.1, 3.0 }) * 1.0173; if (M == 0) for (int i = 0; i < N; i++) x[i] += 0.01234567891 * std::sqrt(2.0 + i) /* no vertex pairs placed symmetrically about the minimum */; c.label(NM[M]); c.say([&](auto& o) { o << NM[M] << " tol=" << fmt(tol) << (cfg ? " config" : "") << " mem=" << mem << " delta=" << fmt(delta) << " " << show<N>(F, x); }); auto r = run<N>(M, F, x, tol, cfg, 5000, mem, delta); c.nontrivial(r.converged && N > 1); CHECK(r.xmin.size() == N, "dimension"); double fr = F(vec<N>(r.xmin)), f0 = F(x); CHECK_NEAR(r.fmin, fr, 1e-13 * (std::fabs(fr) + std::fabs(F.c)) + 1e-300, "reported value is not the function at the reported point"); CHECK(r.fmin <= f0 + 1e-14 * (std::fabs(f0) + std::fabs(F.c)), "worse than the start: " << fmt(r.fmin) << " > " << fmt(f0)); CHECK(r.iterations >= 0 && (cfg == 0 || r.converged == (r.status == AlgorithmStatus::Success)), "status"); if (F.kind == 0 && M != 3 && M != 1) CHECK(r.converged, "not converged in " << r.iterations); if (r.converged) CHECK_NEAR(r.fmin, F.c, gap<N>(M, F, tol, f0, fr) * (F.kind == 4 ? 30 : 1) + (F.kind == 4 ? 0.01 * (f0 - F.c) : M == 1 ? 1e-4 * (f0 - F.c) : 0), "converged away from the minimum"); }
LAW(minimise, 2500, 30000) { switch ((int)s.i(1, 6)) { case 1: minimise<1>(s, c); break; case 2: minimise<2>(s, c); break; case 3: minimise<3>(s, c); break; case 4: minimise<4>(s, c); break; case 5: minimise<5>(s, c); break; default: minimise<8>(s, c); } }

// functions that are infinite or undefined outside a region: the search ends, with the minimum or with an error
template<int N> static void domain(Src& s, Case& c) { Obj<N> F = gen<N>(s, 0); F.kind = (int)s.i(5, 6); auto x = start<N>(s, F); int M = (int)s.i(0, 5); double tol = 1e-8; c.label(NM[M]); c.say([&](auto& o) { o << NM[M] << " " << show<N>(F, x); }); double f0 = F(x); c.nontrivial(true); try { auto r = run<N>(M, F, x, tol, 1, 2000, 6, 0.02); double fr = F(vec<N>(r.xmin)); CHECK(r.converged == (r.status == AlgorithmStatus::Success), "status"); if (r.converged) { CHECK(std::isfinite(fr), "converged outside the domain"); CHECK_NEAR(r.fmin, fr, 1e-13 * (std::fabs(fr) + std::fabs(F.c)), "value"); CHECK(r.fmin <= f0 + 1e-14 * (std::fabs(f0) + std::fabs(F.c)), "worse than the start"); CHECK_NEAR(r.fmin, F.c, 10 * gap<N>(M, F, tol, f0, fr), "converged away from the minimum"); } } catch (const std::exception& e) { c.label("error"); } }
LAW(domain, 600, 6000) { switch ((int)s.i(1, 3)) { case 1: domain<1>(s, c); break; case 2: domain<2>(s, c); break; default: domain<3>(s, c); } }

template<int N> static void maximise(Src& s, Case& c) { Obj<N> F = gen<N>(s, 3); auto x = start<N>(s, F); int cfg = s.b(); double tol = s.pick({ 1e-8, 1e-10 }), delta = s.pick({ 1.0, 0.3 }) * 1.0173; for (int i = 0; i < N; i++) x[i] += 0.01234567891 * std::sqrt(2.0 + i); c.say([&](auto& o) { o << "max cfg " << cfg << " " << show<N>(F, x); }); Neg<N> G(F); MultidimOptimizationConfig C(tol, 5000); C.initial_delta = delta; auto r = cfg ? NelderMeadMaximize<N>(G, x, C) : NelderMeadMaximize<N>(G, x, delta, tol); c.nontrivial(N > 1); CHECK(r.converged, "not converged"); CHECK(r.fmin == G(vec<N>(r.xmin)), "value"); CHECK(r.fmin >= G(x), "worse than the start"); CHECK_NEAR(r.fmin, -F.c, gap<N>(0, F, tol, G(x), r.fmin), "not the maximum");
	// per-axis steps and explicit simplex
	Vector<Real> d(N); Matrix<Real> S(N + 1, N); for (int i = 0; i < N; i++) { d[i] = s.uni(0.2, 2) * (s.b() ? 1 : -1); for (int k = 0; k <= N; k++) S(k, i) = x[i]; } for (int i = 0; i < N; i++) S(i + 1, i) += d[i]; auto r1 = NelderMeadMinimize<N>(F, x, d, tol); NelderMead nm(tol); auto r2 = nm.template Minimize<N>(F, S); CHECK(r1.fmin == r2.fmin && r1.converged && r2.converged, "the same simplex gives another result"); CHECK_NEAR(r1.fmin, F.c, gap<N>(0, F, tol, F(x), r1.fmin), "not the minimum"); auto& P = nm.getSimplex(); auto& Y = nm.getSimplexValues(); double best = 1e300; for (int k = 0; k <= N; k++) { VectorN<Real, N> v; for (int i = 0; i < N; i++) v[i] = P(k, i); CHECK(Y[k] == F(v), "simplex value " << k); best = std::min(best, (double)Y[k]); } CHECK(r2.fmin == best, "the result is not the best vertex"); }
LAW(nelder_mead, 600, 6000) { switch ((int)s.i(1, 3)) { case 1: maximise<1>(s, c); break; case 2: maximise<2>(s, c); break; default: maximise<3>(s, c); } }

template<int N> static void reported(Src& s, Case& c) { Obj<N> F = gen<N>(s, 4); auto x = start<N>(s, F); int M = (int)s.i(0, 5), it = (int)s.i(1, 6); c.say([&](auto& o) { o << NM[M] << " limit " << it << " " << show<N>(F, x); }); auto r = run<N>(M, F, x, 1e-10, 1, it, 4, 1.0); double fr = F(vec<N>(r.xmin)), f0 = F(x); c.nontrivial(!r.converged); CHECK(r.converged == (r.status == AlgorithmStatus::Success) && r.converged == r.error_message.empty(), "status"); CHECK(M == 0 || r.iterations <= it + (M == 5), "more iterations than allowed: " << r.iterations); CHECK_NEAR(r.fmin, fr, 1e-13 * (std::fabs(fr) + std::fabs(F.c)) + 1e-300, "value"); CHECK(r.fmin <= f0 + 1e-14 * (std::fabs(f0) + std::fabs(F.c)), "worse than the start"); if (r.converged) CHECK_NEAR(r.fmin, F.c, gap<N>(M, F, 1e-10, f0, fr) * (F.kind == 4 ? 30 : 1) + (F.kind == 4 ? 0.01 * (f0 - F.c) : M == 1 ? 1e-4 * (f0 - F.c) : 0), "converged away from the minimum"); double bad = s.pick({ 0.0, -1e-3, std::nan("") }); CHECK_THROWS(run<N>(M, F, x, bad, s.b(), 10, 4, 1.0), MultidimOptimizationInputError, "bad tolerance"); CHECK_THROWS(run<N>(M, F, x, 1e-8, 1, 0, 4, 1.0), MultidimOptimizationInputError, "no iterations"); auto y = x; y[(int)s.i(0, N - 1)] = s.pick({ std::nan(""), HUGE_VAL }); CHECK_THROWS(run<N>(M, F, y, 1e-8, 0, 10, 4, 1.0), MultidimOptimizationInputError, "bad start"); CHECK_THROWS(run<N>(0, F, x, 1e-8, 0, 10, 4, 0.0), MultidimOptimizationInputError, "zero step"); CHECK_THROWS(run<N>(5, F, x, 1e-8, s.b(), 10, 0, 1.0), MultidimOptimizationInputError, "no memory"); }
LAW(reported, 600, 6000) { switch ((int)s.i(1, 3)) { case 1: reported<1>(s, c); break; case 2: reported<2>(s, c); break; default: reported<4>(s, c); } }
