// C17 (second part): the same derivative through every interface (real, scalar, vector, tensor, curve), with and without step and error pointer
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "interfaces/ITensorField.h"
#include "base/Function.h"
#include "base/Tensor.h"
#include "core/Derivation/DerivationRealFunction.h"
#include "core/Derivation/DerivationScalarFunction.h"
#include "core/Derivation/DerivationVectorFunction.h"
#include "core/Derivation/DerivationTensorField.h"
#include "core/Derivation/DerivationParametricCurve.h"
using namespace MML::Derivation;
typedef VectorN<Real, 2> P2;
struct G { double a, b, p, w, e; double operator()(double x, double y) const { return a * std::sin(w * x + p * y) + b * std::exp(e * x - e * y) + p * x * x * y + a * b * x * y * y; } };
struct RF : IRealFunction { G g; double y; int k; Real operator()(Real t) const override { return k == 0 ? g(t, y) : g(y, t); } };
struct SF : IScalarFunction<2> { G g; Real operator()(const P2& x) const override { return g(x[0], x[1]); } };
struct VF : IVectorFunction<2> { G g[2]; P2 operator()(const P2& x) const override { return P2{ g[0](x[0], x[1]), g[1](x[0], x[1]) }; } };
struct F2 : ITensorField2<2> { G g[4]; F2() : ITensorField2<2>(1, 1) {} Real Component(int i, int j, const P2& x) const override { return g[i * 2 + j](x[0], x[1]); } Tensor2<2> operator()(const P2&) const override { return Tensor2<2>(1, 1); } };
struct F3 : ITensorField3<2> { G g[8]; F3() : ITensorField3<2>(1, 2) {} Real Component(int i, int j, int k, const P2& x) const override { return g[i * 4 + j * 2 + k](x[0], x[1]); } Tensor3<2> operator()(const P2&) const override { return Tensor3<2>(1, 2); } };
struct F4 : ITensorField4<2> { G g[16]; F4() : ITensorField4<2>(2, 2) {} Real Component(int i, int j, int k, int l, const P2& x) const override { return g[i * 8 + j * 4 + k * 2 + l](x[0], x[1]); } Tensor4<2> operator()(const P2&) const override { return Tensor4<2>(2, 2); } };
struct CF : IParametricCurve<3> { RF r; int c; VectorN<Real, 3> operator()(Real t) const override { VectorN<Real, 3> v; v[c] = r(t); return v; } Real getMinT() const override { return -1e9; } Real getMaxT() const override { return 1e9; } };
static G rg(Src& s) { return G{ s.uni(-2, 2), s.uni(-2, 2), s.uni(-1, 1), s.uni(0.3, 2), s.uni(-1, 1) }; }
struct Out { double v, e; };
#define TH1 cmp("tensor 2", NDer1Partial<2>(f2, I, J, k, x, h, err ? &e : nullptr), e, err); cmp("tensor 3", NDer1Partial<2>(f3, I, J, K, k, x, h, err ? &e : nullptr), e, err); cmp("tensor 4", NDer1Partial<2>(f4, I, J, K, L, k, x, h, err ? &e : nullptr), e, err);
#define TH2 cmp("tensor 2", NDer2Partial<2>(f2, I, J, k, x, h, err ? &e : nullptr), e, err); cmp("tensor 3", NDer2Partial<2>(f3, I, J, K, k, x, h, err ? &e : nullptr), e, err); cmp("tensor 4", NDer2Partial<2>(f4, I, J, K, L, k, x, h, err ? &e : nullptr), e, err);
#define TH4 cmp("tensor 2", NDer4Partial<2>(f2, I, J, k, x, h, err ? &e : nullptr), e, err); cmp("tensor 3", NDer4Partial<2>(f3, I, J, K, k, x, h, err ? &e : nullptr), e, err); cmp("tensor 4", NDer4Partial<2>(f4, I, J, K, L, k, x, h, err ? &e : nullptr), e, err);
#define TH6
#define TH8
#define TD1 cmp("tensor 2", NDer1Partial<2>(f2, I, J, k, x, err ? &e : nullptr), e, err); cmp("tensor 3", NDer1Partial<2>(f3, I, J, K, k, x, err ? &e : nullptr), e, err); cmp("tensor 4", NDer1Partial<2>(f4, I, J, K, L, k, x, err ? &e : nullptr), e, err);
#define TD2 cmp("tensor 2", NDer2Partial<2>(f2, I, J, k, x, err ? &e : nullptr), e, err); cmp("tensor 3", NDer2Partial<2>(f3, I, J, K, k, x, err ? &e : nullptr), e, err); cmp("tensor 4", NDer2Partial<2>(f4, I, J, K, L, k, x, err ? &e : nullptr), e, err);
#define TD4 cmp("tensor 2", NDer4Partial<2>(f2, I, J, k, x, err ? &e : nullptr), e, err); cmp("tensor 3", NDer4Partial<2>(f3, I, J, K, k, x, err ? &e : nullptr), e, err); cmp("tensor 4", NDer4Partial<2>(f4, I, J, K, L, k, x, err ? &e : nullptr), e, err);
#define TD6
#define TD8
#define ORDERS(X) X(1) X(2) X(4) X(6) X(8)
LAW(siblings, 700, 7000) {
	int ord = (int)s.i(0, 4), k = (int)s.i(0, 1), I = (int)s.i(0, 1), J = (int)s.i(0, 1), K = (int)s.i(0, 1), L = (int)s.i(0, 1), cc = (int)s.i(0, 2); VF vf; F2 f2; F3 f3; F4 f4; for (auto& g : vf.g) g = rg(s); for (auto& g : f2.g) g = rg(s); for (auto& g : f3.g) g = rg(s); for (auto& g : f4.g) g = rg(s);
	G g = rg(s); vf.g[I] = g; f2.g[I * 2 + J] = g; f3.g[I * 4 + J * 2 + K] = g; f4.g[I * 8 + J * 4 + K * 2 + L] = g; SF sf; sf.g = g; double sc = s.pick({ 1.0, 1.0, 20.0, 0.01 }); P2 x{ sc * s.uni(-1, 1), sc * s.uni(-1, 1) }; if (std::fabs(x[0] - x[1]) > 8) x[1] = x[0] + s.uni(-1, 1); RF rf; rf.g = g; rf.k = k; rf.y = x[1 - k]; CF cf; cf.r = rf; cf.c = cc;
	double h = s.pwide(-3.5, -0.5), t = x[k]; int P[5] = { 1, 2, 4, 6, 8 }; c.say([&](auto& o) { o << "order " << P[ord] << " variable " << k << " component " << I << J << K << L << " at " << x[0] << "," << x[1] << " step " << h; }); c.nontrivial(true); c.label("order " + std::to_string(P[ord]));
	Out r{ 0, 0 }; double re = 0; auto cmp = [&](const char* n, double v, const double& e, bool he) { double sv = std::fabs(r.v) + 1e-9; CHECK(std::fabs(v - r.v) <= 1e-9 * sv + 1e-13 / h * (1 + std::fabs(rf(t))), n << ": " << v << " against " << r.v << " from the real function"); if (he) CHECK(std::fabs(e - r.e) <= 1e-6 * std::fabs(r.e) + 4e-15 * (1 + std::fabs(rf(t))) / h / h, n << ": error estimate " << e << " against " << r.e << " from the real function"); };
	bool dflt = s.b(), err = s.b(); double e = 0; P2 ea; MatrixNM<Real, 2, 2> em;
	if (dflt) h = 1e-3;
#define ONE(p) if (P[ord] == p) { \
		if (!dflt) { r.v = NDer##p(rf, t, h, &r.e); if (!err) { CHECK(NDer##p(rf, t, h) == r.v, "real: value depends on the error pointer"); } \
			cmp("scalar", NDer##p##Partial<2>(sf, k, x, h, err ? &e : nullptr), e, err); cmp("vector", NDer##p##Partial<2>(vf, I, k, x, h, err ? &e : nullptr), e, err); \
			auto a = NDer##p##PartialByAll<2>(sf, x, h, err ? &ea : nullptr); cmp("scalar all", a[k], ea[k], err); a = NDer##p##PartialByAll<2>(vf, I, x, h, err ? &ea : nullptr); cmp("vector all", a[k], ea[k], err); auto m = NDer##p##PartialAllByAll<2>(vf, x, h, err ? &em : nullptr); cmp("Jacobian", m(I, k), em(I, k), err); \
			TH##p auto q = NDer##p<3>(cf, t, h, err ? &e : nullptr); cmp("curve", q[cc], e, err); } \
		else { r.v = NDer##p(rf, t, &r.e); if (!err) { CHECK(NDer##p(rf, t) == r.v, "real: value depends on the error pointer"); } \
			cmp("scalar", NDer##p##Partial<2>(sf, k, x, err ? &e : nullptr), e, err); cmp("vector", NDer##p##Partial<2>(vf, I, k, x, err ? &e : nullptr), e, err); \
			auto a = NDer##p##PartialByAll<2>(sf, x, err ? &ea : nullptr); cmp("scalar all", a[k], ea[k], err); a = NDer##p##PartialByAll<2>(vf, I, x, err ? &ea : nullptr); cmp("vector all", a[k], ea[k], err); auto m = NDer##p##PartialAllByAll<2>(vf, x, err ? &em : nullptr); cmp("Jacobian", m(I, k), em(I, k), err); \
			TD##p auto q = NDer##p<3>(cf, t, err ? &e : nullptr); cmp("curve", q[cc], e, err); } }
	(void)re; ORDERS(ONE)
}
