// C59: function wrappers evaluate what they wrap; standard functions agree with independent evaluation.
#include "MMLBase.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Function.h"
#include "core/Derivation.h"
#include "base/Polynom.h"
#include "core/FunctionHelpers.h"
#include "base/StandardFunctions.h"
#include "common.h"
#include <boost/math/special_functions.hpp>
#include <unistd.h>
#include <complex>
using namespace MML; using std::string;
namespace F = MML::Functions;
static double gQ[8];
// a family of smooth test functions with parameters in gQ (so that plain function pointers can use them)
static double fA(double x) { return gQ[0] * std::sin(gQ[1] * x) + gQ[2] * x * x + gQ[3]; }
static double fB(double x) { return std::exp(gQ[4] * x) - gQ[5] * x; }
static Real scal3(const VectorN<Real, 3>& v) { return gQ[0] * v[0] + gQ[1] * v[1] * v[2] - gQ[2] * v[2]; }
static VectorN<Real, 3> vec3(const VectorN<Real, 3>& v) { return VectorN<Real, 3>{gQ[0] * v[1], v[0] * v[2] + gQ[1], gQ[2] - v[0]}; }
static VectorN<Real, 2> vec32(const VectorN<Real, 3>& v) { return VectorN<Real, 2>{gQ[3] * v[2] - v[0], v[1] * gQ[4]}; }
static VectorN<Real, 3> cur(Real t) { return VectorN<Real, 3>{gQ[0] * t, gQ[1] - t * t, std::cos(gQ[2] * t)}; }
static VectorN<Real, 3> sur(Real u, Real w) { return VectorN<Real, 3>{u + gQ[0] * w, u * w - gQ[1], gQ[2] * w}; }
static Real loW(Real x) { return gQ[5] - std::abs(x); }
static Real hiW(Real x) { return gQ[6] + x * x; }
static void setQ(pbt::Src& s) { for (auto& q : gQ) q = s.real(-3, 3); gQ[6] = gQ[5] + std::abs(gQ[6]) + 0.25; }
template <int N> static bool eqv(const VectorN<Real, N>& a, const VectorN<Real, N>& b) { for (int i = 0; i < N; i++) if (!(a[i] == b[i])) return false; return true; }

LAW(wrappers, 3000, 100000) {
  setQ(s); double x = s.real(-4, 4), y = s.real(-4, 4), z = s.real(-4, 4); VectorN<Real, 3> v{x, y, z}; c.nontrivial(true); c.say([&](auto& o) { o << "x=" << x << " y=" << y << " z=" << z; });
  RealFunction r1(fA); RealFunctionFromStdFunc r2([k = gQ[7]](Real u) { return k * fA(u); }); CHECK(r1(x) == fA(x) && r2(x) == gQ[7] * fA(x), "real wrapper");
  { const IRealFunction& b1 = r1; CHECK(b1(y) == fA(y), "through the interface"); RealFunction cp(r1); CHECK(cp(z) == fA(z), "copy"); auto r3 = r2; CHECK(r3(y) == gQ[7] * fA(y), "copy of std function"); }
  ScalarFunction<3> s1(scal3); ScalarFunctionFromStdFunc<3> s2(std::function<Real(const VectorN<Real, 3>&)>([](const VectorN<Real, 3>& a) { return 2 * scal3(a); })); CHECK(s1(v) == scal3(v) && s2(v) == 2 * scal3(v), "scalar wrapper");
  VectorFunction<3> v1(vec3); VectorFunctionFromStdFunc<3> v2([](const VectorN<Real, 3>& a) { return vec3(a) * 3.0; }); auto w = vec3(v); CHECK(eqv<3>(v1(v), w) && eqv<3>(v2(v), w * 3.0), "vector wrapper");
  const IVectorFunction<3>& bv = v1; const IVectorFunction<3>& bw = v2; for (int i = 0; i < 3; i++) CHECK(bv(v, i) == w[i] && bw(v, i) == (w * 3.0)[i], "component " << i << " = " << bv(v, i) << " expected " << w[i]);
  VectorFunctionNM<3, 2> n1(vec32); VectorFunctionNMFromStdFunc<3, 2> n2([](const VectorN<Real, 3>& a) { return vec32(a) * -1.0; }); auto u = vec32(v); CHECK(eqv<2>(n1(v), u) && eqv<2>(n2(v), u * -1.0), "NM wrapper"); const IVectorFunctionNM<3, 2>& bn = n1; const IVectorFunctionNM<3, 2>& bm = n2;
  for (int i = 0; i < 2; i++) CHECK(bn(v, i) == u[i] && bm(v, i) == -u[i], "NM component " << i);
  // sampled values
  int n = (int)s.i(1, 20); Vector<Real> X, Y; ((const IRealFunction&)r1).GetValues(x, y, n, X, Y); CHECK(X.size() == n && Y.size() == n, "GetValues returned " << X.size() << " of " << n);
  for (int i = 0; i < n; i++) { double e = n == 1 ? x : x + (y - x) * i / (n - 1); CHECK(std::abs(X[i] - e) <= 1e-14 * (std::abs(x) + std::abs(y)), "GetValues(" << n << ") abscissa " << i << " = " << X[i] << " expected " << e); CHECK(Y[i] == fA(X[i]), "GetValues ordinate " << i); }
}
LAW(curves_surfaces, 3000, 100000) {
  setQ(s); double a = s.real(-4, 4), b = a + s.real(0, 6), t = s.real(-6, 6); int n = (int)s.i(-1, 15); c.nontrivial(n > 1); c.say([&](auto& o) { o << "a=" << a << " b=" << b << " t=" << t << " n=" << n; });
  ParametricCurve<3> c0(cur), c1(a, b, cur); ParametricCurveFromStdFunc<3> c2{std::function<VectorN<Real, 3>(Real)>(&cur)}, c3(a, b, [](Real q) { return cur(q) * 2.0; });
  CHECK(c0.getMinT() == Constants::NegInf && c0.getMaxT() == Constants::PosInf && c2.getMinT() == Constants::NegInf && c2.getMaxT() == Constants::PosInf, "unbounded limits"); CHECK(c1.getMinT() == a && c1.getMaxT() == b && c3.getMinT() == a && c3.getMaxT() == b, "limits");
  auto e = cur(t); CHECK(eqv<3>(c0(t), e) && eqv<3>(c1(t), e) && eqv<3>(c2(t), e) && eqv<3>(c3(t), e * 2.0), "curve value");
  const IParametricCurve<3>& base = c1; auto tr = base.GetTrace(a, b, n); CHECK((int)tr.size() == std::max(n, 0), "trace has " << tr.size() << " points");
  for (int i = 0; i < (int)tr.size(); i++) { double q = n == 1 ? a : a + (b - a) * i / (n - 1); auto p = cur(q); CHECK((tr[i] - p).NormL2() <= 1e-12 * (1 + p.NormL2()), "trace point " << i); }
  double u = s.real(-6, 6), w = s.real(-8, 8); if (s.chance(1, 6)) u = s.b() ? a : b; if (s.chance(1, 6)) w = s.b() ? loW(u) : hiW(u);
  ParametricSurface<3> p0(sur, a, b, loW, hiW); CHECK(p0.getMinU() == a && p0.getMaxU() == b && p0.getMinW(u) == loW(u) && p0.getMaxW(u) == hiW(u), "surface limits");
  bool in = u >= a && u <= b && w >= loW(u) && w <= hiW(u); c.label(in ? "inside" : "outside"); if (in) CHECK(eqv<3>(p0(u, w), sur(u, w)), "surface value"); else CHECK_THROWS((p0(u, w)), DomainError, "outside the domain");
  double d = s.real(0, 3); ParametricSurfaceRect<3> p1(sur), p2(sur, a, b, -d, d); std::function<VectorN<Real, 3>(Real, Real)> fs = sur; ParametricSurfaceFromStdFunc<3> p3(fs), p4(fs, a, b, -d, d); auto ev = sur(u, w);
  CHECK(eqv<3>(p1(u, w), ev) && eqv<3>(p2(u, w), ev) && eqv<3>(p3(u, w), ev) && eqv<3>(p4(u, w), ev), "rectangular surface value");
  CHECK(p2.getMinU() == a && p2.getMaxU() == b && p2.getMinW() == -d && p2.getMaxW() == d && p4.getMinU() == a && p4.getMaxU() == b && p4.getMinW() == -d && p4.getMaxW() == d, "rectangular limits");
  CHECK(p1.getMinU() == Constants::NegInf && p1.getMaxU() == Constants::PosInf && p1.getMinW() == Constants::NegInf && p1.getMaxW() == Constants::PosInf && p3.getMinW() == Constants::NegInf && p3.getMaxU() == Constants::PosInf, "unbounded rectangular limits");
}
// random expression trees of the function algebra against a direct evaluation
namespace { struct Tree { std::vector<std::unique_ptr<IRealFunction>> own; std::function<double(double)> ref; const IRealFunction* f = nullptr; };
using RF = std::function<double(double)>;
std::pair<const IRealFunction*, RF> build(pbt::Src& s, Tree& t, int depth, string& d) {
  auto keep = [&](IRealFunction* p) { t.own.emplace_back(p); return (const IRealFunction*)p; };
  if (depth == 0 || s.chance(1, 6)) { if (s.b()) { d += "A"; return {keep(new RealFunction(fA)), RF(fA)}; } if (s.b()) { d += "B"; return {keep(new RealFunction(fB)), RF(fB)}; } double k = s.real(-2, 2); d += "(x-" + fmt(k) + ")"; RF g = [k](double x) { return x - k; }; return {keep(new RealFunctionFromStdFunc(g)), g}; }
  int k = (int)s.choice(11); double q = s.pick<double>({0.0, 1.0, 2.0, 3.0, -1.0, -2.0, 0.5, 1.5, -0.25}); static const char* nm[] = {"sum", "diff", "prod", "quot", "comp", "scale", "shift", "neg", "abs", "pow", "absdiff", "diffsqr"}; d += string(nm[k]) + "(";
  auto a = build(s, t, depth - 1, d); RF fa = a.second;
  if (k <= 4 || k >= 10) { d += ","; auto b = build(s, t, depth - 1, d); d += ")"; RF fb = b.second; switch (k) {
    case 0: return {keep(new RealFuncSum(*a.first, *b.first)), [=](double x) { return fa(x) + fb(x); }};
    case 1: return {keep(new RealFuncDiff(*a.first, *b.first)), [=](double x) { return fa(x) - fb(x); }};
    case 2: return {keep(new RealFuncProduct(*a.first, *b.first)), [=](double x) { return fa(x) * fb(x); }};
    case 3: return {keep(new RealFuncQuotient(*a.first, *b.first)), [=](double x) { return fa(x) / fb(x); }};
    case 4: return {keep(new RealFuncCompose(*a.first, *b.first)), [=](double x) { return fa(fb(x)); }};
    case 10: return {keep(new RealFuncAbsDiff(*a.first, *b.first)), [=](double x) { return std::fabs(fa(x) - fb(x)); }};
    default: return {keep(new RealFuncDiffSqr(*a.first, *b.first)), [=](double x) { double e = fa(x) - fb(x); return e * e; }}; } }
  if (k == 5 || k == 6 || k == 9) d += "," + fmt(q); d += ")"; switch (k) {
    case 5: return {keep(new RealFuncScale(*a.first, q)), [=](double x) { return q * fa(x); }};
    case 6: return {keep(new RealFuncShift(*a.first, q)), [=](double x) { return fa(x) + q; }};
    case 7: return {keep(new RealFuncNegate(*a.first)), [=](double x) { return -fa(x); }};
    case 8: return {keep(new RealFuncAbs(*a.first)), [=](double x) { return std::fabs(fa(x)); }};
    default: return {keep(new RealFuncPow(*a.first, q)), [=](double x) { return std::pow(fa(x), q); }}; } } }
LAW(algebra, 4000, 150000) {
  setQ(s); Tree t; string d; auto p = build(s, t, (int)s.i(1, 4), d); double x = s.real(-3, 3); if (s.chance(1, 8)) x = 0; double v = (*p.first)(x), e = p.second(x); c.nontrivial(std::isfinite(e) && t.own.size() > 1); c.say([&](auto& o) { o << d << " at " << x; });
  CHECK((std::isnan(v) && std::isnan(e)) || v == e || std::abs(v - e) <= 1e-15 * std::abs(e), d << " at " << x << " = " << v << " expected " << e);
}
LAW(derived_and_taylor, 2000, 60000) {
  setQ(s); RealFunction f(s.b() ? fA : fB); double x = s.real(-3, 3), h = s.pick<double>({0.0, 1e-2, 1e-3, 1e-4}); bool h0 = h == 0; c.nontrivial(true); c.say([&](auto& o) { o << "x=" << x << " h=" << h << " f(0.5)=" << f(0.5); });
#define DW(W, D) { double v = h0 ? W(f)(x) : W(f, h)(x), e = h0 ? Derivation::D(f, x) : Derivation::D(f, x, h); CHECK(v == e, #W << "(" << x << ", h=" << h << ") = " << v << " but " #D << " gives " << e); }
  DW(RealFuncDerived1, NDer1) DW(RealFuncDerived2, NDer2) DW(RealFuncDerived4, NDer4) DW(RealFuncDerived6, NDer6) DW(RealFuncDerived8, NDer8) DW(RealFuncSecondDerived2, NSecDer2) DW(RealFuncSecondDerived4, NSecDer4)
  { RealFuncDerived4 d4(f); RealFuncSecondDerived6 q(f); RealFuncSecondDerived4 r(f); CHECK(std::abs(q(x) - r(x)) <= 1e-5 * (1 + std::abs(r(x)) + 100 * std::abs(f(x))), "second derivative wrappers disagree"); Vector<Real> X, Y; ((const IRealFunction&)d4).GetValues(-1, 1, 5, X, Y); for (int i = 0; i < 5; i++) CHECK(Y[i] == Derivation::NDer4(f, X[i]), "derived function sampled"); }
  // Taylor polynomials of a cubic are the cubic, of a smooth function match value and derivatives at the point
  double a = s.real(-2, 2); double k0 = s.real(-3, 3), k1 = s.real(-3, 3), k2 = s.real(-3, 3), k3 = s.real(-3, 3); RealFunctionFromStdFunc cub([=](Real u) { return k0 + u * (k1 + u * (k2 + u * k3)); }); auto P3 = TaylorSeries3(cub, a);
  double S = 1 + std::abs(k0) + std::abs(k1) + std::abs(k2) + std::abs(k3); for (int i = 0; i < 4; i++) { double e = i == 0 ? k0 : i == 1 ? k1 : i == 2 ? k2 : k3; CHECK(std::abs(P3[i] - e) <= 2e-4 * S, "TaylorSeries3 of a cubic about " << a << ": coefficient " << i << " = " << P3[i] << " expected " << e); }
  auto P2 = TaylorSeries2(cub, a); for (int j = 0; j < 3; j++) { double u = s.real(-3, 3), e = cub(a) + (k1 + 2 * k2 * a + 3 * k3 * a * a) * (u - a) + (k2 + 3 * k3 * a) * (u - a) * (u - a); CHECK(std::abs(P2(u) - e) <= 1e-4 * S * 30, "TaylorSeries2 about " << a << " at " << u << " = " << P2(u) << " expected " << e); }
}
// ------------------------------------------------------------------ standard functions
static bool near(double v, LD e, LD rel, LD abs = 0) { if (std::isnan(v)) return std::isnan((double)e); if (std::isinf((double)e)) return v == (double)e; return fabsl((LD)v - e) <= rel * fabsl(e) + abs; }
#define EL(fn, expr, rel) { LD e = (expr); double v = F::fn(x); CHECK(near(v, e, rel, 1e-300L), #fn << "(" << x << ") = " << v << " expected " << (double)e); }
LAW(elementary, 4000, 200000) {
  double x = s.chance(1, 4) ? s.wide(-60, 8) : s.real(-8, 8); if (s.chance(1, 12)) x = s.pick<double>({0.0, 1.0, -1.0, 0.5, 3.0}); LD y = x; c.nontrivial(x != 0); c.say([&](auto& o) { o << "x=" << x; }); const LD R = 4e-16L;
  EL(Sin, sinl(y), R) EL(Cos, cosl(y), R) EL(Tan, tanl(y), R) EL(Exp, expl(y), R) EL(Sinh, sinhl(y), R) EL(Cosh, coshl(y), R) EL(Tanh, tanhl(y), R) EL(Atan, atanl(y), R) EL(Asinh, asinhl(y), R) EL(Sech, 1 / coshl(y), 2 * R)
  if (fabsl(cosl(y)) > 1e-15L) EL(Sec, 1 / cosl(y), 2 * R) if (fabsl(sinl(y)) > 1e-15L) EL(Csc, 1 / sinl(y), 2 * R) if (fabsl(tanl(y)) > 1e-15L) EL(Ctg, 1 / tanl(y), 2 * R) if (fabsl(sinhl(y)) > 1e-15L) EL(Csch, 1 / sinhl(y), 2 * R) if (fabsl(tanhl(y)) > 1e-15L) EL(Ctgh, 1 / tanhl(y), 2 * R)
  if (x == 0) { CHECK_THROWS((F::Csc(x)), std::domain_error, ""); CHECK_THROWS((F::Ctg(x)), std::domain_error, ""); CHECK_THROWS((F::Csch(x)), std::domain_error, ""); CHECK_THROWS((F::Ctgh(x)), std::domain_error, ""); }
  if (x > 0) { EL(Log, logl(y), R) EL(Log10, log10l(y), R) EL(Sqrt, sqrtl(y), R) double p = s.real(-4, 4); CHECK(near(F::Pow(x, p), powl(y, p), 4e-16L, 1e-300L), "Pow(" << x << "," << p << ")"); } else if (x < 0) CHECK(std::isnan(F::Log(x)) && std::isnan(F::Sqrt(x)), "log or root of a negative number");
  if (std::abs(x) <= 1) { EL(Asin, asinl(y), R) EL(Acos, acosl(y), R) if (std::abs(x) < 1) EL(Atanh, atanhl(y), R) } if (x >= 1) EL(Acosh, acoshl(y), R)
  EL(Erf, erfl(y), 1e-15L) EL(Erfc, erfcl(y), 1e-14L) if (x > 0 && x < 150) { EL(TGamma, tgammal(y), 1e-14L) LD e = lgammal(y); CHECK(near(F::LGamma(x), e, 1e-14L, 1e-15L), "LGamma(" << x << ")"); }
  // complex arguments: agree with the definitions in terms of exponentials
  std::complex<LD> z(s.real(-3, 3), s.real(-3, 3)), I(0, 1); Complex w((double)z.real(), (double)z.imag()); z = std::complex<LD>(w.real(), w.imag()); auto nz = [&](Complex v, std::complex<LD> e, const char* n) { CHECK(std::abs(std::complex<LD>(v.real(), v.imag()) - e) <= 1e-14L * (1 + std::abs(e)), n << "(" << w << ") = " << v << " expected " << (double)e.real() << "," << (double)e.imag()); };
  auto ez = std::exp(I * z), em = std::exp(-I * z), hp = std::exp(z), hm = std::exp(-z); std::complex<LD> half(0.5L, 0); nz(F::Sin(w), (ez - em) * half / I, "Sin"); nz(F::Cos(w), (ez + em) * half, "Cos"); nz(F::Sinh(w), (hp - hm) * half, "Sinh"); nz(F::Cosh(w), (hp + hm) * half, "Cosh"); nz(F::Exp(w), hp, "Exp");
  if (std::abs(hp + hm) > 0.02L) { nz(F::Tanh(w), (hp - hm) / (hp + hm), "Tanh"); Complex q = F::Sech(w); nz(q, std::complex<LD>(2, 0) / (hp + hm), "Sech"); } if (std::abs(ez + em) > 0.02L) nz(F::Tan(w), (ez - em) / (I * (ez + em)), "Tan");
  if (std::abs(z) > 0.01L) { Complex l = F::Log(w), q = F::Sqrt(w); nz(F::Exp(l), z, "Exp(Log)"); nz(q * q, z, "Sqrt squared"); CHECK(q.real() >= 0 && std::abs(l.imag()) <= 3.14159265358979324, "principal branch"); }
}
#define SP(call, expr, rel, abst, txt) { double e = (expr), v = (call); CHECK(near(v, e, rel, abst), txt << " = " << v << " expected " << e); }
static LD eiRef(LD x) { if (x > -2) { LD s = 0.577215664901532860606512090082L + logl(fabsl(x)), q = 1; for (int k = 1; k < 200; k++) { q *= x / k; s += q / k; } return s; } LD y = -x, b = y + 1, c = 1e300L, d = 1 / b, h = d; for (int i = 1; i < 400; i++) { LD a = -(LD)i * i; b += 2; d = 1 / (a * d + b); c = b + a / c; LD e = c * d; h *= e; if (fabsl(e - 1) < 1e-19L) break; } return -h * expl(-y); }
LAW(special, 4000, 150000) {
  namespace bm = boost::math; int n = (int)s.i(0, 12), m = (int)s.i(0, 6); double x = s.real(-3, 3), p = s.real(0.05, 20), u = s.real(-0.98, 0.98), nu = s.b() ? (double)s.i(0, 8) : s.real(0, 8); c.nontrivial(true); c.say([&](auto& o) { o << "n=" << n << " m=" << m << " x=" << x << " p=" << p << " u=" << u << " nu=" << nu; }); int k = (int)s.choice(5);
  try { if (k == 0) { SP(F::Legendre(n, u), bm::legendre_p(n, u), 1e-12L, 1e-12L, "Legendre " << n << " " << u) SP(F::Hermite(n, x), bm::hermite(n, x), 1e-12L, 1e-12L * std::pow(2.0 * (1 + std::abs(x)), n) * std::sqrt(F::Factorial(n)), "Hermite " << n << " " << x) SP(F::Laguerre(n, p), bm::laguerre(n, p), 1e-11L, 1e-12L * std::exp(p / 2), "Laguerre " << n << " " << p)
      if (m <= n) { SP(F::AssocLegendre(n, m, u), bm::legendre_p(n, m, u) * (m % 2 ? -1 : 1), 1e-11L, 1e-12L * F::Factorial(n + m) / F::Factorial(n), "AssocLegendre " << n << "," << m << " " << u) double th = s.real(0, 3.14159); SP(F::SphLegendre(n, m, th), bm::spherical_harmonic_r(n, m, th, 0.0), 1e-10L, 1e-11L, "SphLegendre " << n << "," << m << " " << th) }
      SP(F::AssocLaguerre(n, m, p), bm::laguerre(n, m, p), 1e-11L, 1e-11L * F::Factorial(n + m) / F::Factorial(n) * std::exp(p / 2), "AssocLaguerre " << n << "," << m << " " << p) }
    else if (k == 1) { SP(F::SphBessel(n, p), bm::sph_bessel(n, p), 1e-10L, 1e-12L, "SphBessel " << n << " " << p) SP(F::SphNeumann(n, p), bm::sph_neumann(n, p), 1e-10L, 1e-11L, "SphNeumann " << n << " " << p) }
    else if (k == 2) { SP(F::CylBesselJ(nu, p), bm::cyl_bessel_j(nu, p), 1e-10L, 1e-11L, "J " << nu << " " << p) SP(F::CylBesselI(nu, p), bm::cyl_bessel_i(nu, p), 1e-10L, 0, "I " << nu << " " << p) SP(F::CylBesselK(nu, p), bm::cyl_bessel_k(nu, p), 1e-10L, 0, "K " << nu << " " << p) SP(F::CylNeumann(nu, p), bm::cyl_neumann(nu, p), 1e-10L, 1e-11L, "N " << nu << " " << p) CHECK(F::CylBesselY(nu, p) == F::CylNeumann(nu, p), "Y and N differ"); }
    else if (k == 3) { double q = s.real(-0.97, 0.97), ph = s.real(-1.5, 1.5), nn = s.real(-0.9, 0.9); c.label("elliptic"); SP(F::Ellint_1(q, ph), bm::ellint_1(q, ph), 1e-11L, 1e-14L, "Ellint_1 " << q << " " << ph) SP(F::Ellint_2(q, ph), bm::ellint_2(q, ph), 1e-11L, 1e-14L, "Ellint_2 " << q << " " << ph) SP(F::Comp_ellint_1(q), bm::ellint_1(q), 1e-11L, 0, "Comp_ellint_1 " << q) SP(F::Comp_ellint_2(q), bm::ellint_2(q), 1e-11L, 0, "Comp_ellint_2 " << q)
      SP(F::Ellint_3(q, nn, ph), bm::ellint_3(q, nn, ph), 1e-10L, 1e-13L, "Ellint_3 " << q << " " << nn << " " << ph) SP(F::Comp_ellint_3(q, nn), bm::ellint_3(q, nn), 1e-10L, 0, "Comp_ellint_3 " << q << " " << nn) }
    else if (k == 4) { SP(F::RiemannZeta(1.05 + p), bm::zeta(1.05 + p), 1e-10L, 0, "zeta " << 1.05 + p) SP(F::Beta(p, 0.1 + nu), bm::beta(p, 0.1 + nu), 1e-11L, 0, "Beta " << p << " " << 0.1 + nu) SP(F::Beta(0.1 + nu, p), bm::beta(p, 0.1 + nu), 1e-11L, 0, "Beta symmetric") double ea = s.b() ? p : -p; SP(F::Expint(ea), (double)eiRef(ea), 1e-10L, 1e-13L, "Expint " << ea) }
    else { int q = (int)s.i(0, 30); LD f = 1; for (int i = 2; i <= q; i++) f *= i; CHECK(near(F::Factorial(q), f, 4e-16L * (q + 1)), "Factorial " << q); if (q <= 20) { CHECK((LD)F::FactorialInt(q) == f, "FactorialInt " << q << " = " << F::FactorialInt(q)); } if (q >= 1) { double st = F::FactorialStirling(q); CHECK(q == 1 ? st == 1 : (st < f && st > f * (1 - 1.0L / (11.9L * q))), "FactorialStirling " << q << " = " << st << " for " << (double)f); }
      CHECK_THROWS((F::Factorial(-q - 1)), std::domain_error, ""); CHECK_THROWS((F::FactorialInt(-q - 1)), std::domain_error, ""); CHECK_THROWS((F::FactorialStirling(-q - 1)), std::domain_error, ""); CHECK(near(F::TGamma(q + 1.0), f, 1e-13L), "Gamma at an integer"); }
  } catch (const boost::math::evaluation_error&) { DISCARD_IF(true); } catch (const std::overflow_error&) { DISCARD_IF(true); }
}
