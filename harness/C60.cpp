// C60: documented thread-safety (docs/THREADING.md). Concurrent const reads of one shared object and concurrent calls of
// algorithms on separate data give bit-identical results to the same calls made one after another; settings and random
// streams are per thread. Built with ThreadSanitizer: a data race inside the library aborts the case.
#include "MMLBase.h"
#include "base/Vector/VectorTypes.h"
#include "base/Matrix/Matrix.h"
#include "base/Matrix/MatrixSym.h"
#include "interfaces/IFunction.h"
#include "interfaces/IODESystem.h"
#include "base/Function.h"
#include "base/Polynom.h"
#include "base/Quaternions.h"
#include "base/Random.h"
#include "base/ODESystem.h"
#include "base/ODESystemSolution.h"
#include "base/StandardFunctions.h"
#include "base/InterpolatedFunctions/InterpolatedRealFunction.h"
#include "base/InterpolatedFunctions/Interpolation2DFunction.h"
#include "base/Geometry/Geometry2D.h"
#include "base/Geometry/Geometry3D.h"
#include "core/Derivation.h"
#include "core/Integration.h"
#include "core/LinAlgEqSolvers.h"
#include "core/CoordTransf.h"
#include "core/CoordTransf/CoordTransfSpherical.h"
#include "core/CoordTransf/CoordTransfCylindrical.h"
#include "algorithms/EigenSystemSolvers.h"
#include "algorithms/RootFinding.h"
#include "algorithms/RootFinding/RootFindingPolynoms.h"
#include "algorithms/Optimization.h"
#include "algorithms/OptimizationMultidim.h"
#include "algorithms/Fourier.h"
#include "algorithms/ChebyshevApproximation.h"
#include "algorithms/ODESolvers/ODESteppers.h"
#include "algorithms/ODESolvers/ODESolverAdaptive.h"
#include "algorithms/CompGeometry/ConvexHull.h"
#include "algorithms/CompGeometry/Triangulation.h"
#include "common.h"
#include <atomic>
#include <cstring>
#include <thread>
#include <unistd.h>
using namespace MML; using namespace MML::Fourier; using namespace MML::CompGeometry; using std::string; using std::vector;
using Out = vector<double>;
struct Job { string name; std::function<Out()> run; };
static Out guarded(const Job& j) { try { return j.run(); } catch (const std::exception&) { return {-12345.678}; } }
static bool same(const Out& a, const Out& b) { return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
static string show(const Out& o) { string r; for (size_t i = 0; i < o.size() && i < 6; i++) r += fmt(o[i]) + " "; return r; }
// runs every job once sequentially (the reference) and then `reps` times in each of `T` threads in rotated order
static void compare(const vector<Job>& jobs, int T, int reps, const char* what) {
  vector<Out> ref; for (auto& j : jobs) ref.push_back(guarded(j));
  std::atomic<int> ready{0}; vector<std::thread> th; vector<vector<std::pair<int, Out>>> bad(T); int n = (int)jobs.size();
  for (int t = 0; t < T; t++) th.emplace_back([&, t] { ready++; while (ready.load() < T) std::this_thread::yield(); for (int r = 0; r < reps; r++) for (int i = 0; i < n; i++) { int k = (i + t * (n / T + 1)) % n; Out o = guarded(jobs[k]); if (!same(o, ref[k]) && bad[t].size() < 3) bad[t].push_back({k, o}); } });
  for (auto& t : th) t.join();
  for (auto& b : bad) for (auto& q : b) CHECK(false, what << " " << jobs[q.first].name << " gave " << show(q.second) << " concurrently but " << show(ref[q.first]) << " alone");
}
static Matrix<Real> rndM(pbt::Src& s, int n, double diag) { Matrix<Real> A(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = s.real(-2, 2) + (i == j ? diag : 0); return A; }
static Vector<Real> rndV(pbt::Src& s, int n, double a = -3, double b = 3) { Vector<Real> v(n); for (int i = 0; i < n; i++) v[i] = s.real(a, b); return v; }
static Out flat(const Vector<Real>& v) { Out o; for (int i = 0; i < v.size(); i++) o.push_back(v[i]); return o; }
static Out flat(const Matrix<Real>& m) { Out o; for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) o.push_back(m(i, j)); return o; }
static Vector<Real> nodes(pbt::Src& s, int n) { Vector<Real> x(n); double c = s.real(-2, 0); for (int i = 0; i < n; i++) { x[i] = c; c += s.real(0.2, 1); } return x; }

LAW(shared_reads, 60, 2500) {
  int T = (int)s.i(2, 4), n = (int)s.i(4, 10); auto x = nodes(s, n), y = rndV(s, n); auto A = std::make_shared<const Matrix<Real>>(rndM(s, n, 5)); auto v = std::make_shared<const Vector<Real>>(rndV(s, n)); vector<Job> J; int m = (int)s.i(2, std::min(n, 6));
  auto lin = std::make_shared<LinearInterpRealFunc>(x, y); auto pol = std::make_shared<PolynomInterpRealFunc>(x, y, m); auto rat = std::make_shared<RationalInterpRealFunc>(x, y, m); auto spl = std::make_shared<SplineInterpRealFunc>(x, y); auto bar = std::make_shared<BarycentricRationalInterp>(x, y, std::min(3, n - 1));
  PolynomRealFunc p0(m); for (int i = 0; i <= m; i++) p0[i] = s.real(-2, 2); auto poly = std::make_shared<const PolynomRealFunc>(p0); auto ch = std::make_shared<ChebyshevApproximation>([](Real q) { return std::exp(q) * std::sin(3 * q); }, -1.0, 1.0, 12);
  Vector<Real> gx = nodes(s, 5), gy = nodes(s, 6); Matrix<Real> gz(5, 6); for (int i = 0; i < 5; i++) for (int j = 0; j < 6; j++) gz(i, j) = s.real(-2, 2); auto bil = std::make_shared<BilinearInterp2D>(gx, gy, gz);
  int q = (int)s.i(4, 16); c.nontrivial(true); c.label("threads " + std::to_string(T)); c.say([&](auto& o) { o << "threads=" << T << " n=" << n << " queries=" << q << " x=" << x[0] << ".." << x[n - 1]; });
  for (int i = 0; i < q; i++) { double u = x[0] + (x[n - 1] - x[0]) * s.unit(), a = s.real(0.1, 2), b = s.real(-2, 2), d = s.real(-2, 2); int kind = (int)s.choice(10);
    switch (kind) {
      case 0: J.push_back({"linear interpolant", [=] { return Out{(*lin)(u)}; }}); break;
      case 1: J.push_back({"polynomial interpolant", [=] { return Out{(*pol)(u)}; }}); break;
      case 2: J.push_back({"rational interpolant", [=] { return Out{(*rat)(u)}; }}); break;
      case 3: J.push_back({"spline interpolant", [=] { return Out{(*spl)(u), spl->Derivative(u)}; }}); break;
      case 4: J.push_back({"barycentric interpolant", [=] { return Out{(*bar)(u)}; }}); break;
      case 5: J.push_back({"polynomial", [=] { return Out{(*poly)(u)}; }}); break;
      case 6: J.push_back({"Chebyshev", [=] { return Out{(*ch)(std::tanh(u))}; }}); break;
      case 7: J.push_back({"matrix reads", [=] { Out o = flat((*A) * (*v)); Out t = flat(A->transpose()); o.insert(o.end(), t.begin(), t.end()); o.push_back(v->NormL2()); o.push_back((*A)(0, n - 1)); return o; }}); break;
      case 8: J.push_back({"spherical transform", [=] { auto r = CoordTransfCartToSpher.transf(Vec3Cart(a, b, d)); auto w = CoordTransfSpherToCart.transf(r); auto g = CoordTransfSpherToCart.transfVecContravariant(Vec3Sph(b, d, a), r); return Out{r[0], r[1], r[2], w[0], w[1], w[2], g[0], g[1], g[2]}; }}); break;
      case 9: J.push_back({"cylindrical transform", [=] { auto r = CoordTransfCartToCyl.transf(Vec3Cart(a, b, d)); auto w = CoordTransfCylToCart.transf(r); auto j = CoordTransfCylToCart.jacobian(r); return Out{r[0], r[1], r[2], w[0], w[1], w[2], j(0, 0), j(0, 1), j(1, 0)}; }}); break;
      default: J.push_back({"bilinear interpolant", [=] { double uu = gx[0] + (gx[4] - gx[0]) * 0.37, ww = gy[0] + (gy[5] - gy[0]) * 0.61; return Out{(*bil)(uu, ww)}; }}); } }
  compare(J, T, 12, "shared read of");
}
namespace { struct Sys : IODESystem { double w, g; Sys(double a, double b) : w(a), g(b) {} int getDim() const override { return 2; } void derivs(const Real, const Vector<Real>& x, Vector<Real>& d) const override { d[0] = x[1]; d[1] = -w * x[0] - g * x[1] * std::abs(x[1]); } }; }
LAW(reentrant, 50, 2000) {
  int T = (int)s.i(2, 4), k = (int)s.i(3, 9); vector<Job> J; c.nontrivial(true); string names;
  for (int i = 0; i < k; i++) { int n = (int)s.i(2, 6); double a = s.real(-2, 0), b = s.real(0.3, 3), w = s.real(0.5, 4), g = s.real(0, 0.5); auto A = rndM(s, n, 6); auto v = rndV(s, n); auto f = [a, w](Real q) { return std::sin(w * q) + a * q; }; int kind = (int)s.choice(17);
    switch (kind) {
      case 0: J.push_back({"LU", [=] { LUSolver<Real> lu(A); Vector<Real> z(n); lu.Solve(v, z); return flat(z); }}); break;
      case 1: J.push_back({"QR", [=] { QRSolver<Real> q(A); return flat(q.Solve(v)); }}); break;
      case 2: J.push_back({"SVD", [=] { SVDecompositionSolver<Real> q(A); return flat(q.getW()); }}); break;
      case 3: J.push_back({"Cholesky", [=] { Matrix<Real> S = A.transpose() * A; CholeskySolver<Real> q(S); return flat(q.Solve(v)); }}); break;
      case 4: J.push_back({"Jacobi eigenvalues", [=] { Matrix<Real> S = A + A.transpose(); auto r = SymmMatEigenSolverJacobi::Solve(S); Out o = flat(r.eigenvalues), e = flat(r.eigenvectors); o.insert(o.end(), e.begin(), e.end()); return o; }}); break;
      case 5: J.push_back({"QR eigenvalues", [=] { Matrix<Real> S = A + A.transpose(); return flat(SymmMatEigenSolverQR::Solve(S).eigenvalues); }}); break;
      case 6: J.push_back({"derivatives", [=] { RealFunctionFromStdFunc F(f); return Out{Derivation::NDer1(F, b), Derivation::NDer2(F, b), Derivation::NDer4(F, b), Derivation::NDer6(F, b), Derivation::NDer8(F, b), Derivation::NSecDer4(F, b), Derivation::NThirdDer2(F, b)}; }}); break;
      case 7: J.push_back({"integration", [=] { RealFunctionFromStdFunc F(f); return Out{IntegrateTrap(F, a, b, 1e-5).value, IntegrateSimpson(F, a, b, 1e-6).value, IntegrateRomberg(F, a, b, 1e-9).value, IntegrateGK21(F, a, b).value}; }}); break;
      case 8: J.push_back({"root finding", [=] { RealFunctionFromStdFunc F([=](Real q) { return q * q * q + w * q + a; }); return Out{RootFinding::FindRootBrent(F, -5, 5, 1e-12), RootFinding::FindRootBisection(F, -5, 5, 1e-10)}; }}); break;
      case 9: J.push_back({"polynomial roots", [=] { PolynomRealFunc p(n); for (int q = 0; q < n; q++) p[q] = v[q]; p[n] = 1; Out o; for (auto z : RootFinding::LaguerreRoots(p)) { o.push_back(z.real()); o.push_back(z.imag()); } return o; }}); break;
      case 10: J.push_back({"minimisation", [=] { RealFunctionFromStdFunc F([=](Real q) { return (q - a) * (q - a) * w + std::cos(q); }); auto r = Minimization::BrentMinimize(F, Minimization::BracketMinimum(F, a, b)); return Out{r.xmin, r.fmin}; }}); break;
      case 11: J.push_back({"Nelder-Mead", [=] { ScalarFunctionFromStdFunc<2> F(std::function<Real(const VectorN<Real, 2>&)>([=](const VectorN<Real, 2>& q) { return (q[0] - a) * (q[0] - a) + w * q[1] * q[1]; })); auto r = MML::Optimization::NelderMeadMinimize<2>(F, VectorN<Real, 2>{b, w}, 0.5, 1e-8); return Out{r.xmin[0], r.xmin[1], r.fmin}; }}); break;
      case 12: J.push_back({"ODE Dormand-Prince", [=] { Sys sy(w, g); ODEAdaptiveIntegrator<DormandPrince5_Stepper> I(sy); auto so = I.integrate(Vector<Real>{a, b}, 0, 3, 0.5, 1e-7); return flat(so.getXValues()); }}); break;
      case 13: J.push_back({"ODE Cash-Karp", [=] { Sys sy(w, g); ODEAdaptiveIntegrator<CashKarp_Stepper> I(sy); auto so = I.integrate(Vector<Real>{b, a}, 0, 2, 0.25, 1e-7); return flat(so.getXValues()); }}); break;
      case 14: J.push_back({"ODE Bulirsch-Stoer", [=] { Sys sy(w, g); ODEAdaptiveIntegrator<BulirschStoer_Stepper> I(sy); auto so = I.integrate(Vector<Real>{b, a}, 0, 2, 0.5, 1e-8); return flat(so.getXValues()); }}); break;
      case 15: J.push_back({"FFT", [=] { Vector<Complex> z(8); for (int q = 0; q < 8; q++) z[q] = Complex(f(q * 0.3), v[q % n]); auto r = FFT::Forward(z); Out o; for (int q = 0; q < 8; q++) { o.push_back(r[q].real()); o.push_back(r[q].imag()); } return o; }}); break;
      case 16: J.push_back({"hull and triangulation", [=] { vector<Point2Cartesian> P; for (int q = 0; q < 9; q++) P.emplace_back(std::fmod(q * w * 1.7 + v[q % n], 3.0), std::fmod(q * b * 2.3 - v[(q + 1) % n], 2.0)); auto h = ConvexHull2D::Compute(P); Out o; for (auto& p : h.Vertices()) { o.push_back(p.X()); o.push_back(p.Y()); } o.push_back(CompGeometry::Triangulation::ComputeDelaunay(P).triangles.size()); return o; }}); break;
      default: J.push_back({"special functions", [=] { return Out{Functions::Erf(a), Functions::TGamma(w), Functions::Legendre(5, a / 3), Functions::Factorial(9)}; }}); } names += J.back().name + " "; c.label(J.back().name); }
  c.say([&](auto& o) { o << T << " threads: " << names; }); compare(J, T, 3, "reentrant call of");
}
// settings kept in Defaults:: and the random stream belong to the calling thread
LAW(per_thread_state, 40, 1500) {
  int T = (int)s.i(2, 5); struct Set { double eps; int steps; unsigned seed; double w; }; vector<Set> S; for (int t = 0; t < T; t++) S.push_back({std::pow(10.0, -(double)s.i(1, 7)), (int)s.i(3, 20), (unsigned)s.i(0, 1000000), s.real(1, 9)}); c.nontrivial(true); c.say([&](auto& o) { o << T << " threads"; for (auto& q : S) o << " {eps " << q.eps << " steps " << q.steps << " seed " << q.seed << "}"; });
  auto work = [](const Set& q, bool set, double e0, int n0) { if (set) { Defaults::TrapezoidIntegrationEPS = q.eps; Defaults::TrapezoidIntegrationMaxSteps = q.steps; } Random::SetSeed(q.seed); Out o; RealFunctionFromStdFunc F([w = q.w](Real x) { return std::sin(w * x) * x + std::exp(x); }); (void)e0; (void)n0;
    for (int i = 0; i < 4; i++) { auto r = IntegrateTrap(F, 0, 1 + i); o.push_back(r.value); o.push_back(r.iterations); o.push_back(Random::UniformReal(-1, 1)); o.push_back(Random::UniformInt(0, 1000)); std::this_thread::yield(); } o.push_back(Defaults::TrapezoidIntegrationEPS); o.push_back(Defaults::TrapezoidIntegrationMaxSteps); return o; };
  double e0 = Defaults::TrapezoidIntegrationEPS; int n0 = Defaults::TrapezoidIntegrationMaxSteps; vector<Out> ref; for (auto& q : S) ref.push_back(work(q, true, e0, n0)); Defaults::TrapezoidIntegrationEPS = e0; Defaults::TrapezoidIntegrationMaxSteps = n0;
  std::atomic<int> ready{0}; vector<std::thread> th; vector<Out> got(T); vector<int> fresh(T); for (int t = 0; t < T; t++) th.emplace_back([&, t] { ready++; while (ready.load() < T) std::this_thread::yield(); fresh[t] = Defaults::TrapezoidIntegrationEPS == e0 && Defaults::TrapezoidIntegrationMaxSteps == n0; got[t] = work(S[t], true, e0, n0); }); for (auto& t : th) t.join();
  CHECK(Defaults::TrapezoidIntegrationEPS == e0 && Defaults::TrapezoidIntegrationMaxSteps == n0, "settings of the main thread were changed by another thread");
  for (int t = 0; t < T; t++) { CHECK(fresh[t], "a new thread does not start from the default settings"); CHECK(same(got[t], ref[t]), "thread " << t << " gave " << show(got[t]) << " concurrently but " << show(ref[t]) << " alone"); }
}
