// C39: least-squares fits: residual orthogonal to the model space, exact data reproduced, statistics by definition
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Function.h"
#include "algorithms/CurveFitting.h"
typedef Vector<Real> V;
struct Data { V x, y; int m; double sx, sy, ox, oy; };
static void xs(Src& s, Data& D, bool off) { D.sx = off ? s.pwide(-6, 6) : s.pick({ 1.0, 0.5, 2.0, 3.0 }); D.ox = off && s.b() ? s.uni(-1, 1) * D.sx * s.pwide(0, 6) : off ? 0 : s.uni(-1, 1) * D.sx; D.x = V(D.m); int g = (int)s.i(0, 3); for (int i = 0; i < D.m; i++) D.x[i] = D.ox + D.sx * (g == 0 ? s.uni(-1, 1) : g == 1 ? (D.m > 1 ? 2.0 * i / (D.m - 1) - 1 : 0) : g == 2 ? s.i(-5, 5) / 5.0 : (i % 2 ? -1 : 1) * s.uni(0.2, 1)); }
struct Stat { LD res, tot, sc; };
static Stat stats(const V& y, const std::vector<LD>& r) { Stat q{ 0, 0, 0 }; LD mean = 0; int m = y.size(); for (int i = 0; i < m; i++) mean += y[i]; mean /= m; for (int i = 0; i < m; i++) { q.res += r[i] * r[i]; q.tot += (y[i] - mean) * (y[i] - mean); q.sc += (LD)y[i] * y[i]; } return q; }
#define STATS(q, m, R, ss) do { CHECK_NEAR((double)(R).residual_norm, (double)sqrtl((q).res), (ss) + 1e-12 * (double)sqrtl((q).res), "residual norm"); double _ms = (double)((q).res / (m)); CHECK_NEAR((double)(R).mean_squared_error, _ms, 1e-11 * _ms + 2 * (ss) * std::sqrt(_ms) + (ss) * (ss), "mean squared error"); LD _n = 64 * (LD)(m) * (LD)(m) * 5e-32L * (q).sc; if ((q).tot > 1e6L * _n) { double _r2 = (double)(1 - (q).res / (q).tot), _st = (double)sqrtl((q).tot), _rr = (double)sqrtl((q).res) / _st; CHECK_NEAR((double)(R).r_squared, _r2, 1e-9 + 4 * (ss) / _st * (1 + _rr) + 1e-7 * (double)(_n / (q).tot), "r squared"); } else if ((q).sc == 0) CHECK((R).r_squared == 1, "r squared of zero data"); } while (0)

LAW(line, 2500, 25000) { Data D; D.m = (int)s.size(1, 40); xs(s, D, true); D.sy = s.pwide(-9, 6); D.oy = s.b() ? 0 : s.uni(-100, 100) * D.sy; D.y = V(D.m); bool exact = s.chance(1, 3); double A = s.uni(-3, 3) * D.sy / D.sx, B = D.oy; for (int i = 0; i < D.m; i++) D.y[i] = exact ? A * (D.x[i] - D.ox) + B : s.chance(1, 12) ? B : A * (D.x[i] - D.ox) + B + D.sy * s.uni(-1, 1); c.say([&](auto& o) { o << "line m=" << D.m << (exact ? " exact" : "") << " x="; for (int i = 0; i < std::min(6, D.m); i++) o << fmt(D.x[i]) << ","; o << " y="; for (int i = 0; i < std::min(6, D.m); i++) o << fmt(D.y[i]) << ","; }); LD mx = 0, my = 0, sxx = 0; double xm = 0, ym = 0; for (int i = 0; i < D.m; i++) { mx += D.x[i]; my += D.y[i]; xm = std::max(xm, std::fabs(D.x[i])); ym = std::max(ym, std::fabs(D.y[i])); } mx /= D.m; my /= D.m; for (int i = 0; i < D.m; i++) sxx += (D.x[i] - mx) * (D.x[i] - mx); double a = 0, b = 0; if (sxx == 0 && D.m > 2) { CHECK_THROWS((LinearLeastSquares<Real>(D.x, D.y, a, b)), SingularMatrixError, "all x equal"); CurveFittingConfig C; C.exception_policy = (EvaluationExceptionPolicy)1; auto q = LinearFitDetailed<Real>(D.x, D.y, C); CHECK(q.status == AlgorithmStatus::SingularMatrix, "status"); return; } double spread = (double)sqrtl(sxx / D.m); if (D.m > 1) DISCARD_IF(spread < 1e-7 * xm); c.nontrivial(D.m > 2); double rn = LinearLeastSquares<Real>(D.x, D.y, a, b); std::vector<LD> r(D.m); LD r0 = 0, r1 = 0; for (int i = 0; i < D.m; i++) { r[i] = (LD)D.y[i] - ((LD)a * D.x[i] + b); r0 += r[i]; r1 += r[i] * (D.x[i] - mx); } if (D.m == 1) { CHECK(rn == 0 && r[0] == 0, "one point"); } else { double e = 1e-14 * (ym + std::fabs(a) * xm) * std::sqrt(D.m + 2.0); // rounding of the coefficients and of the data
		CHECK(std::fabs((double)r0) <= D.m * e, "residuals sum to " << (double)r0 << " tol " << D.m * e); CHECK(std::fabs((double)r1) <= D.m * spread * e * 20, "residual not orthogonal to x: " << (double)r1 << " tol " << D.m * spread * e * 20); auto q = stats(D.y, r); auto R = LinearLeastSquaresDetailed<Real>(D.x, D.y); CHECK(R.a == a && R.b == b && R.residual_norm == rn, "Detailed differs"); STATS(q, D.m, R, e * std::sqrt((double)D.m)); if (exact) CHECK_NEAR(rn, 0.0, 4 * e * std::sqrt((double)D.m), "exact line not reproduced"); auto Q = LinearFitDetailed<Real>(D.x, D.y); CHECK(Q.coefficients[0] == a && Q.coefficients[1] == b && Q.r_squared == R.r_squared && Q.status == AlgorithmStatus::Success, "LinearFitDetailed differs"); } V z(D.m + 1), none; CHECK_THROWS((LinearLeastSquares<Real>(D.x, z, a, b)), CurveFittingError, "sizes"); CHECK_THROWS((LinearLeastSquares<Real>(none, none, a, b)), CurveFittingError, "empty"); }

typedef std::function<Real(Real)> F1;
static F1 basis(int k, double w) { switch (k) { case 0: return [](Real) { return 1.0; }; case 1: return [](Real x) { return x; }; case 2: return [](Real x) { return x * x; }; case 3: return [w](Real x) { return std::sin(w * x); }; case 4: return [w](Real x) { return std::cos(w * x); }; case 5: return [](Real x) { return std::exp(-x * x); }; case 6: return [](Real x) { return 1 / (1 + x * x); }; case 7: return [](Real x) { return std::fabs(x); }; default: return [w](Real x) { return std::exp(0.3 * w * x); }; } }
template<class R> static void checkFit(Case&, const Data& D, const std::vector<F1>& f, const R& q, bool exact, int n) { int m = D.m; CHECK((int)q.coefficients.size() == n, "coefficient count"); std::vector<LD> r(m); LD An = 0, cn = 0; double ym = 0; std::vector<std::vector<LD>> A(m, std::vector<LD>(n)); for (int i = 0; i < m; i++) { LD p = 0; for (int j = 0; j < n; j++) { A[i][j] = f[j](D.x[i]); p += A[i][j] * q.coefficients[j]; An += A[i][j] * A[i][j]; } r[i] = D.y[i] - p; ym = std::max(ym, std::fabs(D.y[i])); } for (int j = 0; j < n; j++) cn += (LD)q.coefficients[j] * q.coefficients[j]; double e = 1e-14 * (double)(sqrtl(m) * ym + sqrtl(An * cn)) * (m + n); for (int j = 0; j < n; j++) { LD g = 0; for (int i = 0; i < m; i++) g += A[i][j] * r[i]; CHECK(std::fabs((double)g) <= e * (double)sqrtl(An), "residual not orthogonal to basis function " << j << ": " << (double)g << " tol " << e * (double)sqrtl(An)); } auto S = stats(D.y, r); STATS(S, m, q, e); if (exact) CHECK_NEAR((double)q.residual_norm, 0.0, 2 * e, "exact data not reproduced"); LD noise = 64 * (LD)m * m * 5e-32L * S.sc; if (S.tot > 1e6L * noise) { double ad = m > n ? 1 - (1 - q.r_squared) * (m - 1.0) / (m - n) : q.r_squared; CHECK_NEAR((double)q.adjusted_r_squared, ad, 1e-12 * (1 + std::fabs(ad)), "adjusted r squared"); } }
LAW(general, 1500, 15000) { Data D; int n = (int)s.i(1, 5); D.m = n + (int)s.size(0, 30); xs(s, D, false); std::vector<F1> f; std::string bs; double w = s.uni(0.5, 2); std::vector<int> pool = { 0, 1, 2, 3, 4, 5, 6, 7, 8 }; for (int j = 0; j < n; j++) { int k = (int)s.i(0, (int)pool.size() - 1); f.push_back(basis(pool[k], w)); bs += std::to_string(pool[k]) + " "; pool.erase(pool.begin() + k); } bool exact = s.chance(1, 3); double sy = s.pwide(-9, 6); D.y = V(D.m); std::vector<double> co(n); for (auto& q : co) q = s.uni(-3, 3) * sy; for (int i = 0; i < D.m; i++) { D.y[i] = exact ? 0 : s.uni(-1, 1) * sy; for (int j = 0; j < n; j++) D.y[i] += co[j] * f[j](D.x[i]); } c.say([&](auto& o) { o << "general basis " << bs << " w=" << fmt(w) << " m=" << D.m << (exact ? " exact" : "") << " x="; for (int i = 0; i < std::min(6, D.m); i++) o << fmt(D.x[i]) << ","; }); c.nontrivial(D.m > n); Vector<F1> bf(n); std::vector<RealFunctionFromStdFunc> own; own.reserve(n); Vector<const IRealFunction*> bp(n); for (int j = 0; j < n; j++) { bf[j] = f[j]; own.emplace_back(f[j]); bp[j] = &own[j]; } auto q = GeneralLinearLeastSquares<Real>(D.x, D.y, bf), p = GeneralLinearLeastSquares<Real>(D.x, D.y, bp); auto g = GeneralLinearFitDetailed<Real>(D.x, D.y, bf); checkFit(c, D, f, q, exact, n); checkFit(c, D, f, p, exact, n); CHECK(q.num_data_points == D.m && q.num_basis_functions == n, "counts"); for (int j = 0; j < n; j++) CHECK(g.coefficients[j] == q.coefficients[j], "Detailed differs"); CHECK(g.r_squared == q.r_squared && g.effective_rank == q.effective_rank && g.condition_number == q.condition_number && g.mean_squared_error == q.mean_squared_error, "Detailed differs"); CHECK(q.effective_rank >= 1 && q.effective_rank <= n && q.condition_number >= 1, "rank " << q.effective_rank << " condition " << q.condition_number); double X = s.uni(-2, 2), e = 0; for (int j = 0; j < n; j++) e += q.coefficients[j] * f[j](X); CHECK_NEAR(q.evaluate(X, bf), e, 0.0, "evaluate"); CHECK_NEAR(q.evaluate(X, bp), e, 0.0, "evaluate"); Vector<F1> more(n + 1); CHECK_THROWS(q.evaluate(X, more), CurveFittingError, "basis count"); V z(D.m + 1), none; Vector<F1> nb; CHECK_THROWS((GeneralLinearLeastSquares<Real>(D.x, z, bf)), CurveFittingError, "sizes"); CHECK_THROWS((GeneralLinearLeastSquares<Real>(none, none, bf)), CurveFittingError, "empty"); CHECK_THROWS((GeneralLinearLeastSquares<Real>(D.x, D.y, nb)), CurveFittingError, "no basis"); if (n > 1) { int k = (int)s.i(1, n - 1); V a(k), b(k); CHECK_THROWS((GeneralLinearLeastSquares<Real>(a, b, bf)), CurveFittingError, "under-determined"); CHECK_THROWS((GeneralLinearLeastSquares<Real>(a, b, bp)), CurveFittingError, "under-determined"); } }

LAW(polynomial, 1500, 15000) { Data D; int d = (int)s.i(0, 7), n = d + 1; D.m = n + (int)s.size(0, 30); xs(s, D, false); bool exact = s.chance(1, 2); double sy = s.pwide(-9, 6); std::vector<F1> f; for (int j = 0; j < n; j++) f.push_back([j](Real x) { Real p = 1; for (int i = 0; i < j; i++) p *= x; return p; }); std::vector<double> co(n); for (auto& q : co) q = s.uni(-3, 3) * sy; D.y = V(D.m); for (int i = 0; i < D.m; i++) { D.y[i] = exact ? 0 : s.uni(-1, 1) * sy; for (int j = 0; j < n; j++) D.y[i] += co[j] * f[j](D.x[i]); } c.say([&](auto& o) { o << "polynomial degree " << d << " m=" << D.m << (exact ? " exact" : "") << " x="; for (int i = 0; i < std::min(8, D.m); i++) o << fmt(D.x[i]) << ","; }); c.nontrivial(D.m > n && d > 1); auto q = PolynomialFit<Real>(D.x, D.y, d); checkFit(c, D, f, q, exact, n); std::set<double> ux(D.x.begin(), D.x.end()); if (exact && (int)ux.size() >= n && q.condition_number < 1e6) for (int j = 0; j < n; j++) CHECK_NEAR(q.coefficients[j], co[j], 1e-13 * q.condition_number * sy * 3 * n * (D.m + 10), "coefficient " << j); auto g = PolynomialFitDetailed<Real>(D.x, D.y, d); for (int j = 0; j < n; j++) CHECK(g.coefficients[j] == q.coefficients[j], "Detailed differs"); double X = s.uni(-2, 2); LD e = 0, m = 0; for (int j = d; j >= 0; j--) { e = e * X + q.coefficients[j]; m = m * std::fabs(X) + std::fabs(q.coefficients[j]); } CHECK_NEAR(EvaluatePolynomial<Real>(X, q.coefficients), (double)e, 1e-14 * (double)m, "EvaluatePolynomial"); CHECK_THROWS((PolynomialFit<Real>(D.x, D.y, (int)s.i(-3, -1))), CurveFittingError, "negative degree"); CHECK_THROWS((PolynomialFit<Real>(D.x, D.y, D.m)), CurveFittingError, "degree too high"); if ((int)ux.size() < n && D.m > 0) c.label("repeated abscissae"); }
