// C42: hypothesis tests and confidence intervals against direct long-double evaluation and Boost distributions
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "algorithms/Statistics.h"
#include "algorithms/Statistics/StatisticsHypothesis.h"
#include "algorithms/Statistics/StatisticsConfidence.h"
#include <boost/math/distributions.hpp>
namespace bm = boost::math; using namespace MML::Statistics;
typedef Vector<Real> V; typedef std::vector<double> S1; typedef HypothesisTestResult H; typedef ConfidenceInterval CI;
static V vec(const S1& x) { V v((int)x.size()); for (size_t i = 0; i < x.size(); i++) v[(int)i] = x[i]; return v; }
static std::string show(const S1& x) { std::ostringstream o; o << "{"; for (size_t i = 0; i < std::min<size_t>(10, x.size()); i++) o << (i ? "," : "") << fmt(x[i]); o << "}n=" << x.size(); return o.str(); }
static S1 data(Src& s, int lo, double sc, double off) { int n = (int)s.size(lo, 30), g = (int)s.i(0, 2); S1 x(n); for (auto& q : x) q = off + sc * (g == 0 ? s.uni(-1, 1) : g == 1 ? (double)s.i(-3, 3) : std::exp(s.uni(-2, 2))); return x; }
struct Mv { LD m = 0, v = 0; int n; double am = 0; bool flat = true; Mv(const S1& x) : n((int)x.size()) { for (double q : x) { m += q; am = std::max(am, std::fabs(q)); flat = flat && q == x[0]; } m /= n; for (double q : x) v += (q - m) * (q - m); v /= n - 1; } };
static double level(Src& s) { return s.b() ? s.pick({ 0.05, 0.01, 0.1, 0.001, 0.5, 0.9 }) : s.chance(1, 4) ? s.pwide(-8, -1) : s.uni(0.001, 0.999); }
static double badLevel(Src& s) { return s.b() ? s.pick({ 0.0, 1.0 }) : s.b() ? -s.pwide(-3, 2) : 1 + s.pwide(-3, 2); }
static double tcrit(double df, double a) { return bm::quantile(bm::complement(bm::students_t(df), a / 2)); }
static double tp(double df, double t) { return 2 * bm::cdf(bm::complement(bm::students_t(df), std::fabs(t))); }
static void decision(const H& r, double stat, double alpha) { CHECK(r.confidenceLevel == 1 - alpha, "level"); if (std::fabs(stat - r.criticalValue) > 1e-6 * (1 + stat)) { CHECK(r.rejectNull == (stat > r.criticalValue), "decision"); if (std::fabs(r.pValue - alpha) > 1e-9) CHECK(r.rejectNull == (r.pValue < alpha), "decision against p-value " << r.pValue); } }
static void isT(const H& r, double t, double df, double alpha, double rel) { CHECK_NEAR(r.testStatistic, t, 1e-11 * std::fabs(t) + rel * (1 + std::fabs(t)), "t statistic"); CHECK(r.degreesOfFreedom == (int)df, "degrees of freedom " << r.degreesOfFreedom << " instead of " << df); CHECK_NEAR(r.pValue, tp(df, r.testStatistic), 1e-11, "p-value"); double cv = tcrit(df, alpha); CHECK_NEAR(r.criticalValue, cv, 1e-7 * (1 + cv), "critical value"); decision(r, std::fabs(r.testStatistic), alpha); }
static bool same(const H& a, const H& b) { return a.testStatistic == b.testStatistic && a.pValue == b.pValue && a.criticalValue == b.criticalValue && a.rejectNull == b.rejectNull && a.degreesOfFreedom == b.degreesOfFreedom && a.confidenceLevel == b.confidenceLevel && a.testName == b.testName; }
template<class D> static bool same(const D& d, const H& b) { return d.IsSuccess() && d.testStatistic == b.testStatistic && d.pValue == b.pValue && d.criticalValue == b.criticalValue && d.rejectNull == b.rejectNull && d.degreesOfFreedom == b.degreesOfFreedom && d.confidenceLevel == b.confidenceLevel && d.testName == b.testName; }
static bool sameCI(const ConfidenceIntervalDetailedResult& d, const CI& b) { return d.IsSuccess() && d.estimate == b.estimate && d.lowerBound == b.lowerBound && d.upperBound == b.upperBound && d.marginOfError == b.marginOfError && d.confidenceLevel == b.confidenceLevel && d.parameter == b.parameter; }
static void isCI(const CI& r, double est, double margin, double conf, double tol) { CHECK_NEAR(r.estimate, est, tol, "estimate"); CHECK_NEAR(r.marginOfError, margin, 1e-7 * margin + tol * 10 * (1 + (margin > 0 ? 1 : 0)), "margin"); CHECK(r.confidenceLevel == conf, "level"); CHECK_NEAR(r.lowerBound, r.estimate - r.marginOfError, 1e-15 * (std::fabs(r.estimate) + r.marginOfError), "lower bound"); CHECK_NEAR(r.upperBound, r.estimate + r.marginOfError, 1e-15 * (std::fabs(r.estimate) + r.marginOfError), "upper bound"); }
static double sens(const Mv& a) { return (double)(4e-16L * a.n * a.am / sqrtl(a.v / a.n)); }

LAW(one_sample, 4000, 40000) { double sc = s.pwide(-12, 6), off = s.b() ? 0 : s.uni(-3, 3) * sc; S1 x = data(s, 2, sc, off); double al = level(s); Mv d(x); double mu = s.b() ? off + sc * s.uni(-1, 1) : s.b() ? (double)d.m : x[0]; V v = vec(x); c.say([&](auto& o) { o << "x=" << show(x) << " mu0=" << fmt(mu) << " alpha=" << fmt(al); }); DISCARD_IF(d.flat); double e = sens(d); DISCARD_IF(e > 1e-6); c.nontrivial(x.size() > 2); double t = (double)((d.m - mu) / sqrtl(d.v / d.n)); H r = OneSampleTTest(v, mu, al); isT(r, t, d.n - 1, al, e + 4e-16 * std::fabs(mu) / (double)sqrtl(d.v / d.n)); CHECK(same(OneSampleTTestDetailed(v, mu, al), r), "Detailed"); double k = std::ldexp(1.0, (int)s.i(-30, 30)); V w = v * k; H r2 = OneSampleTTest(w, mu * k, al); CHECK(r2.testStatistic == r.testStatistic && r2.pValue == r.pValue, "depends on the unit"); double ba = badLevel(s); CHECK_THROWS(OneSampleTTest(v, mu, ba), StatisticsError, "level"); V one(1); CHECK_THROWS(OneSampleTTest(one, mu, al), StatisticsError, "one value");
	// a stronger effect never raises the p-value
	double mu2 = (double)d.m + (mu - (double)d.m) * s.uni(1, 3); CHECK(OneSampleTTest(v, mu2, al).pValue <= r.pValue + 1e-11 + 1e-6 * e, "p-value grows with the effect"); V after(v.size()), z(v.size()); for (int i = 0; i < v.size(); i++) { after[i] = s.uni(-1, 1) * sc; z[i] = after[i] - v[i]; } Mv dz(S1(z.begin(), z.end())); if (!dz.flat) { H p = PairedTTest(v, after, al), q = OneSampleTTest(z, 0.0, al); q.testName = p.testName; CHECK(same(p, q), "paired test is the one-sample test of the differences"); CHECK(same(PairedTTestDetailed(v, after, al), p), "Detailed"); } CHECK_THROWS(PairedTTest(v, V(v.size() + 1), al), StatisticsError, "sizes"); CHECK_THROWS(PairedTTest(v, after, ba), StatisticsError, "level");
	double cf = 1 - al; isCI(ConfidenceIntervalMean(v, cf), (double)d.m, tcrit(d.n - 1, 1 - cf) * (double)sqrtl(d.v / d.n), cf, 1e-15 * d.n * d.am * (1 + tcrit(d.n - 1, 1 - cf))); CI ci = ConfidenceIntervalMean(v, cf); CHECK(sameCI(ConfidenceIntervalMeanDetailed(v, cf), ci), "Detailed"); double cm = OneSampleTTest(v, mu, 1 - cf).criticalValue; (void)cm; bool inside = mu > ci.lowerBound && mu < ci.upperBound; if (std::fabs(std::fabs(r.testStatistic) - r.criticalValue) > 1e-5 * (1 + r.criticalValue) + 10 * e * (1 + std::fabs(t))) CHECK(inside == !r.rejectNull, "interval and test disagree"); CHECK_THROWS(ConfidenceIntervalMean(v, ba), StatisticsError, "level"); CHECK_THROWS(ConfidenceIntervalMean(one, cf), StatisticsError, "one value"); CI pd = ConfidenceIntervalPairedDifference(v, after, cf), qd = ConfidenceIntervalMean(z, cf); CHECK(pd.estimate == qd.estimate && pd.lowerBound == qd.lowerBound && pd.upperBound == qd.upperBound, "paired interval"); CHECK(sameCI(ConfidenceIntervalPairedDifferenceDetailed(v, after, cf), pd), "Detailed"); CHECK_THROWS(ConfidenceIntervalPairedDifference(v, V(v.size() + 1), cf), StatisticsError, "sizes"); }

LAW(two_sample, 4000, 40000) { double sc = s.pwide(-12, 6), off = s.b() ? 0 : s.uni(-3, 3) * sc; S1 x = data(s, 2, sc, off), y = data(s, 2, sc * (s.b() ? 1 : s.pwide(-2, 2)), off); double al = level(s); V a = vec(x), b = vec(y); Mv d(x), f(y); c.say([&](auto& o) { o << "x=" << show(x) << " y=" << show(y) << " alpha=" << fmt(al); }); DISCARD_IF(d.flat && f.flat); c.nontrivial(x.size() != y.size()); LD pv = ((d.n - 1) * d.v + (f.n - 1) * f.v) / (d.n + f.n - 2), se = sqrtl(pv * (1.0L / d.n + 1.0L / f.n)), s1 = d.v / d.n, s2 = f.v / f.n, sw = sqrtl(s1 + s2); double am = std::max(d.am, f.am), e = (double)(4e-16L * (d.n + f.n) * am / std::min(se, sw)); DISCARD_IF(e > 1e-6); double df = d.n + f.n - 2; H r = TwoSampleTTest(a, b, al); isT(r, (double)((d.m - f.m) / se), df, al, e); CHECK(same(TwoSampleTTestDetailed(a, b, al), r), "Detailed"); LD nu = (s1 + s2) * (s1 + s2) / (s1 * s1 / (d.n - 1) + s2 * s2 / (f.n - 1)); H w = WelchTTest(a, b, al); if (fabsl(nu - roundl(nu)) > 1e-9 + 100 * e) isT(w, (double)((d.m - f.m) / sw), std::max(1.0, (double)floorl(nu)), al, e); else CHECK(std::abs(w.degreesOfFreedom - (int)roundl(nu)) <= 1, "degrees of freedom"); CHECK(same(WelchTTestDetailed(a, b, al), w), "Detailed"); H q = TwoSampleTTest(b, a, al); CHECK_NEAR(q.testStatistic, -r.testStatistic, 1e-14 * std::fabs(r.testStatistic), "not antisymmetric"); double ba = badLevel(s); V one(1); CHECK_THROWS(TwoSampleTTest(a, b, ba), StatisticsError, "level"); CHECK_THROWS(WelchTTest(a, b, ba), StatisticsError, "level"); CHECK_THROWS(TwoSampleTTest(a, one, al), StatisticsError, "one value"); CHECK_THROWS(TwoSampleTTest(one, b, al), StatisticsError, "one value"); CHECK_THROWS(WelchTTest(a, one, al), StatisticsError, "one value"); CHECK_THROWS(WelchTTest(one, b, al), StatisticsError, "one value"); double cf = 1 - al; CI ci = ConfidenceIntervalMeanDifference(a, b, cf); double tc = tcrit(df, 1 - cf); isCI(ci, (double)(d.m - f.m), tc * (double)se, cf, 1e-15 * df * am * (1 + tc)); CHECK(sameCI(ConfidenceIntervalMeanDifferenceDetailed(a, b, cf), ci), "Detailed"); CHECK_THROWS(ConfidenceIntervalMeanDifference(a, b, ba), StatisticsError, "level"); CHECK_THROWS(ConfidenceIntervalMeanDifference(a, one, cf), StatisticsError, "one value"); CHECK_THROWS(ConfidenceIntervalMeanDifference(one, b, cf), StatisticsError, "one value"); }

LAW(no_spread, 1000, 10000) { double u = std::ldexp(1.0, (int)s.i(-60, 40)), p = u * s.i(-4, 4), q = s.b() ? p : u * s.i(-4, 4), al = level(s); int n = (int)s.size(2, 16), m = (int)s.size(2, 16); V a(n, p), b(m, q); c.say([&](auto& o) { o << n << " x " << fmt(p) << " against " << m << " x " << fmt(q) << " alpha=" << fmt(al); }); c.nontrivial(true); auto ok = [&](const H& r, const char* w) { CHECK(r.confidenceLevel == 1 - al, "level"); if (p == q) CHECK(r.testStatistic == 0 && r.pValue == 1 && !r.rejectNull, w << ": equal constants, t=" << r.testStatistic << " p=" << r.pValue); else CHECK((p > q ? r.testStatistic > 100 : r.testStatistic < -100) && r.pValue == 0 && r.rejectNull, w << ": different constants, t=" << r.testStatistic << " p=" << r.pValue << " reject " << r.rejectNull); }; ok(OneSampleTTest(a, q, al), "one-sample"); ok(TwoSampleTTest(a, b, al), "two-sample"); ok(WelchTTest(a, b, al), "Welch"); V z(n, q); H pr = PairedTTest(z, a, al); ok(pr, "paired"); H f = OneWayANOVA({ a, b }, al); if (p == q) CHECK(f.testStatistic == 0 && f.pValue == 1 && !f.rejectNull, "ANOVA of equal constants: F=" << f.testStatistic << " p=" << f.pValue); else CHECK(f.testStatistic > 1e6 && f.pValue == 0 && f.rejectNull, "ANOVA of different constants: F=" << f.testStatistic << " p=" << f.pValue); }

LAW(chi_square, 3000, 30000) { double al = level(s), ba = badLevel(s); if (s.b()) { int k = (int)s.size(2, 12); S1 ob(k), ex(k); LD so = 0, se = 0; for (int i = 0; i < k; i++) { ob[i] = s.chance(1, 6) ? 0 : (double)s.i(1, 40); ex[i] = s.b() ? (double)s.i(1, 30) : s.uni(0.5, 30); so += ob[i]; se += ex[i]; } DISCARD_IF(so == 0); bool bad = s.chance(1, 8); for (double& q : ex) q *= (double)(so / se) * (bad ? 1.01 : 1); V O = vec(ob), E = vec(ex); c.say([&](auto& o) { o << "observed " << show(ob) << " expected " << show(ex) << " alpha=" << fmt(al); }); if (bad) { CHECK_THROWS(ChiSquareGoodnessOfFit(O, E, al), StatisticsError, "totals differ"); return; } c.nontrivial(k > 2); LD x2 = 0; for (int i = 0; i < k; i++) x2 += ((LD)ob[i] - ex[i]) * ((LD)ob[i] - ex[i]) / ex[i]; H r = ChiSquareGoodnessOfFit(O, E, al); bm::chi_squared B(k - 1); CHECK_NEAR(r.testStatistic, (double)x2, 1e-12 * (1 + (double)x2), "statistic"); CHECK(r.degreesOfFreedom == k - 1, "df"); CHECK_NEAR(r.pValue, bm::cdf(bm::complement(B, (double)x2)), 1e-11, "p-value"); double cv = bm::quantile(bm::complement(B, al)); CHECK_NEAR(r.criticalValue, cv, 1e-6 * cv, "critical value"); decision(r, r.testStatistic, al); CHECK(same(ChiSquareGoodnessOfFitDetailed(O, E, al), r), "Detailed"); CHECK_THROWS(ChiSquareGoodnessOfFit(O, E, ba), StatisticsError, "level"); CHECK_THROWS(ChiSquareGoodnessOfFit(O, V(k + 1, 1.0), al), StatisticsError, "sizes"); V E2 = E; int j = (int)s.i(0, k - 1); E2[j] = s.b() ? 0 : -E2[j]; CHECK_THROWS(ChiSquareGoodnessOfFit(O, E2, al), StatisticsError, "expected not positive"); V O2 = O; O2[j] = -1; CHECK_THROWS(ChiSquareGoodnessOfFit(O2, E, al), StatisticsError, "observed negative"); CHECK_THROWS(ChiSquareGoodnessOfFit(V(1, 1.0), V(1, 1.0), al), StatisticsError, "one category"); }
	else { int R = (int)s.size(2, 6), C = (int)s.i(2, 6); Matrix<Real> T(R, C); std::vector<LD> rt(R, 0), ct(C, 0); LD g = 0; std::ostringstream sh; for (int i = 0; i < R; i++) { for (int j = 0; j < C; j++) { T(i, j) = s.chance(1, 4) ? 0 : (double)s.i(1, 40); rt[i] += T(i, j); ct[j] += T(i, j); g += T(i, j); sh << T(i, j) << " "; } sh << "; "; } c.say([&](auto& o) { o << "table " << sh.str() << " alpha=" << fmt(al); }); bool empty = false; for (LD q : rt) empty = empty || q == 0; for (LD q : ct) empty = empty || q == 0; if (empty) { CHECK_THROWS(ChiSquareIndependence(T, al), StatisticsError, "empty row or column"); return; } c.nontrivial(R != C); LD x2 = 0; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { LD e = rt[i] * ct[j] / g; x2 += (T(i, j) - e) * (T(i, j) - e) / e; } int df = (R - 1) * (C - 1); bm::chi_squared B(df); H r = ChiSquareIndependence(T, al); CHECK_NEAR(r.testStatistic, (double)x2, 1e-12 * (1 + (double)x2), "statistic"); CHECK(r.degreesOfFreedom == df, "df"); CHECK_NEAR(r.pValue, bm::cdf(bm::complement(B, (double)x2)), 1e-11, "p-value"); double cv = bm::quantile(bm::complement(B, al)); CHECK_NEAR(r.criticalValue, cv, 1e-6 * cv, "critical value"); decision(r, r.testStatistic, al); CHECK(same(ChiSquareIndependenceDetailed(T, al), r), "Detailed"); Matrix<Real> Tt(C, R); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) Tt(j, i) = T(i, j); CHECK_NEAR(ChiSquareIndependence(Tt, al).testStatistic, r.testStatistic, 1e-12 * (1 + (double)x2), "transposed table"); CHECK_THROWS(ChiSquareIndependence(T, ba), StatisticsError, "level"); T((int)s.i(0, R - 1), (int)s.i(0, C - 1)) = -1; CHECK_THROWS(ChiSquareIndependence(T, al), StatisticsError, "negative"); Matrix<Real> thin(1, C, 1.0); CHECK_THROWS(ChiSquareIndependence(thin, al), StatisticsError, "one row"); } }

LAW(anova, 3000, 30000) { int k = (int)s.size(2, 6); double sc = s.pwide(-9, 6), off = s.b() ? 0 : s.uni(-3, 3) * sc, al = level(s); std::vector<V> G; LD gs = 0, ssw = 0, ssb = 0; int N = 0; double am = 0; std::vector<LD> m(k); std::vector<S1> X; for (int i = 0; i < k; i++) { X.push_back(data(s, 2, sc, off + (s.b() ? s.uni(-1, 1) * sc : 0))); Mv d(X[i]); m[i] = d.m; N += d.n; gs += d.m * d.n; ssw += d.v * (d.n - 1); am = std::max(am, d.am); G.push_back(vec(X[i])); } gs /= N; for (int i = 0; i < k; i++) ssb += X[i].size() * (m[i] - gs) * (m[i] - gs); c.say([&](auto& o) { o << "alpha=" << fmt(al); for (auto& x : X) o << " " << show(x); }); DISCARD_IF(sqrtl(ssw / N) < 1e-9L * am); c.nontrivial(k > 2); int d1 = k - 1, d2 = N - k; LD msw = ssw / d2; double F = (double)(ssb / d1 / msw), e = (double)(4e-16L * N * am / sqrtl(msw)); H r = OneWayANOVA(G, al); CHECK_NEAR(r.testStatistic, F, 1e-11 * (1 + F) + 20 * e * (1 + F), "F"); CHECK(r.degreesOfFreedom == d1, "df"); bm::fisher_f B(d1, d2); CHECK_NEAR(r.pValue, bm::cdf(bm::complement(B, r.testStatistic)), 1e-11, "p-value"); double cv = bm::quantile(bm::complement(B, al)); CHECK_NEAR(r.criticalValue, cv, 1e-6 * cv, "critical value"); decision(r, r.testStatistic, al); CHECK(same(OneWayANOVADetailed(G, al), r), "Detailed"); std::reverse(G.begin(), G.end()); CHECK_NEAR(OneWayANOVA(G, al).testStatistic, r.testStatistic, 1e-11 * (1 + F) + 20 * e * (1 + F), "order of the groups"); if (k == 2) { double t = TwoSampleTTest(G[0], G[1], al).testStatistic; CHECK_NEAR(t * t, r.testStatistic, 1e-10 * (1 + F) + 40 * e * (1 + F), "F is t^2 for two groups"); } double ba = badLevel(s); CHECK_THROWS(OneWayANOVA(G, ba), StatisticsError, "level"); std::vector<V> one(1, G[0]); CHECK_THROWS(OneWayANOVA(one, al), StatisticsError, "one group"); G.push_back(V(1)); CHECK_THROWS(OneWayANOVA(G, al), StatisticsError, "group of one"); }

LAW(proportion, 3000, 30000) { int n = s.chance(1, 5) ? (int)s.i(1, 100000) : (int)s.i(1, 60), x = s.chance(1, 5) ? (s.b() ? 0 : n) : (int)s.i(0, n), n2 = (int)s.i(1, 60), x2 = (int)s.i(0, n2); double cf = 1 - level(s); c.say([&](auto& o) { o << x << "/" << n << " " << x2 << "/" << n2 << " conf=" << fmt(cf); }); c.nontrivial(x > 0 && x < n); double z = bm::quantile(bm::complement(bm::normal(), (1 - cf) / 2)), p = (double)x / n, q = (double)x2 / n2, se = std::sqrt(p * (1 - p) / n), sd = std::sqrt(p * (1 - p) / n + q * (1 - q) / n2); CI r = ConfidenceIntervalProportion(x, n, cf); CHECK_NEAR(r.estimate, p, 1e-15, "estimate"); CHECK_NEAR(r.marginOfError, z * se, 1e-8 * (1 + z) * se, "margin"); CHECK_NEAR(r.lowerBound, std::max(0.0, p - r.marginOfError), 1e-15, "lower"); CHECK_NEAR(r.upperBound, std::min(1.0, p + r.marginOfError), 1e-15, "upper"); CHECK(r.confidenceLevel == cf, "level"); CHECK(sameCI(ConfidenceIntervalProportionDetailed(x, n, cf), r), "Detailed"); CI t = ConfidenceIntervalProportionDifference(x, n, x2, n2, cf); isCI(t, p - q, z * sd, cf, 1e-8 * (1 + z) * sd + 1e-15); CHECK(sameCI(ConfidenceIntervalProportionDifferenceDetailed(x, n, x2, n2, cf), t), "Detailed"); double ba = badLevel(s); CHECK_THROWS(ConfidenceIntervalProportion(x, n, ba), StatisticsError, "level"); CHECK_THROWS(ConfidenceIntervalProportion(n + 1, n, cf), StatisticsError, "too many"); CHECK_THROWS(ConfidenceIntervalProportion(-1, n, cf), StatisticsError, "negative"); CHECK_THROWS(ConfidenceIntervalProportion(0, 0, cf), StatisticsError, "no trials"); CHECK_THROWS(ConfidenceIntervalProportionDifference(x, n, n2 + 1, n2, cf), StatisticsError, "too many"); CHECK_THROWS(ConfidenceIntervalProportionDifference(-1, n, x2, n2, cf), StatisticsError, "negative"); CHECK_THROWS(ConfidenceIntervalProportionDifference(x, n, 0, 0, cf), StatisticsError, "no trials"); CHECK_THROWS(ConfidenceIntervalProportionDifference(x, n, x2, n2, ba), StatisticsError, "level"); }
