// C40: descriptive statistics against long-double / sorting definitions and under shift, scale and permutation
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "algorithms/Statistics.h"
#include "algorithms/Statistics/StatisticsRank.h"
using namespace MML::Statistics;
typedef Vector<Real> V; typedef std::vector<double> S1;
static V vec(const S1& x) { V v((int)x.size()); for (size_t i = 0; i < x.size(); i++) v[(int)i] = x[i]; return v; }
static S1 data(Src& s, int lo, bool big) { int n = (int)s.size(lo, 40), g = (int)s.i(0, 3); double sc = big ? s.pwide(-18, 9) : s.pwide(-3, 3), off = s.chance(1, 3) ? s.uni(-1, 1) * sc * s.pwide(0, 5) : 0; S1 x(n); for (auto& q : x) q = off + sc * (g == 0 ? s.uni(-1, 1) : g == 1 ? (double)s.i(-3, 3) : g == 2 ? std::exp(s.uni(-4, 4)) : 0.1); return x; }
struct Def { LD mean, ss, adev, m3, m4, amax; int n; };
static Def def(const S1& x) { Def d{ 0, 0, 0, 0, 0, 0, (int)x.size() }; for (double q : x) { d.mean += q; d.amax = std::max(d.amax, (LD)std::fabs(q)); } d.mean /= d.n; for (double q : x) { LD e = q - d.mean; d.adev += fabsl(e); d.ss += e * e; d.m3 += e * e * e; d.m4 += e * e * e * e; } return d; }
static std::string show(const S1& x) { std::ostringstream o; o << "n=" << x.size() << ":"; for (size_t i = 0; i < std::min<size_t>(12, x.size()); i++) o << " " << fmt(x[i]); return o.str(); }
static double q7(const S1& s, double p) { LD r = (LD)p / 100 * ((LD)s.size() - 1); int l = (int)floorl(r + 1e-12L); if (l < 0) l = 0; if (l + 1 >= (int)s.size()) return s.back(); LD f = r - l; if (f < 1e-12L) f = 0; return (double)(s[l] + f * ((LD)s[l + 1] - s[l])); }

LAW(moments, 2500, 25000) { S1 x = data(s, 1, true); V v = vec(x); int n = (int)x.size(); c.say([&](auto& o) { o << show(x); }); c.nontrivial(n > 2); Def d = def(x); double am = (double)d.amax, e = 4e-16 * n * am; CHECK_NEAR(Mean(v), (double)d.mean, e, "mean"); CHECK(Avg(v) == Mean(v), "Avg"); if (n == 1) { CHECK_THROWS(Variance(v), StatisticsError, "variance of one value"); Real a, b, q, w, k, t; CHECK_THROWS(Moments(v, a, b, q, w, k, t), StatisticsError, "moments of one value"); return; } LD var = d.ss / (n - 1); double tv = 1e-14 * n * (double)var + 4 * e * e + (double)(8e-16L * am * sqrtl(var)); Real av, va, sd; AvgVar(v, av, va); CHECK(av == Mean(v) && va == Variance(v), "AvgVar"); CHECK_NEAR(va, (double)var, tv, "variance"); CHECK(va >= 0, "negative variance " << va); AvgStdDev(v, av, sd); CHECK(sd == StdDev(v), "StdDev"); CHECK_NEAR(sd * sd, va, 1e-14 * va, "standard deviation");
	bool flat = true; for (double q : x) flat = flat && q == x[0]; Real A, B, Cc, D, E, F; if (flat) { CHECK_THROWS(Moments(v, A, B, Cc, D, E, F), StatisticsError, "constant data"); return; } double sd0 = (double)sqrtl(var), rel = (e + 2e-16 * am) / sd0; DISCARD_IF(rel > 1e-4); Moments(v, A, B, Cc, D, E, F); CHECK_NEAR(A, (double)d.mean, e, "Moments mean"); CHECK_NEAR(B, (double)(d.adev / n), 1e-14 * n * sd0 + 2 * e, "mean deviation"); CHECK_NEAR(D, (double)var, tv, "Moments variance"); CHECK_NEAR(Cc * Cc, D, 1e-14 * D, "Moments deviation"); double sk = (double)(d.m3 / (n * var * sqrtl(var))), ku = (double)(d.m4 / (n * var * var) - 3); CHECK_NEAR(E, sk, 1e-12 * n + 20 * rel * (1 + std::fabs(ku)), "skewness"); CHECK_NEAR(F, ku, 1e-12 * n + 40 * rel * (1 + std::fabs(ku) + std::fabs(sk)) * (1 + std::fabs(ku)), "kurtosis"); }

LAW(order, 2500, 25000) { S1 x = data(s, 1, true), y = x; std::sort(y.begin(), y.end()); V v = vec(x); int n = (int)x.size(); double p = s.chance(1, 5) ? s.pick({ 0.0, 25.0, 50.0, 75.0, 100.0 }) : s.uni(0, 100), tp = s.uni(0, 49.99); double am = std::max(std::fabs(y[0]), std::fabs(y.back())), e = 1e-13 * am; c.say([&](auto& o) { o << "p=" << fmt(p) << " trim=" << fmt(tp) << " " << show(x); }); c.nontrivial(n > 1); double med = n % 2 ? y[n / 2] : (double)(((LD)y[n / 2 - 1] + y[n / 2]) / 2); CHECK_NEAR(Median(v), med, 3e-16 * am, "median"); CHECK_NEAR(Percentile(v, p), q7(y, p), e, "percentile " << p); double a, b, q; Quartiles(v, a, b, q); CHECK_NEAR(a, q7(y, 25), e, "Q1"); CHECK_NEAR(b, med, e, "Q2"); CHECK_NEAR(q, q7(y, 75), e, "Q3"); CHECK_NEAR(IQR(v), q7(y, 75) - q7(y, 25), e, "IQR"); CHECK(Range(v) == y.back() - y[0], "range"); Real lo, hi; MinMax(v, lo, hi); CHECK(lo == y[0] && hi == y.back(), "MinMax"); std::map<double, int> cnt; int best = 0; for (double z : x) best = std::max(best, ++cnt[z]); double mode = 0; for (auto& k : cnt) if (k.second == best) { mode = k.first; break; } CHECK(Mode(v) == mode, "mode " << Mode(v) << " instead of " << mode); S1 ad; for (double z : x) ad.push_back(std::fabs(z - Median(v))); std::sort(ad.begin(), ad.end()); double mad = n % 2 ? ad[n / 2] : (ad[n / 2 - 1] + ad[n / 2]) / 2; CHECK_NEAR(MAD(v), mad, e, "MAD"); int k = (int)std::floor(n * tp / 100.0 + (std::fabs(n * tp / 100.0 - std::round(n * tp / 100.0)) < 1e-9 ? 1e9 : 0)); if (k < n) { LD t = 0; for (int i = k; i < n - k; i++) t += y[i]; CHECK_NEAR(TrimmedMean(v, tp), (double)(t / (n - 2 * k)), e * n, "trimmed mean"); }
	// permutation and rescaling
	V w = v; for (int i = n - 1; i > 0; i--) std::swap(w[i], w[(int)s.i(0, i)]); CHECK(Median(w) == Median(v) && Percentile(w, p) == Percentile(v, p) && Mode(w) == Mode(v) && MAD(w) == MAD(v) && TrimmedMean(w, tp) == TrimmedMean(v, tp), "depends on the order of the data"); double f = std::ldexp(1.0, (int)s.i(-20, 20)); for (auto& z : w) z *= f; CHECK(Median(w) == f * Median(v) && Percentile(w, p) == f * Percentile(v, p) && Mode(w) == f * Mode(v) && MAD(w) == f * MAD(v), "does not scale with the data"); V none; CHECK_THROWS(Median(none), StatisticsError, "empty"); CHECK_THROWS(Percentile(none, 5), StatisticsError, "empty"); CHECK_THROWS(Mode(none), StatisticsError, "empty"); CHECK_THROWS(MAD(none), StatisticsError, "empty"); CHECK_THROWS(Mean(none), StatisticsError, "empty"); CHECK_THROWS(Range(none), StatisticsError, "empty"); CHECK_THROWS(IQR(none), StatisticsError, "empty"); double bad = s.pick({ -0.1, 100.1 }); CHECK_THROWS(Percentile(v, bad), StatisticsError, "percentile out of range"); CHECK_THROWS(TrimmedMean(v, bad), StatisticsError, "trim out of range"); CHECK_THROWS(TrimmedMean(v, 50.0), StatisticsError, "trim out of range"); }

LAW(weighted, 1500, 15000) { S1 x = data(s, 1, true); int n = (int)x.size(); V v = vec(x), w(n); LD sw = 0, sx = 0, am = 0; for (int i = 0; i < n; i++) { w[i] = s.chance(1, 6) ? 0 : s.b() ? (double)s.i(1, 5) : s.uni(0.1, 3); sw += w[i]; sx += (LD)w[i] * x[i]; am = std::max(am, (LD)std::fabs(x[i])); } c.say([&](auto& o) { o << "weighted " << show(x); }); c.nontrivial(n > 1); double e = 1e-15 * n * (double)am; if (sw <= 0) CHECK_THROWS(WeightedMean(v, w), StatisticsError, "no weight"); else { LD m = sx / sw, ss = 0; for (int i = 0; i < n; i++) ss += w[i] * (x[i] - m) * (x[i] - m); CHECK_NEAR(WeightedMean(v, w), (double)m, e * 4, "weighted mean"); if (n < 2 || sw <= 1) CHECK_THROWS(WeightedVariance(v, w), StatisticsError, "not enough weight"); else if (sw > 1.01) CHECK_NEAR(WeightedVariance(v, w), (double)(ss / (sw - 1)), 1e-12 * (double)(ss / (sw - 1)) * n + 100 * e * e + (double)(20 * e * sqrtl(ss / (sw - 1)) * sqrtl(sw)) / (sw - 1 < 1 ? (double)sqrtl(sw - 1) : 1), "weighted variance"); } S1 p(n); LD lg = 0, hs = 0; for (int i = 0; i < n; i++) { p[i] = std::fabs(x[i]) + (double)am * 1e-3 + 1e-30; lg += logl(p[i]); hs += 1 / (LD)p[i]; } V P = vec(p); CHECK_NEAR(GeometricMean(P), (double)expl(lg / n), 1e-13 * (double)expl(lg / n), "geometric mean"); CHECK_NEAR(HarmonicMean(P), (double)(n / hs), 1e-14 * n * (double)(n / hs), "harmonic mean"); double ar = Mean(P); CHECK(HarmonicMean(P) <= GeometricMean(P) * (1 + 1e-12) && GeometricMean(P) <= ar * (1 + 1e-12), "means out of order"); P[(int)s.i(0, n - 1)] = s.pick({ 0.0, -1.0 }); CHECK_THROWS(GeometricMean(P), StatisticsError, "non-positive value"); CHECK_THROWS(HarmonicMean(P), StatisticsError, "non-positive value"); V w2(n + 1); CHECK_THROWS(WeightedMean(v, w2), StatisticsError, "sizes"); w[(int)s.i(0, n - 1)] = -0.5; CHECK_THROWS(WeightedMean(v, w), StatisticsError, "negative weight"); }

static S1 ranks(const S1& x) { int n = (int)x.size(); S1 r(n); for (int i = 0; i < n; i++) { int less = 0, eq = 0; for (int j = 0; j < n; j++) { less += x[j] < x[i]; eq += x[j] == x[i]; } r[i] = less + (eq + 1) / 2.0; } return r; }
static bool flat(const S1& x) { for (double q : x) if (q != x[0]) return false; return true; }
static double pear(const S1& x, const S1& y) { Def a = def(x), b = def(y); LD c = 0; for (size_t i = 0; i < x.size(); i++) c += (x[i] - a.mean) * (y[i] - b.mean); return (double)(c / sqrtl(a.ss) / sqrtl(b.ss)); }
LAW(correlation, 2000, 20000) { S1 x = data(s, 2, true), y(x.size()); int n = (int)x.size(), g = (int)s.i(0, 3); double sc = s.pwide(-18, 9); for (int i = 0; i < n; i++) y[i] = g == 0 ? sc * s.uni(-1, 1) : g == 1 ? sc * s.i(-2, 2) : g == 2 ? sc * 0.3 * i : (s.chance(1, 4) ? sc * s.uni(-1, 1) : 0.7 * sc); V X = vec(x), Y = vec(y); c.say([&](auto& o) { o << "x " << show(x) << " y " << show(y); }); bool fx = flat(x), fy = flat(y); if (fx || fy) { CHECK_THROWS(PearsonCorrelation(X, Y), StatisticsError, "constant data"); CHECK_THROWS(SpearmanCorrelation(X, Y), StatisticsError, "constant data"); CHECK(KendallCorrelation(X, Y) == 0, "Kendall of constant data"); Matrix<Real> M(n, 2); for (int i = 0; i < n; i++) { M(i, 0) = x[i]; M(i, 1) = y[i]; } CHECK_THROWS(CorrelationMatrix(M), StatisticsError, "constant column"); return; } c.nontrivial(n > 2); Def a = def(x), b = def(y); LD cv = 0; for (int i = 0; i < n; i++) cv += (x[i] - a.mean) * (y[i] - b.mean); double ex = 1e-15 * n * (double)a.amax, ey = 1e-15 * n * (double)b.amax, sx = (double)sqrtl(a.ss), sy = (double)sqrtl(b.ss); double tc = (1e-14 * n * sx * sy + 2 * n * ex * ey + (ex * sy + ey * sx)) / (n - 1); CHECK_NEAR(Covariance(X, Y), (double)(cv / (n - 1)), tc, "covariance"); CHECK_NEAR(Covariance(X, Y), Covariance(Y, X), tc, "covariance not symmetric"); DISCARD_IF(ex > 1e-5 * sx || ey > 1e-5 * sy); double r = pear(x, y), tr = 1e-13 * n + 10 * (ex / sx + ey / sy); double R = PearsonCorrelation(X, Y); CHECK_NEAR(R, r, tr, "Pearson"); CHECK(std::fabs(R) <= 1 + 1e-12, "correlation " << R); CHECK_NEAR(RSquared(X, Y), R * R, 1e-15, "RSquared"); if (n > 2) { auto T = PearsonCorrelationWithTest(X, Y); CHECK(T.r == R && T.degreesOfFreedom == n - 2, "test"); if (R * R < 1 - 1e-9) { double t = R * std::sqrt((n - 2) / (1 - R * R)); CHECK_NEAR(T.tStatistic, t, 1e-9 * (1 + std::fabs(t)), "t statistic"); } } else CHECK_THROWS(PearsonCorrelationWithTest(X, Y), StatisticsError, "two points");
	S1 rx = ranks(x), ry = ranks(y); V G = ComputeRanks(X), H = ComputeRanks(Y); for (int i = 0; i < n; i++) { CHECK(G[i] == rx[i], "rank of " << fmt(x[i]) << " is " << G[i] << " not " << rx[i]); CHECK(H[i] == ry[i], "rank of " << fmt(y[i]) << " is " << H[i] << " not " << ry[i]); } double rho = pear(rx, ry); CHECK_NEAR(SpearmanCorrelation(X, Y), rho, 1e-12, "Spearman"); long C = 0, D = 0, tx = 0, ty = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { int p = (x[i] < x[j]) - (x[i] > x[j]), q = (y[i] < y[j]) - (y[i] > y[j]); if (p && q) (p == q ? C : D)++; else if (p) ty++; else if (q) tx++; } double tau = (C - D) / std::sqrt((double)(C + D + tx) * (double)(C + D + ty)); CHECK_NEAR(KendallCorrelation(X, Y), tau, 1e-13, "Kendall"); if (n >= 3) { auto t1 = SpearmanCorrelationWithTest(X, Y); CHECK_NEAR(t1.zScore, rho * std::sqrt(n - 1.0), 1e-11 * std::sqrt((double)n), "Spearman z"); CHECK(t1.n == n && t1.IsSignificant(0.05) == (std::fabs(t1.zScore) > 1.96) && t1.IsSignificant(0.01) == (std::fabs(t1.zScore) > 2.576), "significance"); auto t2 = KendallCorrelationWithTest(X, Y); CHECK_NEAR(t2.rho, tau, 1e-13, "Kendall test"); CHECK_NEAR(t2.zScore, tau * std::sqrt(9.0 * n * (n - 1) / (2.0 * (2 * n + 5))), 1e-11 * n, "Kendall z"); auto d1 = SpearmanCorrelationDetailed(X, Y); auto d2 = KendallCorrelationWithTestDetailed(X, Y); CHECK(d1.rho == SpearmanCorrelation(X, Y) && d1.n == n && d2.rho == t2.rho && d2.zScore == t2.zScore, "Detailed"); }
	// invariance under a monotone rescaling
	double f = std::ldexp(1.0, (int)s.i(-60, 60)); V Z(n), N(n); for (int i = 0; i < n; i++) { Z[i] = x[i] * f; N[i] = -x[i]; } CHECK_NEAR(SpearmanCorrelation(Z, Y), rho, 1e-12, "Spearman changes with the unit of x"); CHECK_NEAR(KendallCorrelation(Z, Y), tau, 1e-13, "Kendall changes with the unit of x"); CHECK_NEAR(SpearmanCorrelation(N, Y), -rho, 1e-12, "Spearman of reversed data"); CHECK_NEAR(KendallCorrelation(N, Y), -tau, 1e-13, "Kendall of reversed data"); CHECK_NEAR(PearsonCorrelation(Z, Y), R, 1e-12, "Pearson changes with the unit of x"); V W(n + 1); CHECK_THROWS(PearsonCorrelation(X, W), StatisticsError, "sizes"); CHECK_THROWS(Covariance(X, W), StatisticsError, "sizes"); CHECK_THROWS(SpearmanCorrelation(X, W), StatisticsError, "sizes"); CHECK_THROWS(KendallCorrelation(X, W), StatisticsError, "sizes"); }

LAW(matrices, 600, 6000) { int p = (int)s.i(1, 5), n = (int)s.size(2, 20); Matrix<Real> M(n, p); std::vector<S1> col(p); for (int j = 0; j < p; j++) { double sc = s.pwide(-3, 3), off = s.uni(-3, 3) * sc; for (int i = 0; i < n; i++) { double v = off + sc * s.uni(-1, 1) + (j && s.b() ? M(i, j - 1) : 0); M(i, j) = v; col[j].push_back(v); } } c.say([&](auto& o) { o << "matrix " << n << "x" << p << " col0 " << show(col[0]); }); c.nontrivial(p > 1); for (auto& q : col) { Def d = def(q); DISCARD_IF(sqrtl(d.ss) < 1e-6L * d.amax); } auto C = CovarianceMatrix(M), R = CorrelationMatrix(M); CHECK(C.rows() == p && C.cols() == p && R.rows() == p, "size"); for (int i = 0; i < p; i++) for (int j = 0; j < p; j++) { V a = vec(col[i]), b = vec(col[j]); double e = 1e-14 * n * std::sqrt(Variance(a) * Variance(b)) + 1e-15 * n * (double)(def(col[i]).amax * std::sqrt(Variance(b)) + def(col[j]).amax * std::sqrt(Variance(a))); CHECK_NEAR(C(i, j), Covariance(a, b), e, "covariance matrix"); CHECK(C(i, j) == C(j, i), "not symmetric"); CHECK_NEAR(R(i, j), pear(col[i], col[j]), 1e-9, "correlation matrix"); } Matrix<Real> one(1, p); CHECK_THROWS(CovarianceMatrix(one), StatisticsError, "one row"); CHECK_THROWS(CorrelationMatrix(one), StatisticsError, "one row"); }
