// C41: distributions against Boost.Math (independent implementation) plus consistency of density, CDF and quantile
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "algorithms/Statistics.h"
#include "algorithms/Statistics/Distributions.h"
#include <boost/math/distributions.hpp>
namespace bm = boost::math; using namespace MML::Statistics;
typedef bm::policies::policy<bm::policies::promote_double<true>, bm::policies::overflow_error<bm::policies::ignore_error>> Pol;
static double prob(Src& s) { int g = (int)s.i(0, 6); return g == 0 ? s.pwide(-8, -1) : g == 1 ? 1 - s.pwide(-8, -1) : g == 2 ? s.pick({ 0.5, 0.025, 0.975, 0.01, 0.99, 0.02425, 0.97575, 0.25, 0.75 }) : s.uni(0.001, 0.999); }

// the reference quantile; Boost occasionally fails to converge for the beta distribution
template<class B> static double bq(const B& b, double p) { double q = 0; bool ok = true; try { q = bm::quantile(b, p); } catch (std::exception&) { ok = false; } DISCARD_IF(!ok); return q; }
template<class D> static double quant(const D& d, double p) { return d.inverseCdf(p); }
template<> double quant(const ChiSquareDistribution& d, double p) { return d.criticalValue(1 - p); }
template<> double quant(const FDistribution& d, double p) { return d.criticalValue(1 - p); }
template<class D, class B> static void same(Src& s, pbt::Case& c, const D& d, const B& b, double spread, double ct, double qt) {
	double p = prob(s), up = bm::support(b).second, dn = bm::support(b).first, med; if (std::fabs(dn) < 1e-300) dn = 0; med = bq(b, 0.5); int g = (int)s.i(0, 5); double u = g <= 2 ? bq(b, prob(s)) : g == 3 ? med + spread * s.pwide(-2, 3) : g == 4 ? med - spread * s.pwide(-2, 3) : dn > -1e300 ? dn : med; bool in = u > dn && u < up; c.say([&](auto& o) { o << " x=" << fmt(u) << " p=" << fmt(p); }); c.nontrivial(in && std::fabs(p - 0.5) > 0.4); if (std::is_same<D, ExponentialDistribution>::value && u < 0) u = -u; in = u > dn && u < up; double F = d.cdf(u), f = d.pdf(u); CHECK(F >= 0 && F <= 1, "cdf " << F << " outside [0,1]"); CHECK(f >= 0, "density " << f);
	if (in) { double f0 = bm::pdf(b, u), F0 = bm::cdf(b, u); CHECK_NEAR(F, F0, ct, "cdf"); if (f0 > 1e-290 && f0 < 1e290) CHECK_NEAR(f, f0, (1e-11 + 10 * ct) * f0 * (1 + std::fabs(std::log(f0))), "pdf"); double w = std::min({ spread, u - dn, up - u }), h = 1e-3 * w; if (w > 1e-3 * spread && w > 1e-9 * std::fabs(u) && f0 > 1e-3 / spread && f0 < 1e3 / spread) { auto slope = [&](auto F) { return (8 * (F(u + h) - F(u - h)) - (F(u + 2 * h) - F(u - 2 * h))) / (12 * h); }; double der = slope([&](double q) { return d.cdf(q); }), der0 = slope([&](double q) { return (double)bm::cdf(b, q); }); CHECK_NEAR(der, der0, 3 * ct / h + 1e-9 * f0, "slope of the cdf"); if (std::fabs(der0 - f0) < 1e-7 * f0) CHECK_NEAR(der, f, 3 * ct / h + 1e-6 * f0, "slope of the cdf is not the density"); } }
	else { CHECK(u <= dn ? F == 0 : F == 1, "outside the support: cdf " << F); if (u < dn || u > up) CHECK(f == 0, "outside the support: pdf " << f); }
	double v = u + s.uni(0, 1) * spread; CHECK(d.cdf(v) >= F - ct, "cdf not monotone: " << fmt(F) << " at " << fmt(u) << ", " << fmt(d.cdf(v)) << " at " << fmt(v));
	double q = quant(d, p), q0 = bq(b, p), dens = bm::pdf(b, q0), slack = dens > 0 ? 2 * ct / dens : 0; CHECK(q == q, "quantile of " << fmt(p) << " is NaN"); CHECK_NEAR(q, q0, qt * (std::fabs(q0 - med) + (q0 > dn && dn > -1e300 ? std::min(spread, q0 - dn) : spread)) + 1e-15 * std::fabs(q0) + slack, "quantile of " << fmt(p)); }
template<class D> static void badp(Src& s, const D& d, bool closed0 = false, bool closed1 = false) { CHECK_THROWS(d.inverseCdf(-s.pwide(-9, 3)), StatisticsError, "negative probability"); CHECK_THROWS(d.inverseCdf(1 + s.pwide(-9, 3)), StatisticsError, "probability above 1"); if (!closed0) CHECK_THROWS(d.inverseCdf(0.0), StatisticsError, "probability 0"); if (!closed1) CHECK_THROWS(d.inverseCdf(1.0), StatisticsError, "probability 1"); }
template<class D> static void clamp(Src& s, const D& d, double lo, double hi) { double e = s.b() ? 0 : s.pwide(-9, 3); CHECK(d.inverseCdf(-e) == lo, "quantile at 0 is " << d.inverseCdf(-e)); double t = d.inverseCdf(1 + e); CHECK(t == hi, "quantile at 1 is " << t); }
static void mom(double m, double m0, double v, double v0) { CHECK_NEAR(m, m0, 1e-12 * std::fabs(m0) + 1e-300, "mean"); CHECK_NEAR(v, v0, 1e-9 * v0, "variance"); }
static double badpos(Src& s) { return s.b() ? 0.0 : -s.pwide(-6, 3); }
#define HEAD(txt) c.say([&](auto& o) { o << txt; })

LAW(normal, 6000, 60000) { double m = s.wide(-3, 3), g = s.pwide(-3, 3); HEAD("Normal(" << fmt(m) << "," << fmt(g) << ")"); NormalDistribution d(m, g); bm::normal_distribution<double, Pol> b(m, g); double ct = 1e-14 + 4e-16 * std::fabs(m) / g; same(s, c, d, b, g, ct, 2e-9); mom(d.mean(), m, d.variance(), g * g); CHECK(d.stddev() == g, "stddev"); badp(s, d); CHECK_THROWS(NormalDistribution(m, badpos(s)), StatisticsError, "sigma"); double z = s.uni(-6, 6), p = prob(s); bm::normal_distribution<double, Pol> n01(0, 1); CHECK_NEAR(d.zScore(d.fromZScore(z)), z, 1e-15 * (10 + std::fabs(z)) + 4e-16 * std::fabs(m) / g, "z score"); CHECK_NEAR(StandardNormal::pdf(z), bm::pdf(n01, z), 1e-14 * bm::pdf(n01, z) * 10, "phi"); CHECK_NEAR(StandardNormal::cdf(z), bm::cdf(n01, z), 1e-15, "Phi"); CHECK_NEAR(StandardNormal::sf(z), bm::cdf(bm::complement(n01, z)), 1e-15, "sf"); CHECK_NEAR(StandardNormal::twoTailedPValue(z), 2 * bm::cdf(bm::complement(n01, std::fabs(z))), 2e-15, "two-tailed p"); CHECK_NEAR(StandardNormal::inverseCdf(p), bm::quantile(n01, p), 2e-9 * (1 + std::fabs(bm::quantile(n01, p))), "Phi^-1"); CHECK_THROWS(StandardNormal::inverseCdf(s.b() ? 0.0 : 1.0), StatisticsError, "probability"); }
LAW(student, 6000, 60000) { int n = s.b() ? (int)s.i(1, 8) : (int)s.i(1, 400); HEAD("T(" << n << ")"); TDistribution d(n); bm::students_t_distribution<double, Pol> b(n); double sp = n > 2 ? std::sqrt(n / (n - 2.0)) : 1; same(s, c, d, b, sp, 3e-12, 2e-9); badp(s, d); CHECK_THROWS(TDistribution((int)s.i(-5, 0)), StatisticsError, "df"); if (n < 2) CHECK_THROWS(d.mean(), StatisticsError, "mean"); else CHECK(d.mean() == 0, "mean"); if (n <= 2) CHECK_THROWS(d.variance(), StatisticsError, "variance"); else CHECK_NEAR(d.variance(), n / (n - 2.0), 1e-14 * d.variance(), "variance"); double t = s.uni(-5, 5), a = s.uni(0.001, 0.999); CHECK_NEAR(d.sf(t), bm::cdf(bm::complement(b, t)), 5e-12, "sf"); CHECK_NEAR(d.twoTailedPValue(t), 2 * bm::cdf(bm::complement(b, std::fabs(t))), 1e-11, "two-tailed p"); double cv = d.criticalValue(a), c0 = bm::quantile(bm::complement(b, a / 2)); CHECK_NEAR(cv, c0, 1e-8 * (1 + c0), "critical value at " << fmt(a)); double ba = s.pick({ 0.0, 1.0, -0.2, 1.5 }); CHECK_THROWS(d.criticalValue(ba), StatisticsError, "alpha"); }
LAW(chisq, 6000, 60000) { int n = s.b() ? (int)s.i(1, 8) : (int)s.i(1, 400); HEAD("ChiSq(" << n << ")"); ChiSquareDistribution d(n); bm::chi_squared_distribution<double, Pol> b(n); same(s, c, d, b, std::sqrt(2.0 * n), 2e-11, 1e-9); mom(d.mean(), n, d.variance(), 2.0 * n); double x = s.uni(0, 3 * n); CHECK_NEAR(d.cdf(x), bm::cdf(b, x), 1e-11, "cdf"); CHECK_NEAR(d.rightTailPValue(x), bm::cdf(bm::complement(b, x)), 1e-11, "p value"); CHECK_THROWS(ChiSquareDistribution((int)s.i(-5, 0)), StatisticsError, "df"); double ba = s.pick({ 0.0, 1.0, -0.2, 1.5 }); CHECK_THROWS(d.criticalValue(ba), StatisticsError, "alpha"); double ng = -s.pwide(-3, 3); CHECK(d.cdf(ng) == 0 && d.pdf(ng) == 0, "negative argument"); }
LAW(fisher, 6000, 60000) { int n = s.b() ? (int)s.i(1, 8) : (int)s.i(1, 200), m = s.b() ? (int)s.i(1, 8) : (int)s.i(1, 200); HEAD("F(" << n << "," << m << ")"); FDistribution d(n, m); bm::fisher_f_distribution<double, Pol> b(n, m); same(s, c, d, b, m > 4 ? std::sqrt(bm::variance(b)) : 1, 2e-11, 1e-9); double x = s.pwide(-3, 3); CHECK_NEAR(d.cdf(x), bm::cdf(b, x), 1e-11, "cdf"); CHECK_NEAR(d.rightTailPValue(x), bm::cdf(bm::complement(b, x)), 1e-11, "p value"); if (m > 2) CHECK_NEAR(d.mean(), m / (m - 2.0), 1e-14 * d.mean(), "mean"); if (m > 4) CHECK_NEAR(d.variance(), bm::variance(b), 1e-12 * d.variance(), "variance"); CHECK_THROWS(FDistribution((int)s.i(-5, 0), m), StatisticsError, "df1"); CHECK_THROWS(FDistribution(n, (int)s.i(-5, 0)), StatisticsError, "df2"); double ba = s.pick({ 0.0, 1.0, -0.2, 1.5 }); CHECK_THROWS(d.criticalValue(ba), StatisticsError, "alpha"); double ng = -s.pwide(-3, 3); CHECK(d.cdf(ng) == 0 && d.pdf(ng) == 0, "negative argument"); }
LAW(locscale, 6000, 60000) { double m = s.wide(-3, 3), g = s.pwide(-3, 3); int k = (int)s.i(0, 2); double ct = 1e-14 + 4e-16 * std::fabs(m) / g; if (k == 0) { HEAD("Cauchy(" << fmt(m) << "," << fmt(g) << ")"); CauchyDistribution d(m, g); same(s, c, d, bm::cauchy_distribution<double, Pol>(m, g), g, ct, 1e-12); badp(s, d); CHECK_THROWS(CauchyDistribution(m, badpos(s)), StatisticsError, "scale"); } else if (k == 1) { HEAD("Logistic(" << fmt(m) << "," << fmt(g) << ")"); LogisticDistribution d(m, g); same(s, c, d, bm::logistic_distribution<double, Pol>(m, g), g, ct, 1e-12); badp(s, d); mom(d.mean(), m, d.variance(), bm::variance(bm::logistic_distribution<double, Pol>(m, g))); CHECK_THROWS(LogisticDistribution(m, badpos(s)), StatisticsError, "scale"); } else { double w = g + 1e-15 * std::fabs(m); HEAD("Uniform(" << fmt(m) << "," << fmt(m + w) << ")"); UniformDistribution d(m, m + w); bm::uniform_distribution<double, Pol> b(m, m + w); double u = m + w * s.uni(-1, 2), p = s.chance(1, 4) ? (double)s.i(0, 1) : s.unit(); c.nontrivial(u > m && u < m + w); CHECK_NEAR(d.cdf(u), bm::cdf(b, u), 1e-15, "cdf"); CHECK_NEAR(d.pdf(u), bm::pdf(b, u), 1e-14 / w, "pdf"); CHECK_NEAR(d.inverseCdf(p), m + p * w, 1e-15 * (w + std::fabs(m)), "quantile"); CHECK_NEAR(d.mean(), m + w / 2, 1e-15 * (w + std::fabs(m)), "mean"); CHECK_NEAR(d.variance(), w * w / 12, (1e-14 + 1e-15 * std::fabs(m) / w) * w * w, "variance"); badp(s, d, true, true); CHECK_THROWS(UniformDistribution(m, m - badpos(s) * 0 - (s.b() ? 0 : g)), StatisticsError, "bounds"); } }
LAW(expweib, 6000, 60000) { double l = s.pwide(-3, 3); if (s.b()) { HEAD("Exponential(" << fmt(l) << ")"); ExponentialDistribution d(l); same(s, c, d, bm::exponential_distribution<double, Pol>(l), 1 / l, 1e-15, 1e-12); mom(d.mean(), 1 / l, d.variance(), 1 / l / l); badp(s, d, true, false); CHECK(d.inverseCdf(0.0) == 0, "quantile at 0"); CHECK_THROWS(ExponentialDistribution(badpos(s)), StatisticsError, "rate"); double ng = -s.pwide(-3, 3); CHECK_THROWS(d.cdf(ng), StatisticsError, "negative argument"); CHECK_THROWS(d.pdf(ng), StatisticsError, "negative argument"); } else { double k = s.b() ? s.pick({ 1.0, 2.0, 0.5 }) : s.pwide(-0.3, 1); HEAD("Weibull(" << fmt(k) << "," << fmt(l) << ")"); WeibullDistribution d(k, l); bm::weibull_distribution<double, Pol> b(k, l); same(s, c, d, b, std::sqrt(bm::variance(b)), 1e-14, 1e-12); mom(d.mean(), bm::mean(b), 1, 1); CHECK_NEAR(d.variance(), bm::variance(b), 1e-12 * bm::mean(b) * bm::mean(b) + 1e-12 * bm::variance(b), "variance"); clamp(s, d, 0, INFINITY); CHECK_THROWS(WeibullDistribution(badpos(s), l), StatisticsError, "shape"); CHECK_THROWS(WeibullDistribution(k, badpos(s)), StatisticsError, "scale"); double ng = -s.pwide(-3, 3); CHECK(d.cdf(ng) == 0 && d.pdf(ng) == 0, "negative argument"); } }
LAW(gamma, 6000, 60000) { double k = s.b() ? (double)s.i(1, 12) : s.pwide(-0.7, 2.8), t = s.pwide(-3, 3); HEAD("Gamma(" << fmt(k) << "," << fmt(t) << ")"); GammaDistribution d(k, t); bm::gamma_distribution<double, Pol> b(k, t); same(s, c, d, b, std::sqrt(k) * t, 1e-11, 1e-8); mom(d.mean(), k * t, d.variance(), k * t * t); clamp(s, d, 0, INFINITY); CHECK_THROWS(GammaDistribution(badpos(s), t), StatisticsError, "shape"); CHECK_THROWS(GammaDistribution(k, badpos(s)), StatisticsError, "scale"); double ng = -s.pwide(-3, 3); CHECK(d.cdf(ng) == 0 && d.pdf(ng) == 0, "negative argument"); }
LAW(beta, 6000, 60000) { double p = s.b() ? (double)s.i(1, 12) : s.pwide(-0.7, 2.5), q = s.b() ? (double)s.i(1, 12) : s.chance(1, 4) ? p : s.pwide(-0.7, 2.5); HEAD("Beta(" << fmt(p) << "," << fmt(q) << ")"); BetaDistribution d(p, q); bm::beta_distribution<double, Pol> b(p, q); same(s, c, d, b, std::sqrt(bm::variance(b)), 3e-12, 1e-8); mom(d.mean(), p / (p + q), d.variance(), bm::variance(b)); clamp(s, d, 0, 1); CHECK_THROWS(BetaDistribution(badpos(s), q), StatisticsError, "alpha"); CHECK_THROWS(BetaDistribution(p, badpos(s)), StatisticsError, "beta"); double ng = -s.pwide(-3, 3); CHECK(d.cdf(ng) == 0 && d.pdf(ng) == 0 && d.cdf(1 - ng) == 1 && d.pdf(1 - ng) == 0, "outside [0,1]"); }
LAW(parlog, 6000, 60000) { double l = s.pwide(-3, 3); if (s.b()) { double k = s.b() ? s.pick({ 1.0, 2.0, 1.5, 3.0 }) : s.pwide(-0.3, 1.3); HEAD("Pareto(" << fmt(k) << "," << fmt(l) << ")"); ParetoDistribution d(k, l); bm::pareto_distribution<double, Pol> b(l, k); same(s, c, d, b, l / k, 1e-14, 1e-11); if (k > 1) CHECK_NEAR(d.mean(), bm::mean(b), 1e-13 * bm::mean(b), "mean"); else CHECK_THROWS(d.mean(), StatisticsError, "mean of a heavy tail"); if (k > 2) CHECK_NEAR(d.variance(), bm::variance(b), 1e-12 * bm::variance(b), "variance"); else CHECK_THROWS(d.variance(), StatisticsError, "variance of a heavy tail"); clamp(s, d, l, INFINITY); CHECK_THROWS(ParetoDistribution(badpos(s), l), StatisticsError, "shape"); CHECK_THROWS(ParetoDistribution(k, badpos(s)), StatisticsError, "scale"); } else { double m = s.uni(-5, 5), g = s.pwide(-1.5, 0.5); HEAD("LogNormal(" << fmt(m) << "," << fmt(g) << ")"); LogNormalDistribution d(m, g); bm::lognormal_distribution<double, Pol> b(m, g); double sp = bm::quantile(b, 0.75) - bm::quantile(b, 0.25); same(s, c, d, b, sp, 1e-13 / g, 2e-9 * (1 + 6 * g) * (2 + 1 / g) * 10); mom(d.mean(), std::exp(m + g * g / 2), d.variance(), (std::exp(g * g) - 1) * std::exp(2 * m + g * g)); CHECK_NEAR(d.median(), std::exp(m), 1e-14 * std::exp(m), "median"); clamp(s, d, 0, INFINITY); CHECK_THROWS(LogNormalDistribution(m, badpos(s)), StatisticsError, "sigma"); double ng = s.b() ? 0 : -s.pwide(-3, 3); CHECK(d.cdf(ng) == 0 && d.pdf(ng) == 0, "negative argument"); } }
