// C42 (second part): instrumented tests and intervals on rejected inputs
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "algorithms/Statistics.h"
#include "algorithms/Statistics/StatisticsHypothesis.h"
#include "algorithms/Statistics/StatisticsConfidence.h"
using namespace MML::Statistics;
typedef Vector<Real> V;
LAW(detailed_policies, 900, 9000) { // failures follow the policy, successes repeat the plain numbers
	auto vec = [&](int n) { V v(n); for (int i = 0; i < n; i++) v[i] = s.chance(1, 5) ? 1.0 : s.uni(0.5, 9); if (s.chance(1, 6)) for (int i = 0; i < n; i++) v[i] = 2; return v; };
	int n = (int)s.i(0, 7), m = s.b() ? n : (int)s.i(0, 7), k = (int)s.i(0, 11); V a = vec(n), b = vec(m); double al = s.pick({ 0.05, 0.01, 0.2, 0.0, 1.0, -0.1, 1.5 }), cl = 1 - al, mu = s.uni(0, 5); int su = (int)s.i(-1, 12), tr = (int)s.i(-1, 10), s2 = (int)s.i(-1, 12), t2 = (int)s.i(0, 10); Matrix<Real> T((int)s.i(1, 3), (int)s.i(1, 3)); for (int i = 0; i < T.rows(); i++) for (int j = 0; j < T.cols(); j++) T(i, j) = (double)s.i(0, 9); std::vector<V> G; for (int i = (int)s.i(0, 3); i--;) G.push_back(vec((int)s.i(0, 4)));
	c.say([&](auto& o) { o << "function " << k << " sizes " << n << ", " << m << " alpha " << al << " counts " << su << "/" << tr << ", " << s2 << "/" << t2 << " groups " << G.size(); });
	StatisticsConfig C; bool prop = s.b(); C.exception_policy = prop ? EvaluationExceptionPolicy::Propagate : EvaluationExceptionPolicy::ConvertToStatus; bool bad = false, thr = false; HypothesisTestResult h{}; ConfidenceInterval I(0, 0, 0, 0, 0, ""); HypothesisTestDetailedResult H; ConfidenceIntervalDetailedResult J;
	try { switch (k) { case 0: h = OneSampleTTest(a, mu, al); break; case 1: h = TwoSampleTTest(a, b, al); break; case 2: h = WelchTTest(a, b, al); break; case 3: h = PairedTTest(a, b, al); break; case 4: h = ChiSquareGoodnessOfFit(a, b, al); break; case 5: h = ChiSquareIndependence(T, al); break; case 6: h = OneWayANOVA(G, al); break; case 7: I = ConfidenceIntervalMean(a, cl); break; case 8: I = ConfidenceIntervalMeanDifference(a, b, cl); break; case 9: I = ConfidenceIntervalProportion(su, tr, cl); break; case 10: I = ConfidenceIntervalProportionDifference(su, tr, s2, t2, cl); break; default: I = ConfidenceIntervalPairedDifference(a, b, cl); } } catch (const std::exception&) { bad = true; }
	try { switch (k) { case 0: H = OneSampleTTestDetailed(a, mu, al, C); break; case 1: H = TwoSampleTTestDetailed(a, b, al, C); break; case 2: H = WelchTTestDetailed(a, b, al, C); break; case 3: H = PairedTTestDetailed(a, b, al, C); break; case 4: H = ChiSquareGoodnessOfFitDetailed(a, b, al, C); break; case 5: H = ChiSquareIndependenceDetailed(T, al, C); break; case 6: H = OneWayANOVADetailed(G, al, C); break; case 7: J = ConfidenceIntervalMeanDetailed(a, cl, C); break; case 8: J = ConfidenceIntervalMeanDifferenceDetailed(a, b, cl, C); break; case 9: J = ConfidenceIntervalProportionDetailed(su, tr, cl, C); break; case 10: J = ConfidenceIntervalProportionDifferenceDetailed(su, tr, s2, t2, cl, C); break; default: J = ConfidenceIntervalPairedDifferenceDetailed(a, b, cl, C); } } catch (const std::exception&) { thr = true; }
	c.nontrivial(bad || al == 0.05); c.label(bad ? "rejected" : "accepted"); CHECK(thr == (bad && prop), "instrumented " << (thr ? "throws" : "returns") << ", plain " << (bad ? "throws" : "returns")); if (thr) return;
	auto st = k < 7 ? H.status : J.status; CHECK((st == AlgorithmStatus::Success) == !bad, "status " << (int)st); if (bad) { CHECK(!(k < 7 ? H.error_message : J.error_message).empty(), "no message"); return; }
	auto eq = [](double p, double q) { return p == q || (std::isnan(p) && std::isnan(q)); };
	if (k < 7) CHECK(eq(H.testStatistic, h.testStatistic) && eq(H.pValue, h.pValue) && eq(H.criticalValue, h.criticalValue) && H.rejectNull == h.rejectNull && eq(H.confidenceLevel, h.confidenceLevel) && H.degreesOfFreedom == h.degreesOfFreedom && H.testName == h.testName, "test fields differ");
	else CHECK(eq(J.estimate, I.estimate) && eq(J.lowerBound, I.lowerBound) && eq(J.upperBound, I.upperBound) && eq(J.marginOfError, I.marginOfError) && eq(J.confidenceLevel, I.confidenceLevel) && J.parameter == I.parameter, "interval fields differ");
	// what cannot be answered must be refused
	bool al_bad = al <= 0 || al >= 1; CHECK(!al_bad, "accepted level " << al);
	if (k == 0 || k == 7) CHECK(n >= 2, "accepted " << n << " observations"); if (k == 1 || k == 2 || k == 8) CHECK(n >= 2 && m >= 2, "accepted sizes " << n << ", " << m); if (k == 3 || k == 11) CHECK(n == m && n >= 2, "accepted pair sizes " << n << ", " << m); if (k == 9) CHECK(tr > 0 && su >= 0 && su <= tr, "accepted " << su << " of " << tr); if (k == 10) CHECK(tr > 0 && su >= 0 && su <= tr && t2 > 0 && s2 >= 0 && s2 <= t2, "accepted proportions"); if (k == 4) CHECK(n == m && n >= 2, "accepted sizes"); if (k == 6) CHECK(G.size() >= 2, "accepted " << G.size() << " groups"); if (k == 5) CHECK(T.rows() >= 2 && T.cols() >= 2, "accepted a " << T.rows() << "x" << T.cols() << " table");
}
