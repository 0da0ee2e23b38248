// C40 (second part): rank correlations through the instrumented entry points, including rejected inputs
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "algorithms/Statistics.h"
#include "algorithms/Statistics/StatisticsRank.h"
using namespace MML::Statistics;
typedef Vector<Real> V;
LAW(rank_detailed, 900, 9000) { // the instrumented correlations report the plain numbers, and failures as the policy asks
	int n = (int)s.i(0, 14), m = s.chance(1, 8) ? (int)s.i(0, 14) : n, g = (int)s.i(1, 12); V x(n), y(m); for (int i = 0; i < n; i++) x[i] = (double)s.i(0, g); for (int i = 0; i < m; i++) y[i] = (double)s.i(0, g);
	int k = (int)s.i(0, 3); c.say([&](auto& o) { o << "function " << k << " sizes " << n << ", " << m << " grid " << g; }); c.nontrivial(n >= 3 && m == n); c.label(m != n ? "mismatched" : n < 3 ? "short" : "regular");
	double rho = 0, z = 0; bool bad = false, hasz = k % 2 == 1; try { if (k == 0) rho = SpearmanCorrelation(x, y); else if (k == 2) rho = KendallCorrelation(x, y); else { auto r = k == 1 ? SpearmanCorrelationWithTest(x, y) : KendallCorrelationWithTest(x, y); rho = r.rho; z = r.zScore; CHECK(r.n == n, "sample size"); } } catch (const std::exception&) { bad = true; }
	auto cst = [](const V& v) { for (int i = 1; i < v.size(); i++) if (v[i] != v[0]) return false; return true; }; if (m != n || n < (hasz ? 3 : 2) || !(cst(x) || cst(y))) CHECK(bad == (m != n || n < (hasz ? 3 : 2)), "plain call " << (bad ? "throws" : "returns") << " for sizes " << n << ", " << m);
	StatisticsConfig C; bool prop = s.b(); C.exception_policy = prop ? EvaluationExceptionPolicy::Propagate : EvaluationExceptionPolicy::ConvertToStatus; RankCorrelationDetailedResult r; bool thr = false;
	try { r = k == 0 ? SpearmanCorrelationDetailed(x, y, C) : k == 1 ? SpearmanCorrelationWithTestDetailed(x, y, C) : k == 2 ? KendallCorrelationDetailed(x, y, C) : KendallCorrelationWithTestDetailed(x, y, C); } catch (const std::exception&) { thr = true; }
	CHECK(thr == (bad && prop), "instrumented call " << (thr ? "throws" : "returns")); if (thr) return; CHECK(r.IsSuccess() == !bad && (r.status == AlgorithmStatus::Success) == !bad, "status"); if (bad) { CHECK(r.status == AlgorithmStatus::InvalidInput && !r.error_message.empty(), "failure kind"); return; }
	CHECK(r.rho == rho && r.n == n && (!hasz || r.zScore == z), "rho " << r.rho << " against " << rho << ", z " << r.zScore << " against " << z << ", n " << r.n); CHECK(r.algorithm_name == std::string(k == 0 ? "SpearmanCorrelation" : k == 1 ? "SpearmanCorrelationWithTest" : k == 2 ? "KendallCorrelation" : "KendallCorrelationWithTest"), "name " << r.algorithm_name);
	if (hasz) { double al = s.pick({ 0.05, 0.01, 0.005, 0.05 }), cr = al <= 0.01 ? 2.576 : 1.96; CHECK(r.IsSignificant(al) == (std::fabs(z) > cr), "significance at " << al << " z " << z); auto p = k == 1 ? SpearmanCorrelationWithTest(x, y) : KendallCorrelationWithTest(x, y); CHECK(p.IsSignificant(al) == r.IsSignificant(al), "plain significance"); }
}
LAW(rank_short, 100, 500) { // size limits of ranking itself
	V e(0); CHECK(ComputeRanks(e).size() == 0, "ranks of nothing"); V o(1); o[0] = s.uni(-5, 5); auto r = ComputeRanks(o); CHECK(r.size() == 1 && r[0] == 1, "rank of one"); c.nontrivial(true); c.say([&](auto& q) { q << "value " << o[0]; });
	CHECK_THROWS(SpearmanCorrelation(o, o), std::exception, "one observation"); CHECK_THROWS(KendallCorrelation(o, o), std::exception, "one observation"); V t(2); t[0] = o[0]; t[1] = o[0] + 1; CHECK_THROWS(SpearmanCorrelationWithTest(t, t), std::exception, "two observations"); CHECK_THROWS(KendallCorrelationWithTest(t, t), std::exception, "two observations"); CHECK(SpearmanCorrelation(t, t) == 1 && KendallCorrelation(t, t) == 1, "two observations agree");
}
