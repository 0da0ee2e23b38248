// C24 intervals against point-set semantics
#include "common.h"
#include "base/Intervals.h"
#include <memory>
#include <limits>
static const double INF_ = std::numeric_limits<double>::infinity();
struct Set { double lo, hi; bool lc, hc; bool has(double x) const { return (lc ? x >= lo : x > lo) && (hc ? x <= hi : x < hi); } bool empty() const { return lo > hi || (lo == hi && !(lc && hc)); } };
typedef std::shared_ptr<BaseInterval> BI; struct G { BI p; Set s; std::string nm; };
static double coord(Src& s) { return s.pick({(double)s.i(-4, 4), (double)s.i(-4, 4), s.uni(-5, 5), (double)s.i(-4, 4) + 1e-12}); }
static G gen(Src& s, bool inf = true) { int k = s.i(0, inf ? 8 : 3); double a = coord(s), b = coord(s); if (k < 4) { if (a > b) std::swap(a, b); if (a == b && k != 0) b = a + 1; } G g; std::ostringstream o; switch (k) {
	case 0: g.p = std::make_shared<ClosedInterval>(a, b); g.s = {a, b, true, true}; o << "[" << fmt(a) << "," << fmt(b) << "]"; break; case 1: g.p = std::make_shared<OpenInterval>(a, b); g.s = {a, b, false, false}; o << "(" << fmt(a) << "," << fmt(b) << ")"; break; case 2: g.p = std::make_shared<OpenClosedInterval>(a, b); g.s = {a, b, false, true}; o << "(" << fmt(a) << "," << fmt(b) << "]"; break; case 3: g.p = std::make_shared<ClosedOpenInterval>(a, b); g.s = {a, b, true, false}; o << "[" << fmt(a) << "," << fmt(b) << ")"; break;
	case 4: g.p = std::make_shared<NegInfToOpenInterval>(b); g.s = {-INF_, b, false, false}; o << "(-inf," << fmt(b) << ")"; break; case 5: g.p = std::make_shared<NegInfToClosedInterval>(b); g.s = {-INF_, b, false, true}; o << "(-inf," << fmt(b) << "]"; break; case 6: g.p = std::make_shared<OpenToInfInterval>(a); g.s = {a, INF_, false, false}; o << "(" << fmt(a) << ",inf)"; break; case 7: g.p = std::make_shared<ClosedToInfInterval>(a); g.s = {a, INF_, true, false}; o << "[" << fmt(a) << ",inf)"; break; default: g.p = std::make_shared<CompleteRInterval>(); g.s = {-INF_, INF_, false, false}; o << "(-inf,inf)"; } g.nm = o.str(); return g; }
static std::vector<double> probes(Src& s, std::initializer_list<const G*> gs) { std::vector<double> p{0, 1e9, -1e9, 1e300, -1e300, coord(s), coord(s), s.uni(-6, 6), s.uni(-6, 6), s.uni(-6, 6)}; for (auto* g : gs) for (double e : {g->s.lo, g->s.hi}) if (std::isfinite(e)) for (double d : {0.0, 1e-9, -1e-9, 0.5, -0.5}) { p.push_back(e + d); if (d == 0) p.push_back(std::nextafter(e, 10)), p.push_back(std::nextafter(e, -10)); } for (auto* g : gs) if (std::isfinite(g->s.lo) && std::isfinite(g->s.hi)) p.push_back((g->s.lo + g->s.hi) / 2); return p; }
LAW(membership, 1500, 10000) { G g = gen(s); c.say([&](auto& o) { o << g.nm; }); for (double x : probes(s, {&g})) { CHECK(g.p->contains(x) == g.s.has(x), g.nm << (g.s.has(x) ? " does not contain " : " contains ") << fmt(x)); const IInterval& i = *g.p; CHECK(i.contains(x) == g.s.has(x), "through the interface"); } CHECK(g.p->isContinuous(), "interval without holes not continuous"); if (std::isfinite(g.s.lo)) CHECK(g.p->getLowerBound() == g.s.lo, "lower bound"); if (std::isfinite(g.s.hi)) CHECK(g.p->getUpperBound() == g.s.hi, "upper bound"); if (std::isfinite(g.s.lo) && std::isfinite(g.s.hi)) CHECK(g.p->getLength() == g.s.hi - g.s.lo && g.p->getMeasure() == g.p->getLength(), "length"); c.nontrivial(!g.s.empty()); }
LAW(recurring_holes, 800, 6000) { double h0 = s.pick({(double)s.i(-3, 3), s.uni(-3, 3), Constants::PI / 2}), d = s.pick({(double)s.i(1, 3), s.uni(0.2, 3), Constants::PI, -1.5}), a = s.uni(-6, 0), b = s.uni(1, 8); c.say([&](auto& o) { o << "holes " << fmt(h0) << " + k*" << fmt(d) << " in [" << fmt(a) << "," << fmt(b) << "]"; }); CompleteRWithReccuringPointHoles R(h0, d); ClosedIntervalWithReccuringPointHoles I(a, b, h0, d); CHECK(!R.isContinuous() && !I.isContinuous(), "holes reported as continuous"); for (int k = -6; k <= 6; k++) { double h = h0 + k * d, m = h0 + (k + s.uni(0.01, 0.99)) * d; CHECK(!R.contains(h), "hole " << fmt(h) << " contained"); CHECK(R.contains(m), "regular point " << fmt(m) << " excluded"); CHECK(!I.contains(h), "hole contained"); CHECK(I.contains(m) == (m >= a && m <= b), "point " << fmt(m) << " of the bounded interval"); } CHECK(!I.contains(a - 1e-9) && !I.contains(b + 1e-9), "point outside contained"); c.nontrivial(true); }
LAW(set_operations, 3000, 30000) {
	G a = gen(s), b = gen(s); if (s.chance(1, 6)) b = a; c.say([&](auto& o) { o << a.nm << " and " << b.nm; }); Interval I = Interval::Intersection(*a.p, *b.p), U = Interval::Union(*a.p, *b.p), D = Interval::Difference(*a.p, *b.p), C = Interval::Complement(*a.p); for (double x : probes(s, {&a, &b})) { bool A = a.s.has(x), B = b.s.has(x); CHECK(I.contains(x) == (A && B), "intersection and " << fmt(x) << ": reported " << I.contains(x)); CHECK(U.contains(x) == (A || B), "union and " << fmt(x) << ": reported " << U.contains(x)); CHECK(D.contains(x) == (A && !B), "difference and " << fmt(x) << ": reported " << D.contains(x)); CHECK(C.contains(x) == !A, "complement and " << fmt(x) << ": reported " << C.contains(x)); }
	if (std::isfinite(a.s.lo) && std::isfinite(a.s.hi) && std::isfinite(b.s.lo) && std::isfinite(b.s.hi)) { double la = a.s.hi - a.s.lo, lb = b.s.hi - b.s.lo, li = std::max(0.0, std::min(a.s.hi, b.s.hi) - std::max(a.s.lo, b.s.lo)); CHECK(std::fabs(I.getMeasure() - li) < 1e-13 && std::fabs(U.getMeasure() - (la + lb - li)) < 1e-13 && std::fabs(D.getMeasure() - (la - li)) < 1e-13, "measures " << I.getMeasure() << " " << U.getMeasure() << " " << D.getMeasure() << " lengths " << la << " " << lb << " overlap " << li); CHECK(U.getLowerBound() == std::min(a.s.lo, b.s.lo) && U.getUpperBound() == std::max(a.s.hi, b.s.hi) && U.getLength() == U.getUpperBound() - U.getLowerBound(), "bounds of the union"); }
	// touching counts as intersecting, proper overlap always, separation never
	Interval W; W.AddInterval(ClosedInterval(100, 101)); auto add = [&](const G& g) { if (auto p = dynamic_cast<ClosedInterval*>(g.p.get())) W.AddInterval(*p); else if (auto p = dynamic_cast<OpenInterval*>(g.p.get())) W.AddInterval(*p); else if (auto p = dynamic_cast<OpenClosedInterval*>(g.p.get())) W.AddInterval(*p); else if (auto p = dynamic_cast<ClosedOpenInterval*>(g.p.get())) W.AddInterval(*p); else return false; return true; }; if (add(a) && std::isfinite(b.s.lo) && std::isfinite(b.s.hi)) { if (a.s.lo < b.s.hi && b.s.lo < a.s.hi) CHECK(W.intersects(*b.p), "overlapping intervals do not intersect"); if (a.s.lo > b.s.hi || b.s.lo > a.s.hi) CHECK(!W.intersects(*b.p), "separated intervals intersect"); if (b.s.lo > b.s.hi) return; if (a.s.has(b.s.lo) && a.s.has(b.s.hi)) CHECK(W.contains(*b.p), "contained interval not recognised"); if (b.s.lo < a.s.lo || b.s.hi > a.s.hi) CHECK(!W.contains(*b.p), "interval reaching outside is reported contained"); }
	c.nontrivial(!a.s.empty() && !b.s.empty()); }
LAW(composite, 1000, 8000) { int n = s.i(0, 4); std::vector<G> g; Interval W; std::string nm; for (int i = 0; i < n; i++) { g.push_back(gen(s, false)); nm += g.back().nm + " "; auto& q = g.back(); if (auto p = dynamic_cast<ClosedInterval*>(q.p.get())) W.AddInterval(*p); else if (auto p = dynamic_cast<OpenInterval*>(q.p.get())) W.AddInterval(*p); else if (auto p = dynamic_cast<OpenClosedInterval*>(q.p.get())) W.AddInterval(*p); else W.AddInterval(dynamic_cast<ClosedOpenInterval&>(*q.p)); } c.say([&](auto& o) { o << "union of " << nm; }); for (int t = 0; t < 12; t++) { double x = coord(s); bool e = false; for (auto& q : g) e |= q.s.has(x); CHECK(W.contains(x) == e, "composite and " << fmt(x)); } if (n) { double lo = 99, hi = -99, m = 0; for (auto& q : g) lo = std::min(lo, q.s.lo), hi = std::max(hi, q.s.hi), m += q.s.hi - q.s.lo; CHECK(W.getLowerBound() == lo && W.getUpperBound() == hi && W.getLength() == hi - lo && std::fabs(W.getMeasure() - m) < 1e-12, "bounds or measure of the composite"); std::vector<double> p; W.GetEquidistantCovering(s.i(1, 30), p); bool wide = hi > lo; for (auto& q : g) wide &= q.s.hi == q.s.lo || q.s.hi - q.s.lo > 1e-6; if (wide) { CHECK((int)p.size() >= n, "covering misses an interval"); for (double x : p) CHECK(W.contains(x), "covering point " << fmt(x) << " outside"); } } c.nontrivial(n > 1); }
LAW(composite_overlap, 2000, 20000) {
	int n = (int)s.i(0, 4); std::vector<G> g; Interval W; std::string nm; for (int i = 0; i < n; i++) { g.push_back(gen(s, false)); nm += g.back().nm + " "; auto& q = g.back(); if (auto p = dynamic_cast<ClosedInterval*>(q.p.get())) W.AddInterval(*p); else if (auto p = dynamic_cast<OpenInterval*>(q.p.get())) W.AddInterval(*p); else if (auto p = dynamic_cast<OpenClosedInterval*>(q.p.get())) W.AddInterval(*p); else W.AddInterval(dynamic_cast<ClosedOpenInterval&>(*q.p)); }
	G o = gen(s, false); c.say([&](auto& q) { q << "union of " << nm << "against " << o.nm; });
	bool meets = false, inside = false, touch = false;
	for (auto& q : g) { double lo = std::max(q.s.lo, o.s.lo), hi = std::min(q.s.hi, o.s.hi); touch |= lo == hi; meets |= lo < hi || (lo == hi && q.s.has(lo) && o.s.has(lo)); inside |= q.s.has(o.s.lo) && q.s.has(o.s.hi); }
	c.nontrivial(meets || touch); if (touch) c.label("touching"); if (inside) c.label("inside");
	CHECK(W.intersects(*o.p) == meets, "intersects = " << W.intersects(*o.p));
	bool k = W.contains(*o.p); if (inside) CHECK(k, "does not contain an interval whose bounds lie in one part"); if (k) for (double x : probes(s, { &o })) if (o.s.has(x)) CHECK(W.contains(x), "contains the interval but not its point " << fmt(x)); if (k && !o.s.empty()) CHECK(W.intersects(*o.p), "contains but does not intersect");
}
LAW(equidistant_covering, 1500, 10000) { G g = gen(s); int n = s.pick({(int)s.i(1, 40), 1, 2, 0, -3}); DISCARD_IF(g.s.hi - g.s.lo < 1e-6); c.say([&](auto& o) { o << g.nm << " points " << n; }); std::vector<double> p(3, 7.0); g.p->GetEquidistantCovering(n, p); CHECK((int)p.size() == std::max(n, 0), "returned " << p.size() << " of " << n << " points"); for (size_t i = 0; i < p.size(); i++) { CHECK(g.s.has(p[i]), "sample " << fmt(p[i]) << " outside " << g.nm); if (i) CHECK(p[i] > p[i - 1], "samples not increasing"); } if (n >= 4 && std::isfinite(g.s.lo) && std::isfinite(g.s.hi)) { double h = (g.s.hi - g.s.lo) / (n - 1); for (int i = 2; i + 1 < n; i++) CHECK(std::fabs(p[i] - p[i - 1] - h) < 1e-13 * 50, "spacing not equal"); CHECK(std::fabs(p[0] - g.s.lo) <= 0.0011 * h + 1e-14 && std::fabs(p[n - 1] - g.s.hi) <= 0.0011 * h + 1e-14, "covering does not reach the ends"); if (g.s.lc) CHECK(p[0] == g.s.lo, "closed lower end not sampled"); } c.nontrivial(n > 1); }
