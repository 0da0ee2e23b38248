// C33: event detection: hybrid systems with exactly known flight between events, simulated by a reference model
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "interfaces/IODESystem.h"
#include "interfaces/IODESystemWithEvents.h"
#include "base/ODESystem.h"
#include "base/ODESystemSolution.h"
#include "algorithms/ODESolvers/ODESteppers.h"
#include "algorithms/ODESolvers/ODESolverAdaptive.h"
#include "algorithms/ODESolvers/ODESolverEventDetection.h"
static const char* NM[4] = { "DormandPrince5", "CashKarp", "DormandPrince8", "BulirschStoer" };
struct Run { EventResult r; SolutionStatistics st; };
template<class S> static Run runT(const IODESystemWithEvents& sys, const Vector<Real>& x0, double t0, double t1, double dt, double eps) { ODEEventDetectionIntegrator<S> I(sys); auto r = I.integrateWithEvents(sys, x0, t0, t1, dt, eps); return { r, I.getStatistics() }; }
static Run run(int k, const IODESystemWithEvents& sys, const Vector<Real>& x0, double t0, double t1, double dt, double eps) { switch (k) { case 0: return runT<DormandPrince5_Stepper>(sys, x0, t0, t1, dt, eps); case 1: return runT<CashKarp_Stepper>(sys, x0, t0, t1, dt, eps); case 2: return runT<DormandPrince8_Stepper>(sys, x0, t0, t1, dt, eps); default: return runT<BulirschStoer_Stepper>(sys, x0, t0, t1, dt, eps); } }

// event kinds: 0 position - c, 1 velocity - c, 2 time - c ; handlers: 0 none, 1 bounce (v = -e v), 2 kick (v += e), 3 jump (p += e)
struct Ev { int kind; double c; EventDirection dir; EventAction act; int hnd; double e; };
struct St { LD p, v; };
struct Hybrid : IODESystemWithEvents { double a, w, T0; std::vector<Ev> ev; mutable std::vector<double> calls;
	int getDim() const override { return 3; }
	void derivs(const Real t, const Vector<Real>& x, Vector<Real>& d) const override { d[0] = x[1]; d[1] = a; d[2] = w * std::cos(w * (t - T0)); }
	int getNumEvents() const override { return (int)ev.size(); }
	Real eventFunction(int i, Real t, const Vector<Real>& x) const override { return ev[i].kind == 0 ? x[0] - ev[i].c : ev[i].kind == 1 ? x[1] - ev[i].c : t - ev[i].c; }
	EventDirection getEventDirection(int i) const override { return ev[i].dir; }
	EventAction getEventAction(int i) const override { return ev[i].act; }
	void handleEvent(int i, Real, Vector<Real>& x) const override { calls.push_back(i); if (ev[i].hnd == 1) x[1] = -ev[i].e * x[1]; else if (ev[i].hnd == 2) x[1] += ev[i].e; else if (ev[i].hnd == 3) x[0] += ev[i].e; } };
struct MEv { int idx; LD t; St s; bool inc; };
struct Seg { LD t; St s; };
static St fly(const St& s, LD a, LD dt) { return { s.p + s.v * dt + a * dt * dt / 2, s.v + a * dt }; }
static LD gval(const Ev& e, LD t, const St& s) { return e.kind == 0 ? s.p - e.c : e.kind == 1 ? s.v - e.c : t - e.c; }
// all roots s>0 of the event function on a flight, with slopes
static std::vector<std::pair<LD, LD>> roots(const Ev& e, LD t, const St& s, LD a, bool atZero, bool& bad) { std::vector<std::pair<LD, LD>> R; LD c0 = gval(e, t, s), c1, c2 = 0; if (e.kind == 0) { c1 = s.v; c2 = a / 2; } else if (e.kind == 1) c1 = a; else c1 = 1; if (atZero) c0 = 0; if (c2 == 0 && c1 == 0 && fabsl(c0) < 1e-6L) bad = true;
	if (c2 == 0) { if (c1 != 0 && !atZero) R.push_back({ -c0 / c1, c1 }); } else { LD D = c1 * c1 - 4 * c2 * c0; if (atZero) { R.push_back({ -c1 / c2, -c1 }); } else if (D >= 0) { LD q = -0.5L * (c1 + (c1 < 0 ? -1 : 1) * sqrtl(D)); LD r1 = q / c2; R.push_back({ r1, c1 + 2 * c2 * r1 }); if (q != 0) { LD r2 = c0 / q; R.push_back({ r2, c1 + 2 * c2 * r2 }); } } if (fabsl(D) < 1e-3L && !atZero) { LD m = -c1 / (2 * c2); if (m > -0.1L) bad = true; } }
	std::vector<std::pair<LD, LD>> o; for (auto& r : R) { if (!atZero && fabsl(r.first) < 1e-5L) bad = true; if (r.first > 0) { if (r.first < 1e-4L) bad = true; if (fabsl(r.second) < 0.03L) bad = true; o.push_back(r); } } std::sort(o.begin(), o.end()); return o; }

LAW(hybrid, 3000, 30000) { int M = (int)s.i(0, 3); Hybrid H; H.a = s.chance(1, 4) ? 0 : s.nz(-4, 4) * 0.5; if (s.chance(1, 3)) H.a = s.uni(-3, 3); H.w = s.uni(3, 10); H.T0 = s.chance(1, 2) ? 0 : s.uni(-30, 30); double T = s.uni(0.5, 8), T1 = H.T0 + T, dt = T / s.uni(1, 30); St s0{ s.uni(-2, 2), s.uni(-3, 3) }; s0.p = (double)s0.p; int ne = (int)s.i(0, 5);
	for (int i = 0; i < ne; i++) { Ev e; if (i && s.chance(1, 5)) e = H.ev[(int)s.i(0, i - 1)]; else { e.kind = (int)s.i(0, 3) % 3; e.c = e.kind == 2 ? H.T0 + s.uni(-0.1, 1) * T : s.chance(1, 8) ? (double)(e.kind == 0 ? s0.p : s0.v) : s.uni(-3, 3); } e.dir = s.pick({ EventDirection::Both, EventDirection::Increasing, EventDirection::Decreasing }); int ac = (int)s.i(0, 7); e.act = ac < 4 ? EventAction::Continue : ac < 7 ? EventAction::Restart : EventAction::Stop; e.hnd = e.act == EventAction::Restart ? (int)s.i(0, 3) : 1; if (e.kind == 0 && e.act == EventAction::Restart && s.b()) e.hnd = 1; e.e = e.hnd == 1 ? s.uni(0.6, 1.0) : s.uni(-2, 2); H.ev.push_back(e); }
	c.say([&](auto& o) { o << NM[M] << " a=" << fmt(H.a) << " w=" << fmt(H.w) << " t0=" << fmt(H.T0) << " T=" << fmt(T) << " dt=" << fmt(dt) << " p=" << fmt((double)s0.p) << " v=" << fmt((double)s0.v); for (auto& e : H.ev) o << " [" << (e.kind == 0 ? "p" : e.kind == 1 ? "v" : "t") << "-" << fmt(e.c) << " dir" << (int)e.dir << " act" << (int)e.act << " hnd" << e.hnd << " e=" << fmt(e.e) << "]"; });
	// reference model
	std::vector<MEv> want; std::vector<Seg> segs{ { H.T0, s0 } }; std::vector<double> handled; LD t = H.T0, tEnd = T1; St st = s0; std::vector<char> atZero(ne, 0); for (int i = 0; i < ne; i++) atZero[i] = gval(H.ev[i], t, st) == 0; bool stopped = false; LD minSep = 1e9; std::vector<LD> last(ne, -1e9L); bool bad = false; int rounds = 0, restarts = 0;
	while (!stopped) { if (++rounds > 40) { DISCARD_IF(true); } std::vector<std::tuple<LD, int, LD>> q; for (int i = 0; i < ne; i++) { auto R = roots(H.ev[i], t, st, H.a, atZero[i], bad); LD prev = -1e9L; for (auto& r : R) { q.push_back({ t + r.first, i, r.second }); if (prev > 0) minSep = std::min(minSep, r.first - prev); prev = r.first; } if (atZero[i] && !R.empty()) minSep = std::min(minSep, R[0].first); if (atZero[i] && H.ev[i].kind == 0 && fabsl(st.v) < 0.03L) bad = true; } std::sort(q.begin(), q.end(), [](auto& x, auto& y) { return std::get<0>(x) < std::get<0>(y) || (std::get<0>(x) == std::get<0>(y) && std::get<1>(x) < std::get<1>(y)); });
		bool again = false; for (size_t k = 0; k < q.size() && !stopped && !again; ) { LD te = std::get<0>(q[k]); if (fabsl(te - tEnd) < 1e-5L) bad = true; if (te > tEnd) break; size_t m = k; while (m < q.size() && std::get<0>(q[m]) - te == 0) m++; if (m < q.size() && std::get<0>(q[m]) - te < 1e-5L) bad = true; St se = fly(st, H.a, te - t), sr = se; bool rs = false; std::vector<int> fired; for (size_t j = k; j < m && !stopped; j++) { int i = std::get<1>(q[j]); bool inc = std::get<2>(q[j]) > 0; const Ev& e = H.ev[i]; if (e.dir == EventDirection::Increasing && !inc) continue; if (e.dir == EventDirection::Decreasing && inc) continue; want.push_back({ i, te, se, inc }); if (e.act == EventAction::Stop) { stopped = true; tEnd = te; if (rs) bad = true; } else if (e.act == EventAction::Restart) { rs = true; restarts++; handled.push_back(i); if (e.hnd == 1) sr.v = -e.e * sr.v; else if (e.hnd == 2) sr.v += e.e; else if (e.hnd == 3) sr.p += e.e; } if (e.act != EventAction::Stop) fired.push_back(i); }
			if (rs) { // a crossing that was not requested, at the very time of a restart, is on its surface too: excluded
				for (size_t j = k; j < m; j++) if (std::find(fired.begin(), fired.end(), std::get<1>(q[j])) == fired.end() && !stopped) bad = true; std::fill(atZero.begin(), atZero.end(), 0); for (int i : fired) { bool same = H.ev[i].kind == 0 ? sr.p == se.p : H.ev[i].kind == 1 ? sr.v == se.v : true; atZero[i] = same; if (!same && fabsl(gval(H.ev[i], te, sr)) < 1e-3L) bad = true; } if (fabsl(sr.v) > 30 || fabsl(sr.p) > 100) bad = true; t = te; st = sr; segs.push_back({ t, st }); again = true; } k = m; }
		if (!again) break; }
	DISCARD_IF(bad);
	c.label(NM[M]); c.label(stopped ? "stopped" : "ran to the end"); if (restarts) c.label("restarted"); c.nontrivial(want.size() >= 2);
	Vector<Real> x0(3); x0[0] = (double)s0.p; x0[1] = (double)s0.v; x0[2] = 0; double eps = 1e-10; Run R = run(M, H, x0, H.T0, T1, dt, eps); DISCARD_IF(minSep < 1.05L * R.st.maxStepSize && want.size() + 1 > 0 && minSep < 1e8L); const auto& E = R.r.events;
	std::string got; for (auto& e : E) got += " #" + std::to_string(e.eventIndex) + "@" + fmt(e.time); std::string exp; for (auto& e : want) exp += " #" + std::to_string(e.idx) + "@" + fmt((double)e.t); CHECK(E.size() == want.size(), E.size() << " events reported, " << want.size() << " occur; reported:" << got << " expected:" << exp);
	LD tolT = 2e-7L; for (size_t k = 0; k < E.size(); k++) { tolT = 2e-7L * (1 + (LD)k); CHECK(E[k].eventIndex == want[k].idx, "event " << k << " is #" << E[k].eventIndex << " instead of #" << want[k].idx << "; reported:" << got << " expected:" << exp); CHECK_NEAR((LD)E[k].time, want[k].t, tolT, "time of event " << k); CHECK(E[k].direction == (want[k].inc ? EventDirection::Increasing : EventDirection::Decreasing), "direction of event " << k); CHECK(std::fabs(E[k].eventValue) < 1e-9, "event value " << E[k].eventValue); if (k) CHECK(E[k].time >= E[k - 1].time - 1e-11, "events out of order"); LD tx = tolT * 40; CHECK_NEAR((LD)E[k].state[0], want[k].s.p, tx, "position at event " << k); CHECK_NEAR((LD)E[k].state[1], want[k].s.v, tx, "velocity at event " << k); CHECK(H.eventFunction(E[k].eventIndex, E[k].time, E[k].state) == E[k].eventValue, "reported event value is not that of the reported state"); }
	CHECK(H.calls == handled, "handlers called " << H.calls.size() << " times, expected " << handled.size()); CHECK(R.r.terminatedByEvent == stopped, "terminated flag"); CHECK_NEAR((LD)R.r.finalTime, tEnd, tolT, "final time"); auto at = [&](LD tt) { size_t k = 0; while (k + 1 < segs.size() && segs[k + 1].t <= tt) k++; return fly(segs[k].s, H.a, tt - segs[k].t); }; St fe = stopped ? want.back().s : at(tEnd); LD tx = tolT * 60; CHECK_NEAR((LD)R.r.finalState[0], fe.p, tx, "final position"); CHECK_NEAR((LD)R.r.finalState[1], fe.v, tx, "final velocity"); if (!stopped) CHECK(std::fabs(R.r.finalTime - T1) < 1e-12 * (1 + std::fabs(T1)), "final time");
	const auto& S = R.r.solution; int N = S.size(); CHECK(S.getTValue(0) == H.T0, "first output time"); CHECK(S.getTValues().size() == N, "unfilled output points"); for (int k = 0; k < N; k++) { LD tt = S.getTValue(k); if (k && k < N - 1) CHECK_NEAR(tt, (LD)H.T0 + (LD)k * dt, 1e-13L * (k + 1) * (fabsl(H.T0) + T), "output time " << k); if (k) CHECK(tt > S.getTValue(k - 1), "output times not increasing"); bool near = false; for (auto& g : segs) if (g.t > H.T0 && fabsl(g.t - tt) < 1e-5L) near = true; if (near) continue; St m = at(tt); CHECK_NEAR((LD)S.getXValue(k, 0), m.p, tx, "position at output time " << fmt((double)tt)); CHECK_NEAR((LD)S.getXValue(k, 1), m.v, tx, "velocity at output time " << fmt((double)tt)); } LD q = (tEnd - H.T0) / dt; if (!stopped) CHECK(S.getTValue(N - 1) == T1, "last output time " << fmt(S.getTValue(N - 1)) << " is not the end " << fmt(T1)); if (fabsl(q - roundl(q)) > 1e-4L) CHECK(N == (int)floorl(q) + 1 + (stopped ? 0 : 1), N << " output points for " << (double)q << " intervals"); }

// curved trajectories, any nonlinear event function; only filtering and continuing
struct Osc : IODESystemWithEvents { double w, T0; int k; std::vector<double> cc; std::vector<EventDirection> dir; bool stop = false; int getDim() const override { return 2; } void derivs(const Real, const Vector<Real>& x, Vector<Real>& d) const override { d[0] = x[1]; d[1] = -w * w * x[0]; } int getNumEvents() const override { return (int)cc.size(); } Real eventFunction(int i, Real t, const Vector<Real>& x) const override { return i % 2 ? x[0] * x[1] / w - cc[i] : x[0] - cc[i]; } EventDirection getEventDirection(int i) const override { return dir[i]; } EventAction getEventAction(int i) const override { return stop && i == 0 ? EventAction::Stop : EventAction::Continue; } };
LAW(oscillator, 1500, 15000) { int M = (int)s.i(0, 3); Osc O; O.w = s.uni(0.4, 4); O.T0 = s.b() ? 0 : s.uni(-50, 50); double T = s.uni(1, 12) / O.w * 2, ph = s.uni(-3, 3), A = s.uni(0.3, 3), eps = std::pow(10.0, s.uni(-12, -8)); int ne = (int)s.i(1, 4); for (int i = 0; i < ne; i++) { O.cc.push_back(s.uni(-1.2, 1.2) * (i % 2 ? A * A / 2 : A)); O.dir.push_back(s.pick({ EventDirection::Both, EventDirection::Increasing, EventDirection::Decreasing })); } O.stop = s.chance(1, 3); c.say([&](auto& o) { o << NM[M] << " w=" << fmt(O.w) << " T0=" << fmt(O.T0) << " T=" << fmt(T) << " ph=" << fmt(ph) << " A=" << fmt(A) << " eps=" << fmt(eps) << " stop=" << O.stop; for (int i = 0; i < ne; i++) o << " [" << fmt(O.cc[i]) << " dir" << (int)O.dir[i] << "]"; }); c.label(NM[M]);
	// x = A sin(w t + ph), x v / w = A^2/2 sin(2 w t + 2 ph)
	std::vector<MEv> want; bool bad = false; LD minSep = 1e9; for (int i = 0; i < ne; i++) { LD f = i % 2 ? 2 : 1, amp = i % 2 ? A * A / 2 : A, r = O.cc[i] / amp; if (fabsl(fabsl(r) - 1) < 0.02L) bad = true; if (fabsl(r) >= 1) continue; LD th = asinl(r); std::vector<LD> ts; for (int k = -20; k < 40; k++) for (int z = 0; z < 2; z++) { LD u = ((z ? M_PIl - th : th) + 2 * M_PIl * k - f * ph) / (f * O.w); if (fabsl(u) < 1e-4L || fabsl(u - T) < 1e-4L) bad = true; if (u > 0 && u < T) ts.push_back(u); } std::sort(ts.begin(), ts.end()); for (size_t k = 0; k < ts.size(); k++) { if (k) minSep = std::min(minSep, ts[k] - ts[k - 1]); bool inc = cosl(f * (O.w * ts[k] + ph)) > 0; if ((O.dir[i] == EventDirection::Increasing && !inc) || (O.dir[i] == EventDirection::Decreasing && inc)) continue; want.push_back({ i, ts[k], { 0, 0 }, inc }); } } DISCARD_IF(bad); std::sort(want.begin(), want.end(), [](auto& a, auto& b) { return a.t < b.t; }); for (size_t k = 1; k < want.size(); k++) DISCARD_IF(want[k].t - want[k - 1].t < 1e-3L);
	bool stopped = false; if (O.stop) for (size_t k = 0; k < want.size(); k++) if (want[k].idx == 0) { want.resize(k + 1); stopped = true; break; } Vector<Real> x0(2); x0[0] = A * std::sin(ph); x0[1] = A * O.w * std::cos(ph); Run R = run(M, O, x0, O.T0, O.T0 + T, T / 7, eps); DISCARD_IF(minSep < 1.05L * R.st.maxStepSize); LD h = R.st.maxStepSize, herm = powl(h * O.w, 4) / 384 * A * 1.3L; DISCARD_IF(herm > 5e-4L * A); c.nontrivial(want.size() >= 3); const auto& E = R.r.events; CHECK(E.size() == want.size(), E.size() << " events reported, " << want.size() << " occur"); LD ex = herm + (eps * 100 + 1e-13L) * (R.st.acceptedSteps + 5) * (A + A * O.w + 1 / O.w); for (size_t k = 0; k < E.size(); k++) { int i = want[k].idx; LD f = i % 2 ? 2 : 1, amp = i % 2 ? A * A / 2 : A, sl = amp * f * O.w * fabsl(cosl(f * (O.w * want[k].t + ph))), tol = (i % 2 ? A * 2 * (1 + herm * 50 / A) : 1) * ex * (i % 2 ? 4 : 1) / sl * 2 + 1e-10L; CHECK(E[k].eventIndex == i && E[k].direction == (want[k].inc ? EventDirection::Increasing : EventDirection::Decreasing), "event " << k << " index or direction"); CHECK_NEAR((LD)E[k].time - O.T0, want[k].t, tol, "time of event " << k); } CHECK(R.r.terminatedByEvent == stopped, "terminated flag"); if (stopped) { CHECK(R.r.finalTime == E.back().time, "final time is not that of the stopping event"); for (int i = 0; i < 2; i++) CHECK(R.r.finalState[i] == E.back().state[i], "final state is not that of the stopping event"); } else { CHECK_NEAR(R.r.finalTime, O.T0 + T, 1e-12 * (60 + T), "final time"); } }
