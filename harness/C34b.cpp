// C34 (second part): the stored trajectory of a constrained system as a container, and the instrumented stiff solvers
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "interfaces/IODESystem.h"
#include "base/ODESystem.h"
#include "base/ODESystemSolution.h"
#include "base/DAESystem.h"
#include "algorithms/ODESolvers/ODESolverStiff.h"
#include "algorithms/DAESolvers.h"
LAW(trajectory_store, 1500, 20000) { // any history of writes, against a plain map
	int nx = (int)s.i(1, 3), ny = (int)s.i(1, 2), cap = (int)s.i(0, 6); double t1 = s.uni(-2, 2), t2 = t1 + s.uni(0.5, 4); DAESolution S(t1, t2, nx, ny, cap); int ok = 0, bad = 0, cnt = 0, ops = (int)s.i(1, 30), far = 0; std::map<int, double> T; std::map<std::pair<int, int>, double> X, Y; std::string log; double tt = t1;
	c.say([&](auto& o) { o << "dims " << nx << "," << ny << " capacity " << cap << " history " << log; }); CHECK(S.isEmpty() && S.size() == 0 && S.getNumSteps() == 0 && S.capacity() == cap + 1, "empty"); CHECK_THROWS(S.getXValuesAtEnd(), IndexError, "no data"); CHECK_THROWS(S.getYValuesAtEnd(), IndexError, "no data");
	for (int k = 0; k < ops; k++) { int op = (int)s.i(0, 7), ind = s.chance(1, 4) ? (int)s.i(0, 60) : s.b() ? cnt : (int)s.i(0, cnt); double v = s.uni(-9, 9); int cx = (int)s.i(0, nx - 1), cy = (int)s.i(0, ny - 1);
		if (op <= 3) { Vector<Real> x(nx), y(ny); for (auto& q : x) q = s.uni(-9, 9); for (auto& q : y) q = s.uni(-9, 9); tt += 0.1; S.fillValues(ind, tt, x, y); T[ind] = tt; for (int i = 0; i < nx; i++) X[{i, ind}] = x[i]; for (int i = 0; i < ny; i++) Y[{i, ind}] = y[i]; if (ind > cnt + 2) far++; cnt = std::max(cnt, ind + 1); log += "F" + std::to_string(ind) + " "; }
		else if (op == 4) { S.setTVal(ind, v); T[ind] = v; cnt = std::max(cnt, ind + 1); log += "T" + std::to_string(ind) + " "; } else if (op == 5) { S.setXVal(ind, cx, v); X[{cx, ind}] = v; log += "X" + std::to_string(ind) + " "; } else if (op == 6) { S.setYVal(ind, cy, v); Y[{cy, ind}] = v; log += "Y" + std::to_string(ind) + " "; } else { S.incrementSuccessfulSteps(); ok++; if (s.b()) { S.incrementRejectedSteps(); bad++; } } }
	auto verify = [&](const DAESolution& D) { CHECK(D.size() == cnt && D.isEmpty() == (cnt == 0) && D.getNumSteps() == std::max(0, cnt - 1) && D.getDiffDim() == nx && D.getAlgDim() == ny && D.getTotalDim() == nx + ny && D.getT1() == t1 && D.getT2() == t2 && D.getNumStepsOK() == ok && D.getNumStepsBad() == bad && D.getTotalNumSteps() == ok + bad, "size " << D.size() << " instead of " << cnt); for (int i = 0; i < cnt; i++) { if (T.count(i)) CHECK(D.getTValue(i) == T[i], "time " << i); for (int j = 0; j < nx; j++) if (X.count({j, i})) CHECK(D.getXValue(i, j) == X[std::make_pair(j, i)], "x" << j << " at " << i); for (int j = 0; j < ny; j++) if (Y.count({j, i})) CHECK(D.getYValue(i, j) == Y[std::make_pair(j, i)], "y" << j << " at " << i); }
		CHECK_THROWS(D.getTValue(cnt), IndexError, "time past the end"); CHECK_THROWS(D.getXValue(cnt, 0), IndexError, "x past the end"); CHECK_THROWS(D.getYValue(-1, 0), IndexError, "y before the start"); if (cnt) { CHECK_THROWS(D.getXValue(0, nx), IndexError, "component"); CHECK_THROWS(D.getYValue(0, ny), IndexError, "component"); Vector<Real> e = D.getXValuesAtEnd(), f = D.getYValuesAtEnd(); for (int j = 0; j < nx; j++) CHECK(e[j] == D.getXValue(cnt - 1, j), "x at the end"); for (int j = 0; j < ny; j++) CHECK(f[j] == D.getYValue(cnt - 1, j), "y at the end"); } };
	verify(S); Vector<Real> gx(nx), gy(ny), wx(nx + 1), wy(ny + 1); CHECK_THROWS(S.fillValues(-1, 0, gx, gy), IndexError, "negative index"); CHECK_THROWS(S.fillValues(0, 0, wx, gy), ArgumentError, "x size"); CHECK_THROWS(S.fillValues(0, 0, gx, wy), ArgumentError, "y size"); CHECK_THROWS(S.setTVal(-1, 0), IndexError, "negative index"); CHECK_THROWS(S.setXVal(-1, 0, 0), IndexError, "negative index"); CHECK_THROWS(S.setXVal(0, nx, 0), IndexError, "component"); CHECK_THROWS(S.setYVal(-1, 0, 0), IndexError, "negative index"); CHECK_THROWS(S.setYVal(0, -1, 0), IndexError, "component");
	if (cnt) { S.setFinalSize(cnt - 1); verify(S); CHECK(S.capacity() == cnt && S.getTotalSavedSteps() == cnt && S.getTValues().size() == cnt && S.getXValues().rows() == nx && S.getXValues().cols() == cnt && S.getYValues().rows() == ny && S.getYValues().cols() == cnt, "final size"); for (int j = 0; j < nx; j++) { Vector<Real> r = S.getXValues(j); CHECK(r.size() == cnt, "row length"); for (int i = 0; i < cnt; i++) CHECK(r[i] == S.getXValue(i, j), "row of x"); } for (int j = 0; j < ny; j++) { Vector<Real> r = S.getYValues(j); for (int i = 0; i < cnt; i++) CHECK(r[i] == S.getYValue(i, j), "row of y"); } CHECK_THROWS(S.getXValues(nx), IndexError, "component"); CHECK_THROWS(S.getYValues(-1), IndexError, "component"); if (cnt > 2) c.nontrivial(); }
	c.label(far ? "sparse writes" : "dense writes");
}
LAW(trajectory_curves, 800, 8000) { // interpolants and curves pass through the stored samples
	int n = (int)s.i(4, 30); double t1 = s.uni(-2, 2), h = s.uni(0.05, 0.5); DAESolution S(t1, t1 + h * (n - 1), 3, 1, n + (int)s.i(0, 20)); std::vector<std::array<double, 4>> v(n); double a = s.uni(0.2, 2); c.say([&](auto& o) { o << n << " samples from " << fmt(t1) << " step " << fmt(h); });
	for (int i = 0; i < n; i++) { double t = t1 + i * h; v[i] = {std::sin(a * t), std::cos(a * t) + t, t * t * a, std::exp(-a * t * 0.3)}; Vector<Real> x(3), y(1); for (int j = 0; j < 3; j++) x[j] = v[i][j]; y[0] = v[i][3]; S.fillValues(i, t, x, y); } S.setFinalSize(n - 1);
	for (int j = 0; j < 4; j++) { auto L = j < 3 ? S.getXAsLinInterp(j) : S.getYAsLinInterp(0); auto P = j < 3 ? S.getXAsSplineInterp(j) : S.getYAsSplineInterp(0); for (int i = 0; i < n; i++) { double t = S.getTValue(i); CHECK_NEAR(L(t), v[i][j], 1e-9 * (1 + std::fabs(v[i][j])), "linear interpolant of component " << j << " at sample " << i); CHECK_NEAR(P(t), v[i][j], 1e-9 * (1 + std::fabs(v[i][j])), "spline of component " << j << " at sample " << i); if (i + 1 < n) { double m = t + h / 2; CHECK_NEAR(L(m), (v[i][j] + v[i + 1][j]) / 2, 1e-9 * (1 + std::fabs(v[i][j]) + std::fabs(v[i + 1][j])), "linear interpolant between samples"); } } }
	auto C2 = S.getXAsParamCurve2D(1, 0); auto C3 = S.getXAsParamCurve3D(2, 0, 1); for (int i = 0; i < n; i++) { Real t = i == n - 1 ? C2.getMaxT() : C2.getMinT() + (C2.getMaxT() - C2.getMinT()) * i / (n - 1); auto p = C2(t); auto q = C3(t); CHECK(C2.getMinT() == t1, "start of the curve"); if (i == 0 || i == n - 1) { CHECK_NEAR(p[0], v[i][1], 1e-8 * (1 + std::fabs(v[i][1])), "plane curve at its end"); CHECK_NEAR(p[1], v[i][0], 1e-8, "plane curve at its end"); CHECK_NEAR(q[0], v[i][2], 1e-8 * (1 + std::fabs(v[i][2])), "space curve at its end"); CHECK_NEAR(q[1], v[i][0], 1e-8, "space curve at its end"); CHECK_NEAR(q[2], v[i][1], 1e-8 * (1 + std::fabs(v[i][1])), "space curve at its end"); } }
	c.nontrivial();
}
static double gl;
LAW(stiff_detailed, 150, 1500) { // the instrumented solvers give exactly the plain results and report failures as asked
	int k = (int)s.i(0, 2); double lam = s.pwide(0, 3), y0 = s.uni(-2, 2), T = s.uni(0.2, 1); bool bad = s.chance(1, 4); int lim = bad ? (int)s.i(3, 20) : 1 << 30; int calls = 0; c.say([&](auto& o) { o << "method " << k << " lambda " << fmt(lam) << (bad ? " throwing" : ""); });
	auto mk = [&](int& cnt) { return ODESystemWithJacobianFromStdFunc(1, [&, lam](Real t, const Vector<Real>& y, Vector<Real>& f) { if (++cnt > lim) throw std::runtime_error("model failed"); f[0] = -lam * (y[0] - std::cos(t)); }, [&, lam](const Real t, const Vector<Real>& y, Vector<Real>& f, Matrix<Real>& J) { if (++cnt > lim) throw std::runtime_error("model failed"); f[0] = -lam * (y[0] - std::cos(t)); J(0, 0) = -lam; }); };
	ODEStiffConfig C; C.solver = s.b() ? StiffSolverConfig() : s.b() ? StiffSolverConfig::Fast() : StiffSolverConfig::HighPrecision(); if (k == 2 && C.solver.tolerance < 1e-6) C.solver.tolerance = 1e-6; C.solver.step_size = T / (int)s.i(20, 60); C.exception_policy = s.b() ? EvaluationExceptionPolicy::Propagate : EvaluationExceptionPolicy::ConvertToStatus; Vector<Real> v(1); v[0] = y0;
	int c1 = 0, c2 = 0; auto S1 = mk(c1), S2 = mk(c2); std::string e1, e2; StiffSolverResult P(0, 1, 1, 1); ODEStiffResult D; bool got1 = false, got2 = false;
	try { if (k == 0) P = SolveBackwardEuler(S1, 0, v, T, C.solver); else if (k == 1) P = SolveBDF2(S1, 0, v, T, C.solver); else { Rosenbrock23Solver R(S1); P = R.Solve(v, Real(0), T, C.solver); } got1 = true; } catch (const std::exception& e) { e1 = e.what(); }
	try { D = k == 0 ? SolveBackwardEulerDetailed(S2, 0, v, T, C) : k == 1 ? SolveBDF2Detailed(S2, 0, v, T, C) : SolveRosenbrock23Detailed(S2, v, 0, T, C); got2 = true; } catch (const std::exception& e) { e2 = e.what(); }
	if (C.exception_policy == EvaluationExceptionPolicy::Propagate) CHECK(got1 == got2 && e1 == e2, "exceptions: plain '" << e1 << "', instrumented '" << e2 << "'"); else CHECK(got2, "an exception escapes although the policy converts it: " << e2);
	if (got1 && got2) { CHECK(D.status == P.status, "status"); CHECK(D.total_steps == P.total_steps && D.newton_iterations == P.newton_iterations && D.jacobian_evaluations == P.jacobian_evaluations, "counters"); if (D.solution) { CHECK(D.solution->getTValues().size() == P.solution.getTValues().size(), "lengths"); for (int i = 0; i < P.solution.getTValues().size(); i++) CHECK(D.solution->getTValues()[i] == P.solution.getTValues()[i] && D.solution->getXValues()(0, i) == P.solution.getXValues()(0, i), "sample " << i); } else CHECK(P.status != AlgorithmStatus::Success, "no solution although the plain solver has one"); }
	if (!got1 && got2) CHECK(D.status != AlgorithmStatus::Success && !D.error_message.empty(), "a failed model is reported as a success"); CHECK(!got2 || !D.algorithm_name.empty(), "no name"); (void)calls; (void)gl; c.label(bad ? "failing model" : "regular"); if (got1 || bad) c.nontrivial();
}
