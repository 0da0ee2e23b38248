// C25 interpolation
#include "common.h"
#include "interfaces/IFunction.h"
#include "base/Vector/VectorN.h"
#include "base/InterpolatedFunctions/InterpolatedRealFunction.h"
#include "base/InterpolatedFunctions/Interpolation2DFunction.h"
#include "base/InterpolatedFunctions/InterpolationParametricCurve.h"
typedef std::vector<double> D;
static D nodes(Src& s, int n, bool allowDesc = true) { D x(n); double a = s.pick({s.uni(-3, 0), (double)s.i(-3, 0)}); int k = s.i(0, 2); x[0] = a; for (int i = 1; i < n; i++) x[i] = x[i - 1] + (k == 0 ? 0.5 : k == 1 ? s.uni(0.05, 1.5) : std::pow(10.0, s.uni(-2, 0.3))); if (allowDesc && s.chance(1, 4)) std::reverse(x.begin(), x.end()); return x; }
static Vector<Real> V(const D& d) { Vector<Real> v(d.size()); for (size_t i = 0; i < d.size(); i++) v[i] = d[i]; return v; }
static double lo(const D& x) { return std::min(x.front(), x.back()); } static double hi(const D& x) { return std::max(x.front(), x.back()); }
static double query(Src& s, const D& x) { int n = x.size(); int i = s.i(0, n - 2); return s.pick({x[i] + s.unit() * (x[i + 1] - x[i]), x[i], lo(x) + s.unit() * (hi(x) - lo(x)), x[n - 1], x[0], (x[i] + x[i + 1]) / 2, x[i] + (x[i + 1] - x[i]) * std::ldexp(1.0, -(int)s.i(2, 50)), x[i + 1] - (x[i + 1] - x[i]) * std::ldexp(1.0, -(int)s.i(2, 50))}); }
static D ys(Src& s, int n) { D y(n); bool in = s.b(); for (auto& v : y) v = in ? s.i(-5, 5) : s.uni(-3, 3); return y; }
static int seg(const D& x, double t) { int n = x.size(); for (int i = 0; i + 1 < n; i++) if ((t - x[i]) * (t - x[i + 1]) <= 0) return i; return -1; }
static LD poly(const D& c, LD x) { LD t = 0; for (size_t i = c.size(); i-- > 0;) t = t * x + c[i]; return t; }
LAW(linear, 1500, 12000) {
	int n = s.i(2, 12); D x = nodes(s, n), y = ys(s, n); bool ex = s.b(); c.say([&](auto& o) { o << "x " << str(x) << " y " << str(y) << (ex ? " extrapolating" : ""); }); LinearInterpRealFunc f(V(x), V(y), ex); CHECK(f.MinX() == lo(x) && f.MaxX() == hi(x) && f.getNumPoints() == n, "domain [" << f.MinX() << "," << f.MaxX() << "]"); for (int i = 0; i < n; i++) CHECK(std::fabs(f(x[i]) - y[i]) <= 1e-13 * 6, "node " << i << ": " << fmt(f(x[i])) << " data " << fmt(y[i]));
	for (int t = 0; t < 6; t++) { double q = query(s, x); int i = seg(x, q); LD e = y[i] + ((LD)q - x[i]) / ((LD)x[i + 1] - x[i]) * ((LD)y[i + 1] - y[i]); CHECK(fabsl(f(q) - e) <= 1e-12L, "value at " << fmt(q) << ": " << fmt(f(q)) << " exact " << (double)e); CHECK(f(q) == f(q), "repeat"); }
	for (double q : {lo(x) - s.uni(1e-9, 2), hi(x) + s.uni(1e-9, 2)}) { int i = (std::fabs(q - x[0]) < std::fabs(q - x[n - 1])) ? 0 : n - 2; LD e = ex ? y[i] + ((LD)q - x[i]) / ((LD)x[i + 1] - x[i]) * ((LD)y[i + 1] - y[i]) : 0; CHECK(fabsl(f(q) - e) <= 1e-11L * (1 + fabsl(e)), "outside value at " << fmt(q) << ": " << fmt(f(q)) << " expected " << (double)e); } c.nontrivial(n > 2); }
LAW(polynomial, 1500, 12000) {
	int n = s.i(2, 10), m = s.i(2, n); D x = nodes(s, n); D cf(m); for (auto& v : cf) v = s.pick({(double)s.i(-3, 3), s.uni(-2, 2)}); bool fit = s.b(); D y(n); LD my = 1; for (int i = 0; i < n; i++) { y[i] = fit ? (double)poly(cf, x[i]) : s.uni(-3, 3); my = std::max<LD>(my, std::fabs(y[i])); } c.say([&](auto& o) { o << "points used " << m << " x " << str(x) << " y " << str(y); }); PolynomInterpRealFunc f(V(x), V(y), m); CHECK(f.getInterpOrder() == m, "order"); D first; D qs; for (int t = 0; t < 5; t++) qs.push_back(query(s, x));
	for (int i = 0; i < n; i++) CHECK(std::fabs(f(x[i]) - y[i]) <= 1e-12 * (double)my, "node " << i << " value " << fmt(f(x[i])) << " data " << fmt(y[i]));
	for (double q : qs) { double v = f(q); first.push_back(v); int st = f.locate(q); CHECK(st >= 0 && st + m <= n, "stencil out of range"); int i = seg(x, q); CHECK(m < 2 || (i >= st && i + 1 <= st + m - 1) || q == x[i] || q == x[i + 1], "stencil " << st << " does not bracket " << fmt(q)); LD e = 0, mag = 0; for (int a = 0; a < m; a++) { LD L = y[st + a]; for (int b = 0; b < m; b++) if (b != a) L *= ((LD)q - x[st + b]) / ((LD)x[st + a] - x[st + b]); e += L; mag += fabsl(L); } CHECK(fabsl(v - e) <= 100 * EPS * m * m * (mag + my), "value at " << fmt(q) << ": " << fmt(v) << " Lagrange " << (double)e); if (fit) CHECK(fabsl(v - poly(cf, q)) <= 1e-13L * m * m * (mag + my) * 40, "polynomial of degree " << m - 1 << " not reproduced at " << fmt(q)); }
	for (int t = 4; t >= 0; t--) CHECK(f(qs[t]) == first[t], "value depends on the order of evaluation"); c.nontrivial(m > 2); }
LAW(spline, 1200, 10000) {
	int n = s.i(2, 12); D x = nodes(s, n), y = ys(s, n); int bc = s.i(0, 3); double d0 = s.uni(-3, 3), d1 = s.uni(-3, 3); D cf; if (s.chance(1, 3)) { cf = bc == 3 ? D{s.uni(-2, 2), s.uni(-2, 2), s.uni(-2, 2), s.uni(-2, 2)} : D{s.uni(-2, 2), s.uni(-2, 2)}; for (int i = 0; i < n; i++) y[i] = (double)poly(cf, x[i]); auto dp = [&](LD t) { LD v = cf[1]; if (cf.size() > 2) v += 2 * cf[2] * t + 3 * cf[3] * t * t; return (double)v; }; d0 = dp(x[0]); d1 = dp(x[n - 1]); } c.say([&](auto& o) { o << "x " << str(x) << " y " << str(y) << " end conditions " << bc << " " << fmt(d0) << " " << fmt(d1); });
	SplineInterpRealFunc f = bc == 0 ? SplineInterpRealFunc(V(x), V(y)) : SplineInterpRealFunc(V(x), V(y), bc & 1 ? d0 : 1e99, bc & 2 ? d1 : 1e99); LD my = 1, mh = 9e9; for (double v : y) my = std::max<LD>(my, std::fabs(v)); for (int i = 0; i + 1 < n; i++) mh = std::min(mh, fabsl((LD)x[i + 1] - x[i])); LD big = my + 3; LD T = 1e-11L * big / mh; for (int i = 0; i < n; i++) CHECK(fabsl(f(x[i]) - y[i]) <= 1e-12L * big, "node " << i << ": " << fmt(f(x[i])) << " data " << fmt(y[i]));
	// C2: the pieces meet in value, slope and curvature; each piece is a cubic (third differences constant)
	CHECK(std::fabs(bc & 1 ? f.Derivative(x[0]) - d0 : f.SecondDerivative(x[0]) * (double)mh * (double)mh) <= T * 10, "start condition"); CHECK(std::fabs(bc & 2 ? f.Derivative(x[n - 1]) - d1 : f.SecondDerivative(x[n - 1]) * (double)mh * (double)mh) <= T * 10, "end condition");
	// oracle: second derivatives of the spline equations solved densely
	std::vector<std::vector<LD>> A(n, std::vector<LD>(n + 1, 0)); auto H = [&](int i) { return (LD)x[i + 1] - x[i]; }; auto S = [&](int i) { return ((LD)y[i + 1] - y[i]) / H(i); }; if (bc & 1) { A[0][0] = H(0) / 3; A[0][1] = H(0) / 6; A[0][n] = S(0) - d0; } else A[0][0] = 1; if (bc & 2) { A[n - 1][n - 1] = H(n - 2) / 3; A[n - 1][n - 2] = H(n - 2) / 6; A[n - 1][n] = d1 - S(n - 2); } else A[n - 1][n - 1] = 1; for (int i = 1; i + 1 < n; i++) { A[i][i - 1] = H(i - 1) / 6; A[i][i] = (H(i - 1) + H(i)) / 3; A[i][i + 1] = H(i) / 6; A[i][n] = S(i) - S(i - 1); }
	for (int k = 0; k < n; k++) { int p = k; for (int r = k; r < n; r++) if (fabsl(A[r][k]) > fabsl(A[p][k])) p = r; std::swap(A[p], A[k]); for (int r = 0; r < n; r++) if (r != k && A[r][k] != 0) { LD m = A[r][k] / A[k][k]; for (int q = k; q <= n; q++) A[r][q] -= m * A[k][q]; } } D M(n); std::vector<LD> m2(n); LD mm = 1; for (int i = 0; i < n; i++) m2[i] = A[i][n] / A[i][i], mm = std::max(mm, fabsl(m2[i])); for (int i = 0; i < n; i++) CHECK(fabsl(f.GetSecondDerivative(i) - m2[i]) <= 1e-11L * mm, "second derivative at node " << i << ": " << fmt(f.GetSecondDerivative(i)) << " exact " << (double)m2[i]);
	auto ev = [&](int i, LD t, int d) -> LD { LD h = H(i), a = (x[i + 1] - t) / h, b = (t - x[i]) / h; if (d == 0) return a * y[i] + b * y[i + 1] + ((a * a * a - a) * m2[i] + (b * b * b - b) * m2[i + 1]) * h * h / 6; if (d == 1) return S(i) - (3 * a * a - 1) / 6 * h * m2[i] + (3 * b * b - 1) / 6 * h * m2[i + 1]; return a * m2[i] + b * m2[i + 1]; }; LD W = std::max<LD>(1, hi(x) - lo(x)); for (int t = 0; t < 5; t++) { double q = query(s, x); int i = seg(x, q); CHECK(fabsl(f(q) - ev(i, q, 0)) <= 1e-11L * (big + mm * W * W), "value at " << fmt(q) << ": " << fmt(f(q)) << " exact " << (double)ev(i, q, 0)); CHECK(fabsl(f.Derivative(q) - ev(i, q, 1)) <= 1e-11L * (big / mh + mm * W), "derivative at " << fmt(q)); CHECK(fabsl(f.SecondDerivative(q) - ev(i, q, 2)) <= 1e-11L * mm, "second derivative at " << fmt(q)); if (!cf.empty() && (bc == 3 || cf.size() == 2)) CHECK(fabsl(f(q) - poly(cf, q)) <= 1e-10L * (big + mm * W * W), "polynomial not reproduced at " << fmt(q)); }
	if (x[0] < x[n - 1]) { double a = query(s, x), b = query(s, x); auto F = [&](LD from, LD to) { LD t = 0; for (int i = 0; i + 1 < n; i++) { LD u = std::max<LD>(from, x[i]), v = std::min<LD>(to, x[i + 1]); if (u < v) t += (v - u) / 6 * (ev(i, u, 0) + 4 * ev(i, (u + v) / 2, 0) + ev(i, v, 0)); } return t; }; LD e = a < b ? F(a, b) : -F(b, a); CHECK(fabsl(f.Integrate(a, b) - e) <= 1e-11L * (big + mm * W * W) * W, "integral from " << fmt(a) << " to " << fmt(b) << ": " << fmt(f.Integrate(a, b)) << " exact " << (double)e); CHECK_THROWS(f.Integrate(x[0] - 0.1, b), DomainError, "integration outside the data accepted"); CHECK_THROWS(f.Integrate(a, x[n - 1] + 0.1), DomainError, "integration outside the data accepted"); }
	CHECK_THROWS(f.GetSecondDerivative(s.pick({-1, n, n + 5})), IndexError, "index out of range"); c.nontrivial(n > 2); }
LAW(rational, 1000, 8000) {
	int m = s.i(2, 6), n = m + s.i(0, 4); D x = nodes(s, n); double mid = (lo(x) + hi(x)) / 2, half = (hi(x) - lo(x)) / 2; int mu = (m - 1) / 2, nu = m - 1 - mu; D p(mu + 1); for (auto& v : p) v = s.uni(0.2, 2); D roots(nu); for (auto& r : roots) r = mid + (s.b() ? 1 : -1) * half * s.uni(1.5, 4); auto g = [&](LD t) { LD d = 1; for (double r : roots) d *= (t - r) / half; return poly(p, (t - mid) / half) / d; }; D y(n); LD my = 0; for (int i = 0; i < n; i++) y[i] = (double)g(x[i]), my = std::max<LD>(my, std::fabs(y[i])); c.say([&](auto& o) { o << "points used " << m << " x " << str(x) << " y " << str(y) << " poles " << str(roots); }); RationalInterpRealFunc f(V(x), V(y), m); for (int i = 0; i < n; i++) { CHECK(f(x[i]) == y[i], "node " << i << " not reproduced"); } for (int t = 0; t < 5; t++) { double q = query(s, x); double v; try { v = f(q); } catch (RealFuncInterpRuntimeError&) { continue; } LD tol = 1e-6L; int st = f.locate(q); LD amp = 1; for (int a = 0; a < m; a++) { LD L = 1; for (int b = 0; b < m; b++) if (b != a) L *= (fabsl((LD)q - x[st + b]) + 0.1) / fabsl((LD)x[st + a] - x[st + b]); amp += fabsl(L); } if (amp > 1e5L) continue; c.label("compared"); CHECK(fabsl(v - g(q)) <= tol * my * amp, "rational function not reproduced at " << fmt(q) << ": " << fmt(v) << " exact " << (double)g(q)); } c.nontrivial(m > 2); }
LAW(barycentric, 1200, 10000) {
	int n = s.i(1, 14), d = s.i(0, std::min(n - 1, 6)); D x = nodes(s, n); D cf(d + 1); for (auto& v : cf) v = s.uni(-2, 2); bool fit = s.b(); D y(n); LD my = 1; LD R = 1; for (double t : x) R = std::max<LD>(R, std::fabs(t)); for (int i = 0; i < n; i++) { y[i] = fit ? (double)poly(cf, x[i]) : s.uni(-3, 3); my = std::max<LD>(my, std::fabs(y[i])); } c.say([&](auto& o) { o << "blending degree " << d << " x " << str(x) << " y " << str(y); }); BarycentricRationalInterp f(V(x), V(y), d); CHECK(f.getNumPoints() == n && f.getBlendingParameter() == d, "parameters"); for (int i = 0; i < n; i++) CHECK(f(x[i]) == y[i], "node " << i << " not reproduced"); std::vector<LD> w(n, 0); for (int i = 0; i + d < n; i++) for (int k = i; k <= i + d; k++) { LD t = i % 2 ? -1 : 1; for (int j = i; j <= i + d; j++) if (j != k) t /= ((LD)x[k] - x[j]); w[k] += t; } // Floater-Hormann weights
	for (int i = 0; i < n; i++) { LD mag = fabsl(w[i]); CHECK(fabsl(fabsl(f.getWeight(i)) - mag) <= 1e-12L * mag * 10, "weight " << i << " " << fmt(f.getWeight(i)) << " exact " << (double)w[i]); }
	for (int t = 0; n > 1 && t < 5; t++) { double q = query(s, x); LD a = 0, b = 0, ab = 0; bool node = false; for (int i = 0; i < n; i++) { if (q == x[i]) node = true; else { LD z = w[i] / ((LD)q - x[i]); a += z * y[i]; b += z; ab += fabsl(z); } } if (node) continue; LD amp = ab / fabsl(b); CHECK(fabsl(f(q) - a / b) <= 1e-12L * amp * std::max<LD>(my, fabsl(a / b)), "value at " << fmt(q) << ": " << fmt(f(q)) << " exact " << (double)(a / b)); CHECK(std::isfinite(f(q)), "pole at " << fmt(q)); if (fit) CHECK(fabsl(f(q) - poly(cf, q)) <= 1e-11L * amp * std::max<LD>(my, fabsl(a / b)) * (d + 1) + 1e-11L * my, "polynomial of degree " << d << " not reproduced at " << fmt(q)); } CHECK_THROWS(f.getWeight(n), IndexError, "index"); CHECK_THROWS(BarycentricRationalInterp(V(x), V(y), n + (int)s.i(0, 2)), RealFuncInterpInitError, "degree too large"); CHECK_THROWS(BarycentricRationalInterp(V(x), V(y), -1 - (int)s.i(0, 2)), RealFuncInterpInitError, "negative degree"); c.nontrivial(n > 2 && d > 0); }
LAW(invalid_data, 500, 4000) {
	int n = s.i(2, 8); D x = nodes(s, n), y = ys(s, n), dup = x; int i = s.i(0, n - 1), j = (i + s.i(1, n - 1)) % n; dup[i] = dup[j]; c.say([&](auto& o) { o << "x " << str(x) << " duplicated " << i << "," << j; }); typedef RealFuncInterpInitError E; CHECK_THROWS(LinearInterpRealFunc(V(dup), V(y)), E, "duplicate nodes accepted (linear)"); CHECK_THROWS(PolynomInterpRealFunc(V(dup), V(y), n), E, "duplicate nodes accepted (polynomial)"); CHECK_THROWS(SplineInterpRealFunc(V(dup), V(y)), E, "duplicate nodes accepted (spline)"); CHECK_THROWS(RationalInterpRealFunc(V(dup), V(y), n), E, "duplicate nodes accepted (rational)");
	D sh(y.begin(), y.end() - s.i(1, n - 1)); CHECK_THROWS(LinearInterpRealFunc(V(x), V(sh)), E, "fewer values than nodes accepted (linear)"); CHECK_THROWS(PolynomInterpRealFunc(V(x), V(sh), n), E, "fewer values than nodes accepted (polynomial)"); CHECK_THROWS(SplineInterpRealFunc(V(x), V(sh)), E, "fewer values than nodes accepted (spline)"); CHECK_THROWS(RationalInterpRealFunc(V(x), V(sh), 2), E, "fewer values than nodes accepted (rational)"); CHECK_THROWS(BarycentricRationalInterp(V(x), V(sh), 0), E, "fewer values than nodes accepted (barycentric)");
	int m = s.pick({0, 1, -1, n + 1, n + 7}); CHECK_THROWS(PolynomInterpRealFunc(V(x), V(y), m), E, "order " << m << " of " << n << " points accepted"); CHECK_THROWS(RationalInterpRealFunc(V(x), V(y), m), E, "order accepted"); D one{1.0}; CHECK_THROWS(LinearInterpRealFunc(V(one), V(one)), E, "single point accepted"); CHECK_THROWS(SplineInterpRealFunc(V(one), V(one)), E, "single point accepted"); CHECK_THROWS(LinearInterpRealFunc(V(D{}), V(D{})), E, "no points accepted"); Matrix<Real> Z(n, n + 1); CHECK_THROWS(BilinearInterp2D(V(x), V(x), Z), E, "grid mismatch accepted"); CHECK_THROWS(BicubicSplineInterp2D(V(x), V(x), Z), E, "grid mismatch accepted"); Matrix<Real> Y1(1, n); CHECK_THROWS(BilinearInterp2D(V(one), V(x), Y1), E, "one-row grid accepted"); Matrix<Real> P(s.i(2, 5), 3); for (int a = 0; a < P.rows(); a++) for (int b = 0; b < 3; b++) P(a, b) = a == 1 ? P(0, b) : s.uni(-1, 1); CHECK_THROWS(SplineInterpParametricCurve<3>(P), RealFuncInterpRuntimeError, "consecutive identical points accepted"); Matrix<Real> Q(4, 2); CHECK_THROWS(SplineInterpParametricCurve<3>(Q), MatrixDimensionError, "dimension mismatch accepted"); c.nontrivial(true); }
LAW(grid, 800, 6000) {
	int m = s.i(2, 6), n = s.i(2, 6); D x = nodes(s, m), y = nodes(s, n); Matrix<Real> Z(m, n); double A = s.uni(-2, 2), B = s.uni(-2, 2), C = s.uni(-2, 2), E = s.uni(-2, 2); bool fit = s.b(); LD mz = 1; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { Z(i, j) = fit ? A + B * x[i] + C * y[j] + E * x[i] * y[j] : s.uni(-3, 3); mz = std::max<LD>(mz, std::fabs(Z(i, j))); } c.say([&](auto& o) { o << "grid " << str(x) << " x " << str(y) << (fit ? " bilinear data" : " random data"); }); BilinearInterp2D f(V(x), V(y), Z); BicubicSplineInterp2D g(V(x), V(y), Z); CHECK(f.getGridDim1() == m && f.getGridDim2() == n && g.getGridDim1() == m && g.getGridDim2() == n, "grid size"); LD h = 9e9; for (int i = 0; i + 1 < m; i++) h = std::min(h, fabsl((LD)x[i + 1] - x[i])); for (int i = 0; i + 1 < n; i++) h = std::min(h, fabsl((LD)y[i + 1] - y[i])); LD T = 1e-11L * mz / (h * h);
	for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { CHECK(fabsl(f(x[i], y[j]) - Z(i, j)) <= 1e-12L * mz, "bilinear node " << i << j); CHECK(fabsl(g(x[i], y[j]) - Z(i, j)) <= T, "bicubic node " << i << j << " " << fmt(g(x[i], y[j])) << " data " << fmt(Z(i, j))); }
	for (int t = 0; t < 4; t++) { double p = query(s, x), q = query(s, y); int i = seg(x, p), j = seg(y, q); LD u = ((LD)p - x[i]) / ((LD)x[i + 1] - x[i]), v = ((LD)q - y[j]) / ((LD)y[j + 1] - y[j]), e = (1 - u) * (1 - v) * Z(i, j) + u * (1 - v) * Z(i + 1, j) + (1 - u) * v * Z(i, j + 1) + u * v * Z(i + 1, j + 1); Real z, d1, d2; CHECK(fabsl(f(p, q) - e) <= 1e-12L * mz, "bilinear value at " << fmt(p) << "," << fmt(q)); f.interpWithDerivatives(p, q, z, d1, d2); CHECK(z == f(p, q), "value with derivatives differs"); bool in1 = u > 1e-9 && u < 1 - 1e-9, in2 = v > 1e-9 && v < 1 - 1e-9; LD e1 = ((1 - v) * ((LD)Z(i + 1, j) - Z(i, j)) + v * ((LD)Z(i + 1, j + 1) - Z(i, j + 1))) / ((LD)x[i + 1] - x[i]), e2 = ((1 - u) * ((LD)Z(i, j + 1) - Z(i, j)) + u * ((LD)Z(i + 1, j + 1) - Z(i + 1, j))) / ((LD)y[j + 1] - y[j]); if (in1) CHECK(fabsl(d1 - e1) <= 1e-11L * mz / h, "bilinear derivative in x1"); if (in2) CHECK(fabsl(d2 - e2) <= 1e-11L * mz / h, "bilinear derivative in x2");
		if (fit) CHECK(fabsl(f(p, q) - (A + B * p + C * q + E * p * q)) <= 1e-11L * mz, "bilinear function not reproduced"); Real zb, b1, b2; g.interpWithDerivatives(p, q, zb, b1, b2); CHECK(zb == g(p, q), "bicubic value with derivatives differs"); if (fit) { CHECK(fabsl(zb - (A + B * p + C * q + E * p * q)) <= T * 10, "bicubic spline does not reproduce a bilinear function"); CHECK(fabsl(b1 - (B + E * q)) <= T * 100 && fabsl(b2 - (C + E * p)) <= T * 100, "bicubic derivatives " << fmt(b1) << " " << fmt(b2)); }
		// tensor-product structure: spline across rows of row splines, and the same with the axes exchanged
		Matrix<Real> Zt(n, m); for (int a = 0; a < m; a++) for (int b = 0; b < n; b++) Zt(b, a) = Z(a, b); BicubicSplineInterp2D gt(V(y), V(x), Zt); CHECK(fabsl(gt(q, p) - zb) <= T * 100, "bicubic spline depends on the axis order"); double hq = (double)h * 1e-4; double den1 = (g(p + hq, q) - g(p - hq, q)) / (2 * hq); CHECK(std::fabs(den1 - b1) <= (double)(1e-4L * mz / h / h / h), "bicubic derivative against difference quotient"); } c.nontrivial(m > 2 && n > 2); }
LAW(curves, 800, 6000) {
	int n = s.i(2, 9); bool cl = s.chance(1, 3); Matrix<Real> P(n, 3); for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) P(i, j) = s.b() ? s.i(-3, 3) : s.uni(-3, 3); auto dist = [&](int a, int b) { LD t = 0; for (int j = 0; j < 3; j++) t += ((LD)P(a, j) - P(b, j)) * ((LD)P(a, j) - P(b, j)); return sqrtl(t); }; for (int i = 0; i < n; i++) DISCARD_IF(dist(i, (i + 1) % n) < 0.05); c.say([&](auto& o) { o << n << " points" << (cl ? " closed" : ""); for (int i = 0; i < n; i++) o << " (" << fmt(P(i, 0)) << "," << fmt(P(i, 1)) << "," << fmt(P(i, 2)) << ")"; });
	std::vector<LD> L(n + 1, 0); for (int i = 1; i <= n; i++) L[i] = L[i - 1] + dist(i - 1, i % n); auto near = [&](const VectorN<Real, 3>& v, int i, LD tol, const char* w) { for (int j = 0; j < 3; j++) CHECK(fabsl(v[j] - P(i % n, j)) <= tol, w << " misses point " << i << " component " << j << ": " << fmt(v[j]) << " data " << fmt(P(i % n, j))); };
	if (!cl) { LinInterpParametricCurve<3> f(P); CHECK(f.getMinT() == 0 && f.getMaxT() == 1, "parameter range"); for (int i = 0; i < n; i++) near(f((double)(L[i] / L[n - 1])), i, 1e-12L, "polyline"); near(f(-s.unit()), 0, 0, "polyline before the start"); near(f(1 + s.unit()), n - 1, 1e-15L, "polyline past the end"); double t = s.unit(); int k = 0; while (k < n - 2 && t > L[k + 1] / L[n - 1]) k++; LD a = (t - L[k] / L[n - 1]) / ((L[k + 1] - L[k]) / L[n - 1]); auto v = f(t); for (int j = 0; j < 3; j++) CHECK(fabsl(v[j] - ((1 - a) * P(k, j) + a * P(k + 1, j))) <= 1e-11L, "polyline value at " << fmt(t)); }
	else { LinInterpParametricCurve<3> f(P, true); LD tot = L[n]; for (int i = 0; i < n; i++) near(f((double)(L[i] / tot)), i, 1e-12L, "closed polyline"); near(f(1.0), 0, 1e-12L, "closed polyline"); double t = s.unit(); int k = 0; while (k < n - 1 && t > L[k + 1] / tot) k++; LD a = (t - L[k] / tot) / ((L[k + 1] - L[k]) / tot); auto v = f(t), w = f(t + 1); for (int j = 0; j < 3; j++) { CHECK(fabsl(v[j] - ((1 - a) * P(k, j) + a * P((k + 1) % n, j))) <= 1e-11L, "closed polyline value at " << fmt(t)); CHECK(std::fabs(v[j] - w[j]) < 1e-11, "closed polyline is not periodic"); } }
	double t0 = s.pick({0.0, s.uni(-2, 2)}), t1 = t0 + s.pick({1.0, s.uni(0.5, 7)}); SplineInterpParametricCurve<3> g(t0, t1, P, cl); CHECK(g.getMinT() == t0 && g.getMaxT() == t1, "parameter range"); LD tot = cl ? L[n] : L[n - 1]; int last = cl ? n : n - 1; for (int i = 0; i <= last; i++) { double t = i == last ? t1 : i == 0 ? t0 : std::min(t1, (double)(t0 + L[i] / tot * (t1 - t0))); near(g(t), i, 1e-8L, "spline curve"); } if (!cl) { SplineInterpParametricCurve<3> u(P); for (int i = 0; i < n; i++) near(u((double)(L[i] / tot)), i, 1e-8L, "unit spline curve"); }
	{ SplineInterpParametricCurve<3> cp(g); auto a = cp(t0), b = g(t0); for (int j = 0; j < 3; j++) CHECK(a[j] == b[j], "copied curve differs"); } auto again = g(t0); near(again, 0, 1e-8L, "after destroying a copy"); if (cl) { CHECK_THROWS(g(t0 - 0.01), DomainError, "closed curve outside its range"); CHECK_THROWS(g(t1 + 0.01), DomainError, "closed curve outside its range"); }
	// a straight line with any spacing is reproduced
	if (n >= 4 && !cl) { Matrix<Real> Q(n, 3); double dir[3] = {s.uni(-1, 1), s.uni(-1, 1), 1}, u = 0; std::vector<double> us; for (int i = 0; i < n; i++) { us.push_back(u); for (int j = 0; j < 3; j++) Q(i, j) = u * dir[j]; u += s.uni(0.2, 1); } SplineInterpParametricCurve<3> ln(0, us[n - 1], Q); double t = s.unit() * us[n - 1]; auto v = ln(t); for (int j = 0; j < 3; j++) CHECK(std::fabs(v[j] - t * dir[j]) < 1e-9, "straight line not reproduced at " << fmt(t) << ": " << fmt(v[j]) << " vs " << fmt(t * dir[j])); } c.nontrivial(n > 2); }
