// C08 polynomial ring: exact coefficient arithmetic (integer data, so every operation must be exact)
#include "common.h"
#include "base/Polynom.h"
#include <sstream>
template<class T> T gc(Src& s, int k) { return (T)s.i(-k, k); }
template<> Complex gc<Complex>(Src& s, int k) { double a = (double)s.i(-k, k); return Complex(a, (double)s.i(-k, k)); }
template<class T> using V = std::vector<T>;
template<class T> V<T> genP(Src& s, int k = 9) { int n = s.size(0, 9); V<T> v(n); for (auto& x : v) x = gc<T>(s, k); if (n && s.chance(1, 4)) { int z = s.size(1, n); for (int i = n - z; i < n; i++) v[i] = T(0); } return v; }
template<class T> T at(const V<T>& v, int i) { return i >= 0 && i < (int)v.size() ? v[i] : T(0); }
template<class T> int deg(const V<T>& v) { int n = (int)v.size() - 1; while (n >= 0 && v[n] == T(0)) n--; return n; }
template<class T> std::string st(const V<T>& v) { std::ostringstream o; o << "{"; for (auto& x : v) o << x << " "; return o.str() + "}"; }
template<class T, class F> void same(const Polynom<T, F>& p, const V<T>& r, const char* w) { int n = std::max((int)r.size(), p.degree() + 1); for (int i = 0; i < n; i++) CHECK(p.coeff(i) == at(r, i), w << ": coefficient " << i << " is " << p.coeff(i) << " expected " << at(r, i)); }
template<class T> V<T> mulV(const V<T>& a, const V<T>& b) { V<T> r(a.size() + b.size() + 1, T(0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j]; return r; }
template<class T> V<T> zipV(const V<T>& a, const V<T>& b, T sg) { V<T> r(std::max(a.size(), b.size())); for (int i = 0; i < (int)r.size(); i++) r[i] = at(a, i) + sg * at(b, i); return r; }
template<class T> T evalV(const V<T>& a, T x) { T p(0); for (int i = (int)a.size() - 1; i >= 0; i--) p = p * x + a[i]; return p; }
template<class T> void ring(Src& s, Case& c) {
	V<T> a = genP<T>(s), b = genP<T>(s), d = genP<T>(s, 3); T k = gc<T>(s, 9), x = gc<T>(s, std::is_same<T, int>::value ? 1 : 3); c.nontrivial(deg(a) > 1 && deg(b) > 0); c.label(a.empty() || b.empty() ? "empty" : deg(a) != (int)a.size() - 1 ? "unnormalised" : "plain"); c.say([&](auto& o) { o << "a=" << st(a) << " b=" << st(b) << " d=" << st(d) << " k=" << k << " x=" << x; });
	Polynom<T> A(a), B(b), D(d); typedef Polynom<T> P; V<T> ka, sum;
	same<T>(A + B, zipV(a, b, T(1)), "a+b"); same<T>(A - B, zipV(a, b, T(-1)), "a-b"); same<T>(A * B, mulV(a, b), "a*b"); same<T>(-A, zipV(V<T>(), a, T(-1)), "-a"); same<T>(A * A, mulV(a, a), "a*a"); same<T>(A + A, zipV(a, a, T(1)), "a+a"); same<T>(A - A, V<T>(), "a-a");
	V<T> ak = a; for (auto& z : ak) z *= k; same<T>(A * k, ak, "a*k"); same<T>(k * A, ak, "k*a"); V<T> K{k}; same<T>(A + k, zipV(a, K, T(1)), "a+k"); same<T>(k + A, zipV(a, K, T(1)), "k+a"); same<T>(A - k, zipV(a, K, T(-1)), "a-k"); same<T>(k - A, zipV(K, a, T(-1)), "k-a"); if (k != T(0)) { P w = (A * k) / k; CHECK(w.degree() == A.degree(), "degree of (a*k)/k"); for (int j = 0; j < (int)a.size(); j++) CHECK(std::abs(w.coeff(j) - a[j]) <= 4e-15 * std::abs(a[j]), "(a*k)/k"); }
	{ P q = A; q = q * q; same<T>(q, mulV(a, a), "q=q*q"); q = A; q = q; same<T>(q, a, "self assignment"); q = A; q = q - B; q = q + B; same<T>(q, a, "a-b+b"); }
	same<T>((A * B) * D, mulV(mulV(a, b), d), "(a*b)*d"); CHECK((A + B) * D == A * D + B * D, "distributive"); CHECK(A * B == B * A, "commutative"); CHECK(A(x) == evalV(a, x) && A.eval(x) == evalV(a, x), "a(x) = " << A(x)); CHECK((A * B)(x) == evalV(a, x) * evalV(b, x), "(ab)(x)"); CHECK((A - B)(x) == evalV(a, x) - evalV(b, x), "(a-b)(x)");
	bool eq = true; for (int i = 0; i < 12; i++) eq &= at(a, i) == at(b, i); CHECK((A == B) == eq && (A != B) == !eq && A.IsEqual(B) == eq, "equality"); V<T> az = a; az.resize(a.size() + s.size(0, 3), T(0)); CHECK(A == P(az) && P(az) == A, "trailing zeros do not change a polynomial"); if (!a.empty()) { V<T> an = a; an[s.i(0, (int)a.size() - 1)] += T(1); CHECK(A != P(an), "different polynomials compare equal"); }
	P r(az); r.Reduce(); CHECK(r.degree() == deg(a), "Reduce: degree " << r.degree()); same<T>(r, a, "Reduce"); CHECK(A.degree() == (int)a.size() - 1 && A.isNull() == a.empty(), "degree/isNull"); CHECK(A.leadingTerm() == at(a, (int)a.size() - 1) && A.constantTerm() == at(a, 0), "leading/constant term"); CHECK(A.coeff(-1) == T(0) && A.coeff((int)a.size()) == T(0), "coeff out of range"); CHECK(A.coefficients() == a, "coefficients"); int i = 0; for (const T& z : A) CHECK(z == a[i++], "iteration"); CHECK(i == (int)a.size(), "iteration");
	int n = s.size(0, 8); P m = P::Monomial(n); V<T> mv(n + 1, T(0)); mv[n] = T(1); same<T>(m, mv, "monomial"); same<T>(P::Constant(k), K, "constant"); same<T>(P::Zero(), V<T>(), "zero"); same<T>(P::Linear(k, x), V<T>{x, k}, "linear"); P sd = A; sd.SetDegree(n); V<T> sv = a; sv.resize(n + 1, T(0)); same<T>(sd, sv, "SetDegree"); CHECK(sd.degree() == n, "SetDegree");
	V<T> dv; for (int j = 1; j < (int)a.size(); j++) dv.push_back(a[j] * T(j)); same<T>(A.derivative(), dv, "derivative"); CHECK((A * B).derivative() == A.derivative() * B + A * B.derivative(), "product rule"); CHECK((A.derivative() * B.derivative())(x) == evalV(dv, x) * (B.derivative()(x)), "product of derivatives"); V<T> f(a.size()); for (int j = 0; j < (int)a.size(); j++) f[j] = a[j] * T(j + 1); P I = P(f).integral(); CHECK(I.coeff(0) == T(0), "constant of integration"); CHECK(I.derivative() == P(f), "derivative of the integral"); for (int j = 0; j < (int)a.size(); j++) CHECK(I.coeff(j + 1) == a[j], "integral coefficient");
}
LAW(ring_real, 6000, 60000) { ring<Real>(s, c); }
LAW(ring_int, 3000, 30000) { ring<int>(s, c); }
LAW(ring_complex, 3000, 30000) { ring<Complex>(s, c); }
// dividend built from quotient * divisor + remainder with monic-up-to-a-power-of-two divisor: exact
template<class T> void division(Src& s, Case& c) {
	V<T> q = genP<T>(s), v = genP<T>(s, 4), r; v.push_back(s.pick({T(1), T(-1), T(2), T(-4)})); int nv = (int)v.size() - 1; if (s.b()) { r = genP<T>(s); if ((int)r.size() > nv) r.resize(nv); } int pad = s.size(0, 3); c.nontrivial(deg(q) > 0 && nv > 0); c.label(deg(q) < 0 ? "shorter dividend" : nv == 0 ? "constant divisor" : "general");
	V<T> u = zipV(mulV(q, v), r, T(1)); u.resize(std::max(0, deg(u) + 1)); u.resize(u.size() + (s.b() ? pad : 0), T(0)); V<T> vp = v; vp.resize(v.size() + (s.b() ? pad : 0), T(0)); c.say([&](auto& o) { o << "u=" << st(u) << " v=" << st(vp); });
	Polynom<T> U(u), W(vp), Q, R; if (s.b()) { Q = Polynom<T>(7); R = Polynom<T>(V<T>(3, T(5))); } Polynom<T>::poldiv(U, W, Q, R); same<T>(Q, q, "quotient"); same<T>(R, r, "remainder"); CHECK(R.degree() < nv, "degree of the remainder"); CHECK(Q * W + R == U, "u = q v + r"); CHECK(Q.degree() == deg(q), "quotient is not normalised: degree " << Q.degree());
	same<T>(U, u, "dividend changed"); same<T>(W, vp, "divisor changed"); { Polynom<T> x = U, y = W; Polynom<T>::poldiv(x, y, x, y); same<T>(x, q, "aliased quotient"); same<T>(y, r, "aliased remainder"); } { Polynom<T> x = U, y = W; Polynom<T>::poldiv(x, y, y, x); same<T>(y, q, "cross-aliased quotient"); same<T>(x, r, "cross-aliased remainder"); }
	Polynom<T> z(V<T>((size_t)s.size(0, 4), T(0))); CHECK_THROWS(Polynom<T>::poldiv(U, z, Q, R), DivisionByZeroError, "zero divisor");
}
LAW(division_real, 5000, 50000) { division<Real>(s, c); }
LAW(division_complex, 2500, 25000) { division<Complex>(s, c); }
LAW(division_inexact, 3000, 30000) {
	V<double> u = genRealV(s, s.size(0, 9)), v = genRealV(s, s.size(0, 5), -3, 3); v.push_back(s.nz(0.5, 3)); c.nontrivial(u.size() > v.size() && v.size() > 1); c.say([&](auto& o) { o << "u=" << st(u) << " v=" << st(v); }); Polynom<Real> Q, R; Polynom<Real>::poldiv(Polynom<Real>(u), Polynom<Real>(v), Q, R); CHECK(R.degree() < (int)v.size() - 1 + (v.size() == 1 ? 1 : 0), "degree of the remainder"); V<LD> t(u.size() + v.size() + 2, 0); double mg = 1; for (int i = 0; i <= Q.degree(); i++) for (int j = 0; j < (int)v.size(); j++) { t[i + j] += (LD)Q[i] * v[j]; mg = std::max(mg, std::fabs(Q[i] * v[j])); } for (int i = 0; i <= R.degree(); i++) { t[i] += R[i]; mg = std::max(mg, std::fabs(R[i])); } for (int i = 0; i < (int)t.size(); i++) CHECK_NEAR((double)t[i], at(u, i), 100 * EPS * mg * 10, "coefficient " << i << " of q v + r");
}
LAW(calculus, 4000, 40000) {
	V<double> a = genRealV(s, s.size(0, 9)); double x = s.real(-2, 2); int nd = s.size(0, 11); c.nontrivial(a.size() > 2); c.say([&](auto& o) { o << "a=" << st(a) << " x=" << x << " derivatives " << nd; }); Polynom<Real> A(a); Vector<Real> pd(nd + 1); for (int i = 0; i <= nd; i++) pd[i] = 77; A.Derive(x, pd); LD sc = 1; for (int k = 0; k <= nd; k++) { LD v = 0, m = 0; for (int i = (int)a.size() - 1; i >= k; i--) { LD f = 1; for (int j = 0; j < k; j++) f *= i - j; v = v * x + f * a[i]; m = m * std::fabs(x) + std::fabs(f * a[i]); } CHECK_NEAR(pd[k], (double)v, (double)(40 * EPS * (m + 1e-300L)), "derivative " << k); (void)sc; }
	Polynom<Real> d = A; for (int k = 1; k <= 3; k++) { d = d.derivative(); LD v = 0, m = 0; for (int i = (int)a.size() - 1; i >= k; i--) { LD f = 1; for (int j = 0; j < k; j++) f *= i - j; v = v * x + f * a[i]; m = m * std::fabs(x) + std::fabs(f * a[i]); } CHECK_NEAR(d(x), (double)v, (double)(40 * EPS * (m + 1e-300L)), "repeated derivative " << k); }
	PolynomRealFunc F(a); const IRealFunction& g = F; CHECK(g(x) == A(x), "as a function"); Polynom<Real> e = A; double eps = s.pick({1e-9, 1e-3, 1.0}); e.Reduce(eps); int n = (int)a.size(); while (n > 0 && std::fabs(a[n - 1]) < eps) n--; CHECK(e.degree() == n - 1, "Reduce(eps)"); for (int i = 0; i < n; i++) CHECK(e[i] == a[i], "Reduce(eps)");
	if (!a.empty()) { V<double> b = a; int k = (int)s.i(0, (int)a.size() - 1); double de = s.pick({0.4, 2.5}) * eps; b[k] += de; CHECK(A.IsEqualTo(Polynom<Real>(b), eps) == (std::fabs(b[k] - a[k]) <= eps), "IsEqualTo"); b = a; b.push_back(de); CHECK(A.IsEqualTo(Polynom<Real>(b), eps) == (de <= eps) && Polynom<Real>(b).IsEqualTo(A, eps) == (de <= eps), "IsEqualTo with different degrees"); }
}
LAW(interpolating, 3000, 30000) {
	int n = s.size(1, 7); V<double> a = genIntV(s, n), x(n), y(n); std::set<int> used; for (auto& t : x) { int v; do v = (int)s.i(-6, 6); while (used.count(v) && used.size() < 13); used.insert(v); t = v * 0.5; } for (int i = 0; i < n; i++) y[i] = evalV(a, x[i]); c.nontrivial(n > 2); c.say([&](auto& o) { o << "x=" << st(x) << " y=" << st(y); }); Polynom<Real> p = Polynom<Real>::FromValues(x, y); double my = 1 + maxAbs(y); for (int i = 0; i < n; i++) { CHECK_NEAR(p.coeff(i), a[i], 1e-10 * my, "coefficient " << i); CHECK_NEAR(p(x[i]), y[i], 1e-9 * my, "value at node " << i); } CHECK(p.degree() <= n - 1, "degree"); V<double> z = x; z.push_back(x[0]); V<double> yz = y; yz.push_back(3); CHECK_THROWS(Polynom<Real>::FromValues(z, yz), ArgumentError, "duplicate node"); CHECK_THROWS(Polynom<Real>::FromValues(x, yz), ArgumentError, "sizes"); CHECK_THROWS(Polynom<Real>::FromValues({}, {}), ArgumentError, "empty");
}
LAW(fields, 3000, 30000) {
	V<double> a = genIntV(s, s.size(1, 6)); Complex z(s.i(-3, 3), s.i(-3, 3)); c.nontrivial(a.size() > 2); Polynom<Real, Complex> p(a); Complex e = 0; for (int i = (int)a.size() - 1; i >= 0; i--) e = e * z + a[i]; c.say([&](auto& o) { o << st(a) << " at " << z; }); CHECK(p(z) == e, "complex argument");
	MatrixNM<Real, 3, 3> m; Tab t = genInt(s, 3, 3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = t[i][j]; Matrix3Polynom q(a); Tab r = mkTab(3, 3, [](int, int) { return 0.0; }); for (int i = (int)a.size() - 1; i >= 0; i--) { r = mulT(r, t); for (int d = 0; d < 3; d++) r[d][d] += a[i]; } MatrixNM<Real, 3, 3> v = q(m); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CHECK(v(i, j) == r[i][j], "matrix argument, element " << i << "," << j << ": " << v(i, j) << " expected " << r[i][j]);
}
// the printed form parses back to the coefficients
LAW(printing, 3000, 30000) {
	int prec = (int)s.i(2, 9); V<double> a = genRealV(s, s.size(0, 6)); if (s.b()) a = genIntV(s, s.size(0, 6), 2); c.nontrivial(a.size() > 1); std::string str = Polynom<Real>(a).to_string(1, prec); c.say([&](auto& o) { o << st(a) << " printed as " << str; }); V<double> r(a.size() + 1, 0.0); const char* p = str.c_str(); int sg = 1; bool any = false;
	while (*p) { while (*p == ' ') p++; if (*p == '+' || *p == '-') { sg = *p == '-' ? -1 : 1; p++; while (*p == ' ') p++; } double v = 1; if ((*p >= '0' && *p <= '9') || *p == '.') { char* e; v = strtod(p, &e); p = e; } int d = 0; if (*p == 'x') { d = 1; p++; if (*p == '^') { char* e; d = (int)strtol(p + 1, &e, 10); p = e; } } CHECK(d < (int)r.size(), "exponent " << d); r[d] += sg * v; sg = 1; any = true; while (*p == ' ') p++; CHECK(!*p || *p == '+' || *p == '-', "unparsable at: " << p); } CHECK(any, "nothing printed"); for (int i = 0; i < (int)r.size(); i++) CHECK_NEAR(r[i], at(a, i), 0.51 * std::pow(10.0, -prec) + 1e-13, "printed coefficient " << i);
}
// every operation commutes exactly with scaling the coefficients and the variable by powers of two: nothing may depend on absolute size
LAW(scaling, 8000, 80000) {
	V<double> a = genP<double>(s), b = genP<double>(s); V<double> v = b; v.push_back((double)s.i(1, 7)); int k = (int)s.i(-60, 60), m = (int)s.i(-60, 60), w = (int)s.i(-12, 12); double x = std::ldexp((double)s.i(-40, 40), -4); auto sc = [&](V<double> p, int e) { for (int i = 0; i < (int)p.size(); i++) p[i] = std::ldexp(p[i], e + w * i); return p; };
	c.nontrivial(a.size() > 1 && (k || m || w)); c.say([&](auto& o) { o << "a=" << st(a) << " b=" << st(b) << " v=" << st(v) << " scales 2^" << k << " 2^" << m << " variable 2^" << w << " x=" << x; });
	typedef Polynom<Real> P; P A(a), B(b), W(v), sA(sc(a, k)), sB(sc(b, k)), sM(sc(b, m)), sW(sc(v, m)); auto back = [&](const P& p, int e, int from = 0) { V<double> r; for (int i = 0; i <= p.degree(); i++) r.push_back(std::ldexp(p[i], -e - w * (i + from))); return r; }; auto plain = [](const P& p) { V<double> r; for (int i = 0; i <= p.degree(); i++) r.push_back(p[i]); return r; };
	auto eq = [&](const V<double>& g, const P& ref, const char* what) { V<double> h = plain(ref); CHECK(g == h, what << " is not scale invariant: " << st(g) << " after scaling back, " << st(h) << " unscaled"); };
	eq(back(sA + sB, k), A + B, "a+b"); eq(back(sA - sB, k), A - B, "a-b"); eq(back(sA * sM, k + m), A * B, "a*b"); eq(back(-sA, k), -A, "-a"); eq(back(sA.derivative(), k, 1), A.derivative(), "derivative"); 
	CHECK(sA(std::ldexp(x, -w)) == std::ldexp(A(x), k), "value: " << fmt(sA(std::ldexp(x, -w))) << " for " << fmt(std::ldexp(A(x), k))); CHECK((sA == sB) == (A == B), "equality"); CHECK(sA.degree() == A.degree() && sA.isNull() == A.isNull(), "degree"); { P r = A, q = sA; r.Reduce(); q.Reduce(); eq(back(q, k), r, "Reduce"); }
	P Q, R, sQ, sR; P::poldiv(A, W, Q, R); P::poldiv(sA, sW, sQ, sR); eq(back(sQ, k - m), Q, "quotient"); eq(back(sR, k), R, "remainder");
}
