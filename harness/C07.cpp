// C07 matrix predicates, invariants and constructions versus their definitions
#include "common.h"
#include "base/Matrix/MatrixSym.h"
#include "base/BaseUtils.h"
#include "core/MatrixUtils.h"
#include "algorithms/MatrixAlg.h"
namespace MA = MML::MatrixAlg;

// a matrix with a generated zero/symmetry structure and, sometimes, single elements disturbed by a multiple of tol
static Tab genStruct(Src& s, int n, int m, double tol, std::string& nm) {
	int k = (int)s.choice(6); Tab t = genReal(s, n, m); static const char* N[] = {"full", "diagonal", "upper", "lower", "hessenberg", "symmetric", "skew"}; nm = N[k];
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { if (k == 1 && i != j) t[i][j] = 0; if (k == 2 && i > j) t[i][j] = 0; if (k == 3 && i < j) t[i][j] = 0; if (k == 4 && i > j + 1) t[i][j] = 0; }
	if (n == m) for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { if (k == 5) t[i][j] = t[j][i]; if (k == 6) t[i][j] = i == j ? 0.0 : -t[j][i]; }
	int d = (int)s.choice(2); for (int q = 0; q < d; q++) { double f = s.pick({0.5, 0.9, 1.5, 4.0, 1e6}) * (s.b() ? 1 : -1); t[s.i(0, n - 1)][s.i(0, m - 1)] += f * tol; }
	return t;
}
LAW(predicates, 4000, 40000) {
	int n = s.size(1, 7), m = s.chance(2, 3) ? n : s.size(1, 7); double tol = s.pick({1e-10, 1e-6, 1e-3, 0.5}); std::string nm; Tab t = genStruct(s, n, m, tol, nm); c.label(nm); c.nontrivial(n > 1 && m > 1); c.say([&](auto& o) { o << nm << " tol=" << tol << " A=" << str(t); });
	Matrix<Real> A = toMat(t); bool up = true, lo = true, di = true, he = true, sy = n == m, sk = n == m, amb = false; auto big = [&](double x) { x = std::fabs(x); if (std::fabs(x - tol) < 1e-9 * tol + 1e-14) amb = true; return x > tol; };
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { bool b = big(t[i][j]); if (i > j && b) up = false; if (i < j && b) lo = false; if (i != j && b) di = false; if (i > j + 1 && b) he = false; if (n == m) { if (big(t[i][j] - t[j][i])) sy = false; if (big(t[i][j] + t[j][i]) && i != j) sk = false; if (i == j && b) sk = false; } }
	DISCARD_IF(amb);
	CHECK(Utils::IsUpperTriangular(A, tol) == up, "upper triangular"); CHECK(Utils::IsLowerTriangular(A, tol) == lo, "lower triangular"); CHECK(Utils::IsDiagonal(A, tol) == di, "diagonal"); CHECK(Utils::IsUpperHessenberg(A, tol) == he, "Hessenberg"); CHECK(Utils::IsSymmetric(A, tol) == sy, "symmetric"); CHECK(Utils::IsSkewSymmetric(A, tol) == sk, "skew-symmetric"); CHECK(MA::IsSymmetric(A, tol) == sy && MA::IsSkewSymmetric(A, tol) == sk, "MatrixAlg symmetry");
	LD tr = 0, fr = 0; double ni = 0, n1 = 0; for (int i = 0; i < std::min(n, m); i++) tr += t[i][i]; for (int i = 0; i < n; i++) { LD r = 0; for (int j = 0; j < m; j++) { r += std::fabs(t[i][j]); fr += (LD)t[i][j] * t[i][j]; } ni = std::max(ni, (double)r); } for (int j = 0; j < m; j++) { LD r = 0; for (int i = 0; i < n; i++) r += std::fabs(t[i][j]); n1 = std::max(n1, (double)r); }
	double e = 8 * n * m * EPS; CHECK_NEAR(Utils::Trace(A), (double)tr, e * (100 + ni), "trace"); CHECK_NEAR(Utils::FrobeniusNorm(A), (double)std::sqrt(fr), e * (1 + ni), "Frobenius"); CHECK_NEAR(Utils::InfinityNorm(A), ni, e * (1 + ni), "infinity norm"); CHECK_NEAR(Utils::OneNorm(A), n1, e * (1 + n1), "one norm");
	Tab u = genReal(s, n, m); double md = 0; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) md = std::max(md, std::fabs(t[i][j] - u[i][j])); CHECK(Utils::MaxAbsDiff(A, toMat(u)) == md, "maximal difference");
	if (n != m) { CHECK_THROWS(Utils::IsNilpotent(A), MatrixDimensionError, ""); CHECK_THROWS(Utils::IsUnipotent(A), MatrixDimensionError, ""); CHECK_THROWS(Utils::IsOrthogonal(A), MatrixDimensionError, ""); CHECK_THROWS(Utils::Det(A), MatrixDimensionError, ""); CHECK_THROWS(MA::ClassifyDefiniteness(A), MatrixDimensionError, ""); CHECK_THROWS(MA::ReduceToHessenberg(A), MatrixDimensionError, ""); Matrix<Real> x, y; CHECK_THROWS(Utils::MatrixDecomposeToSymAntisym(A, x, y), MatrixDimensionError, ""); PolynomRealFunc p; Real d; CHECK_THROWS(Utils::FaddeevAlg(A, p, d, x), MatrixDimensionError, ""); CHECK_THROWS(Utils::SimilarityTransform(A, A), MatrixDimensionError, ""); }
	else { Tab q = genReal(s, n, n), r = mulT(trT(q), mulT(t, q)); Tab g = toTab(Utils::SimilarityTransform(toMat(q), A)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_NEAR(g[i][j], r[i][j], 20.0 * n * n * EPS * 1000 * (1 + maxAbs(t)), "similarity transform"); }
}
static Tab unimod(Src& s, int n, Tab& inv) { Tab p = mkTab(n, n, [](int i, int j) { return (double)(i == j); }); inv = p; int k = s.size(0, 5); for (int q = 0; q < k && n > 1; q++) { int a = (int)s.i(0, n - 1), b = (int)s.i(0, n - 1); if (a == b) continue; double f = (double)s.i(-2, 2); for (int j = 0; j < n; j++) p[a][j] += f * p[b][j]; for (int i = 0; i < n; i++) inv[i][b] -= f * inv[i][a]; } return p; }
// integer matrices: determinant, characteristic polynomial, inverse, rank, nilpotency by exact arithmetic
LAW(exact_invariants, 4000, 40000) {
	int n = s.size(1, 6), kind = (int)s.choice(4); Tab a = genInt(s, n, n, kind == 0 ? 9 : 3), inv; if (kind == 1 || kind == 2) { for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) a[i][j] = 0; if (kind == 2) for (int i = 0; i < n; i++) a[i][i] = 1; Tab p = unimod(s, n, inv); a = mulT(p, mulT(a, inv)); } if (kind == 3 && n > 1) { int r = (int)s.i(1, n - 1); a = mulT(genInt(s, n, r, 2), genInt(s, r, n, 2)); } if (kind == 4 && s.chance(1, 3)) a = mkTab(n, n, [&](int i, int j) { return i == j && s.b() ? 1.0 : 0.0; });
	c.label("kind" + std::to_string(kind)); c.nontrivial(n > 2); c.say([&](auto& o) { o << "A=" << str(a); }); DISCARD_IF(maxAbs(a) > 400); Matrix<Real> A = toMat(a); double nf = frob(a) + 1e-300; double d = (double)detInt(a), sc = std::pow(std::max(1.0, nf), n);
	CHECK_NEAR(Utils::Det(A), d, 200 * n * EPS * sc, "determinant");
	auto nilp = [&](const Tab& x) { Tab p = x; for (int k = 1; k < n; k++) p = mulT(p, x); return maxAbs(p) == 0; }; Tab am = a; for (int i = 0; i < n; i++) am[i][i] -= 1; if (maxAbs(a) < 60) { CHECK(Utils::IsNilpotent(A) == nilp(a), "nilpotent"); CHECK(Utils::IsUnipotent(A) == nilp(am), "unipotent"); }
	int r = rankInt(a); double sm = 0; { SVDecompositionSolver<Real> sv(A); if (r > 0) sm = sv.getW()[r - 1]; } if (r == 0 || sm > 1e-6 * nf) { CHECK(Utils::RankGaussian(A) == r, "Gaussian rank"); CHECK(Utils::RankSVD(A, 1e-10 * nf) == r && Utils::Nullity(A, 1e-10 * nf) == n - r, "SVD rank"); }
	PolynomRealFunc p; Real dt = 0; Matrix<Real> fi; Utils::FaddeevAlg(A, p, dt, fi); CHECK_NEAR(dt, d, 500 * n * EPS * sc, "Faddeev determinant"); CHECK(p[n] == 1, "monic");
	for (int q = 0; q <= n; q++) { double x = q - n / 2; Tab xa = mkTab(n, n, [&](int i, int j) { return (i == j ? x : 0.0) - a[i][j]; }); LD v = 0; for (int k = n; k >= 0; k--) v = v * x + p[k]; CHECK_NEAR((double)v, (double)detInt(xa), 2000 * n * EPS * std::pow(std::max(1.0, nf + std::fabs(x)), n), "characteristic polynomial at " << x); }
	if (d != 0) { Tab e = mulT(a, toTab(fi)); double tl = 1000 * n * EPS * sc / std::fabs(d); if (tl < 0.1) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_NEAR(e[i][j], (double)(i == j), tl * std::max(1.0, nf), "Faddeev inverse"); }
	auto fixd = [&](auto M) { constexpr int N = sizeof(M) / sizeof(Real) > 16 ? 5 : sizeof(M) / sizeof(Real) > 9 ? 4 : sizeof(M) / sizeof(Real) > 4 ? 3 : sizeof(M) / sizeof(Real) > 1 ? 2 : 1; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) M(i, j) = a[i][j]; CHECK_NEAR(Utils::Det(M), d, 200 * n * EPS * sc, "fixed-size determinant"); };
	if (n == 1) fixd(MatrixNM<Real, 1, 1>()); if (n == 2) fixd(MatrixNM<Real, 2, 2>()); if (n == 3) fixd(MatrixNM<Real, 3, 3>()); if (n == 4) fixd(MatrixNM<Real, 4, 4>()); if (n == 5) fixd(MatrixNM<Real, 5, 5>());
}
LAW(rank_rectangular, 2500, 25000) {
	int m = s.size(1, 7), n = s.size(1, 7), r = (int)s.i(0, std::min(m, n)); Tab a = r ? mulT(genInt(s, m, r, 3), genInt(s, r, n, 3)) : mkTab(m, n, [](int, int) { return 0.0; }); r = rankInt(a); c.say([&](auto& o) { o << "A=" << str(a); }); c.nontrivial(m != n && r > 1); c.label(m > n ? "tall" : m < n ? "wide" : "square"); Matrix<Real> A = toMat(a); double nf = frob(a), th = 1e-10 * nf; SVDecompositionSolver<Real> sv(A); Vector<Real> w = sv.getW(); DISCARD_IF(r > 0 && w[r - 1] < 1e-6 * w[0]);
	CHECK(Utils::RankGaussian(A) == r, "Gaussian rank " << Utils::RankGaussian(A)); CHECK(Utils::RankSVD(A, th) == r, "rank"); CHECK(Utils::Nullity(A, th) == n - r, "nullity"); Utils::FundamentalSubspaces f = Utils::ComputeFundamentalSubspaces(A, th); CHECK(f.rank == r, "rank");
	double tl = 100 * (m + n) * EPS * (1 + nf); auto basis = [&](const Matrix<Real>& B, int rows, int cols, const char* w2) { CHECK(B.cols() == cols && (cols == 0 || B.rows() == rows), w2 << " shape " << B.rows() << "x" << B.cols() << " expected " << rows << "x" << cols); if (!cols) return; Tab b = toTab(B), g = mulT(trT(b), b); for (int i = 0; i < cols; i++) for (int j = 0; j < cols; j++) CHECK_NEAR(g[i][j], (double)(i == j), 100 * (m + n) * EPS, w2 << " not orthonormal"); };
	auto proj = [&](const Matrix<Real>& B, const Tab& x, const char* w2) { if (!r) return; Tab b = toTab(B), p = mulT(b, mulT(trT(b), x)); for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < x[0].size(); j++) CHECK_NEAR(p[i][j], x[i][j], tl, w2 << " does not span"); };
	auto null = [&](const Matrix<Real>& B, const Tab& x, const char* w2) { if (!B.cols()) return; Tab p = mulT(x, toTab(B)); CHECK(maxAbs(p) <= tl, w2 << " is not annihilated: " << maxAbs(p)); }; Tab at = trT(a);
	auto all = [&](const Matrix<Real>& cs, const Matrix<Real>& rs, const Matrix<Real>& ns, const Matrix<Real>& ln) { basis(cs, m, r, "column space"); basis(rs, n, r, "row space"); basis(ns, n, n - r, "null space"); basis(ln, m, m - r, "left null space"); proj(cs, a, "column space"); proj(rs, at, "row space"); null(ns, a, "null space"); null(ln, at, "left null space"); };
	all(f.columnSpace, f.rowSpace, f.nullSpace, f.leftNullSpace); all(Utils::ColumnSpace(A, th), Utils::RowSpace(A, th), Utils::NullSpace(A, th), Utils::LeftNullSpace(A, th)); all(Utils::Range(A, th), Utils::RowSpace(A, th), Utils::Kernel(A, th), Utils::LeftNullSpace(A, th));
	double kap = r ? w[0] / w[r - 1] : 1; Tab x = toTab(Utils::PseudoInverse(A, th)); CHECK((int)x.size() == n && (int)x[0].size() == m, "pseudo-inverse shape"); Tab ax = mulT(a, x), xa = mulT(x, a), axa = mulT(ax, a), xax = mulT(xa, x); double pt = 1000 * (m + n) * EPS * kap * kap; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) CHECK_NEAR(axa[i][j], a[i][j], pt * (1 + nf), "A X A = A"); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) CHECK_NEAR(xax[i][j], x[i][j], pt * (1 + maxAbs(x)), "X A X = X"); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) CHECK_NEAR(ax[i][j], ax[j][i], pt, "A X symmetric"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_NEAR(xa[i][j], xa[j][i], pt, "X A symmetric");
	double cn = Utils::ConditionNumber(A), ct = Utils::ConditionNumber(A.transpose()), cr = Utils::ComputeSVD(A, th).conditionNumber; if (r == std::min(m, n)) { CHECK_NEAR(cn, kap, 1e-6 * kap, "condition number"); CHECK_NEAR(ct, kap, 1e-6 * kap, "condition number of the transpose"); CHECK_NEAR(cr, kap, 1e-6 * kap, "condition number in the SVD result"); } else CHECK(cn > 1e12 && ct > 1e12 && cr > 1e12, "rank-deficient matrix has condition number " << cn << " " << ct << " " << cr);
	Utils::SVDResult sr = Utils::ComputeSVD(A, th); CHECK(sr.rank == r, "rank in the SVD result"); Vector<Real> sg = Utils::SingularValues(A); for (int i = 0; i < sg.size(); i++) CHECK(sg[i] == w[i] && sr.singularValues[i] == w[i], "singular values");
}
LAW(definiteness, 3000, 30000) {
	int n = s.size(1, 6); std::vector<double> d(n); int k = (int)s.choice(5); for (auto& x : d) { int z = (int)s.choice(2); x = k == 0 ? s.uni(0.01, 10) : k == 1 ? (z ? s.uni(0.01, 10) : 0) : k == 2 ? -s.uni(0.01, 10) : k == 3 ? (z ? -s.uni(0.01, 10) : 0) : k == 4 ? s.uni(0.01, 10) * (s.b() ? 1 : -1) : 0; } Tab q = s.b() ? genOrtho(s, n) : mkTab(n, n, [](int i, int j) { return (double)(i == j); });
	Tab a = mkTab(n, n, [&](int i, int j) { LD t = 0; for (int l = 0; l < n; l++) t += (LD)q[i][l] * d[l] * q[j][l]; return (double)t; }), g = a; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { a[i][j] = a[j][i]; double t = s.uni(-3, 3); g[i][j] = a[i][j] + t; g[j][i] = a[i][j] - t; } int np = 0, ng = 0, nz = 0; for (double x : d) (x > 0 ? np : x < 0 ? ng : nz)++;
	c.nontrivial(n > 1); c.say([&](auto& o) { o << "eigenvalues " << str(d) << " A=" << str(g); }); MatrixSym<Real> S(n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) S(i, j) = a[i][j]; Matrix<Real> G = toMat(g); bool pd = !ng && !nz, ps = !ng, nd = !np && !nz, ns = !np, in = np && ng; c.label(pd ? "pd" : nd ? "nd" : in ? "indefinite" : ps ? "psd" : "nsd"); double tol = 1e-8;
	CHECK(MA::IsPositiveDefinite(S, tol) == pd && MA::IsPositiveDefinite(G, tol) == pd, "positive definite"); CHECK(MA::IsPositiveSemiDefinite(S, tol) == ps && MA::IsPositiveSemiDefinite(G, tol) == ps, "positive semi-definite"); CHECK(MA::IsNegativeDefinite(S, tol) == nd && MA::IsNegativeDefinite(G, tol) == nd, "negative definite"); CHECK(MA::IsNegativeSemiDefinite(S, tol) == ns && MA::IsNegativeSemiDefinite(G, tol) == ns, "negative semi-definite"); CHECK(MA::IsIndefinite(S, tol) == in && MA::IsIndefinite(G, tol) == in, "indefinite");
	MA::Definiteness e = pd ? MA::Definiteness::PositiveDefinite : nd ? MA::Definiteness::NegativeDefinite : in ? MA::Definiteness::Indefinite : ps ? MA::Definiteness::PositiveSemiDefinite : MA::Definiteness::NegativeSemiDefinite; CHECK(MA::ClassifyDefiniteness(S, tol) == e && MA::ClassifyDefiniteness(G, tol) == e, "classification"); if (std::fabs(*std::min_element(d.begin(), d.end(), [](double x, double y) { return std::fabs(x) < std::fabs(y); })) > 0.009) CHECK(MA::ClassifyDefiniteness(S) == e, "default tolerance");
}
LAW(hessenberg, 3000, 30000) {
	int n = s.size(1, 9); double tol; std::string nm; Tab a = genStruct(s, n, n, tol = 1e-3, nm); if (s.chance(1, 4)) { double f = std::pow(2.0, (double)s.i(-30, 60)); for (auto& r : a) for (auto& x : r) x *= f; } if (s.chance(1, 4)) a = genInt(s, n, n, 2); c.label(nm); c.nontrivial(n > 2); c.say([&](auto& o) { o << "A=" << str(a); }); auto h = MA::ReduceToHessenberg(toMat(a)); Tab H = toTab(h.H), Q = toTab(h.Q); CHECK((int)H.size() == n && (int)Q.size() == n, "size"); double na = frob(a), tl = 60.0 * n * EPS;
	for (int i = 0; i < n; i++) for (int j = 0; j + 1 < i; j++) CHECK_NEAR(H[i][j], 0, tl * na, "below the subdiagonal (" << i << "," << j << ")"); Tab g = mulT(trT(Q), Q), b = mulT(Q, mulT(H, trT(Q))); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { CHECK_NEAR(g[i][j], (double)(i == j), tl, "Q orthogonal"); CHECK_NEAR(b[i][j], a[i][j], tl * na, "Q H Q^T = A"); }
}
LAW(functions, 2500, 25000) {
	int n = s.size(1, 5), k = (int)s.i(1, 14); double f = s.uni(0.1, 2); Tab a = genReal(s, n, n, -1, 1); for (auto& r : a) for (auto& x : r) x *= f; c.nontrivial(n > 1); c.say([&](auto& o) { o << "terms " << k << " A=" << str(a); }); Matrix<Real> A = toMat(a), B = toMat(genReal(s, n, n)); std::vector<std::vector<LD>> pw(n, std::vector<LD>(n, 0)); for (int i = 0; i < n; i++) pw[i][i] = 1; typedef std::vector<std::vector<LD>> L; L e(n, std::vector<LD>(n, 0)), si = e, co = e, sh = e, ch = e; double mag = 0; 
	for (int d = 0; d <= k; d++) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { e[i][j] += pw[i][j]; LD sg = (d / 2) % 2 ? -1 : 1; if (d % 2) { si[i][j] += sg * pw[i][j]; sh[i][j] += pw[i][j]; } else { co[i][j] += sg * pw[i][j]; ch[i][j] += pw[i][j]; } mag = std::max(mag, (double)std::fabs(pw[i][j])); } L q(n, std::vector<LD>(n, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { for (int l = 0; l < n; l++) q[i][j] += pw[i][l] * a[l][j]; q[i][j] /= d + 1; } pw = q; }
	auto cmp = [&](const Matrix<Real>& M, const L& r, const char* w) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_NEAR(M(i, j), (double)r[i][j], 200 * n * k * EPS * (1 + mag) * n, w << " (" << i << "," << j << ") with " << k << " terms"); }; cmp(Utils::Exp(A, k), e, "Exp"); cmp(Utils::Sin(A, k), si, "Sin"); cmp(Utils::Sinh(A, k), sh, "Sinh"); cmp(Utils::Cosh(A, k), ch, "Cosh"); if (k % 2 == 0) cmp(Utils::Cos(A, k), co, "Cos");
	Tab b = toTab(B), ab = mulT(a, b), ba = mulT(b, a), cm = toTab(Utils::Commutator(A, B)), ac = toTab(Utils::AntiCommutator(A, B)); Matrix<Real> S, K; Utils::MatrixDecomposeToSymAntisym(A, S, K); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { CHECK_NEAR(cm[i][j], ab[i][j] - ba[i][j], 100 * n * EPS * 20, "commutator"); CHECK_NEAR(ac[i][j], ab[i][j] + ba[i][j], 100 * n * EPS * 20, "anticommutator"); CHECK_NEAR(S(i, j), (a[i][j] + a[j][i]) / 2, 1e-15 * f, "symmetric part"); CHECK_NEAR(K(i, j), (a[i][j] - a[j][i]) / 2, 1e-15 * f, "antisymmetric part"); }
}
LAW(orthogonal_hermitian, 3000, 30000) {
	int n = s.size(1, 6); Tab q = genOrtho(s, n); bool ok = s.b(); int i0 = (int)s.i(0, n - 1), j0 = (int)s.i(0, n - 1); double d = s.pick({1e-3, 0.1, 1.0, 3.0}); if (!ok) q[i0][j0] += (q[i0][j0] >= 0 ? 1 : -1) * d; c.nontrivial(n > 1); c.say([&](auto& o) { o << "Q=" << str(q) << " disturbed " << !ok << " at " << i0 << "," << j0; }); CHECK(Utils::IsOrthogonal(toMat(q)) == ok, "orthogonal");
	Matrix<Complex> U(n, n); double a0 = s.uni(0, 6.28); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) U(i, j) = q[i][j] * std::polar(1.0, a0 * (j + 1)); CHECK(Utils::IsUnitary(U) == ok, "unitary");
	Matrix<Complex> H(n, n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double x = s.real(-5, 5), y = i == j ? 0.0 : s.real(-5, 5); H(i, j) = Complex(x, y); H(j, i) = Complex(x, -y); } CHECK(Utils::IsHermitian(H), "Hermitian"); Matrix<Complex> W = H; W(i0, j0) += Complex(0, d); CHECK(!Utils::IsHermitian(W), "element (" << i0 << "," << j0 << ") disturbed by " << d << "i is not Hermitian"); if (i0 != j0) { W = H; W(i0, j0) += Complex(d, 0); CHECK(!Utils::IsHermitian(W), "disturbed real part"); }
	int m = s.size(1, 6); Matrix<Complex> Z(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) Z(i, j) = Complex(s.real(-5, 5), s.real(-5, 5)); Matrix<Complex> T = Utils::GetConjugateTranspose(Z); Matrix<Real> re = Utils::GetRealPart(Z), im = Utils::GetImagPart(Z); bool real = true; CHECK(T.rows() == m && T.cols() == n, "shape"); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { CHECK(T(j, i) == std::conj(Z(i, j)) && re(i, j) == Z(i, j).real() && im(i, j) == Z(i, j).imag(), "parts"); real &= Z(i, j).imag() == 0; } CHECK(Utils::IsComplexMatReal(Z) == real, "IsComplexMatReal"); CHECK(Utils::IsComplexMatReal(Utils::CmplxMatFromRealMat(re)), "real as complex"); if (n != m) { CHECK_THROWS(Utils::IsHermitian(Z), MatrixDimensionError, ""); CHECK_THROWS(Utils::IsUnitary(Z), MatrixDimensionError, ""); }
	int k = s.size(0, 5), L = s.size(1, 5); std::vector<Vector<Real>> vs; for (int i = 0; i < k; i++) vs.push_back(toVec(genRealV(s, L))); if (k == 0) { CHECK_THROWS(Utils::MatrixFromVectorsInRows(vs), MatrixDimensionError, ""); CHECK_THROWS(Utils::MatrixFromVectorsInColumns(vs), MatrixDimensionError, ""); } else { auto R = Utils::MatrixFromVectorsInRows(vs), C = Utils::MatrixFromVectorsInColumns(vs); CHECK(R.rows() == k && R.cols() == L && C.rows() == L && C.cols() == k, "shape"); for (int i = 0; i < k; i++) for (int j = 0; j < L; j++) CHECK(R(i, j) == vs[i][j] && C(j, i) == vs[i][j], "element"); vs.push_back(Vector<Real>(L + (s.b() ? 1 : -1))); CHECK_THROWS(Utils::MatrixFromVectorsInRows(vs), MatrixDimensionError, ""); CHECK_THROWS(Utils::MatrixFromVectorsInColumns(vs), MatrixDimensionError, ""); }
	Vector<Real> x = toVec(genRealV(s, L)), y = toVec(genRealV(s, L)); Matrix<Real> rm = Utils::RowMatrixFromVector(x), cl = Utils::ColumnMatrixFromVector(x), dg = Utils::DiagonalMatrixFromVector(x), op = Utils::OuterProduct(x, y); CHECK(rm.rows() == 1 && rm.cols() == L && cl.rows() == L && cl.cols() == 1 && dg.rows() == L && dg.cols() == L && op.rows() == L, "shape"); for (int i = 0; i < L; i++) { CHECK(rm(0, i) == x[i] && cl(i, 0) == x[i], "row/column"); for (int j = 0; j < L; j++) { CHECK(dg(i, j) == (i == j ? x[i] : 0.0), "diagonal"); CHECK(op(i, j) == x[i] * y[j], "outer product"); } }
	VectorN<Real, 3> v; for (int i = 0; i < 3; i++) v[i] = s.real(-5, 5); auto r3 = Utils::RowMatrixFromVector(v); auto c3 = Utils::ColumnMatrixFromVector(v); auto d3 = Utils::DiagonalMatrixFromVector(v); for (int i = 0; i < 3; i++) { CHECK(r3(0, i) == v[i] && c3(i, 0) == v[i], "fixed size"); for (int j = 0; j < 3; j++) CHECK(d3(i, j) == (i == j ? v[i] : 0.0), "fixed-size diagonal"); }
}
LAW(vectors, 3000, 30000) {
	int n = s.size(1, 7); std::vector<double> x = genRealV(s, n), y = genRealV(s, n); if (s.chance(1, 4)) for (int i = 0; i < n; i++) y[i] = -2 * x[i]; c.nontrivial(n > 1); c.say([&](auto& o) { o << str(x) << " " << str(y); }); Vector<Real> X = toVec(x), Y = toVec(y); LD d = 0, nx = 0, ny = 0; for (int i = 0; i < n; i++) { d += (LD)x[i] * y[i]; nx += (LD)x[i] * x[i]; ny += (LD)y[i] * y[i]; } CHECK_NEAR(Utils::ScalarProduct(X, Y), (double)d, 8 * n * EPS * 100 * n, "scalar product");
	if (nx > 0 && ny > 0) { double co = Utils::VectorsAngle(X, Y); LD r = d / std::sqrt(nx * ny); r = std::max(-1.0L, std::min(1.0L, r)); CHECK(co >= 0 && co <= 3.1415926535897936, "angle range"); CHECK_NEAR(std::cos(co), (double)r, 40 * n * EPS, "angle"); } if (ny > 1e-6) { Vector<Real> p = Utils::VectorProjectionParallelTo(X, Y), q = Utils::VectorProjectionPerpendicularTo(X, Y); LD pq = 0; for (int i = 0; i < n; i++) { CHECK_NEAR(p[i], (double)(d / ny * y[i]), 1e-12 * (1 + std::sqrt((double)nx)), "parallel part"); CHECK_NEAR(p[i] + q[i], x[i], 1e-12 * (1 + std::sqrt((double)nx)), "parts add up"); pq += (LD)q[i] * y[i]; } CHECK_NEAR((double)pq, 0, 1e-12 * std::sqrt((double)(nx * ny)), "perpendicular"); }
	Vector<Complex> a(n), b(n); Complex e = 0; for (int i = 0; i < n; i++) { a[i] = Complex(x[i], s.real(-5, 5)); b[i] = Complex(y[i], s.real(-5, 5)); e += a[i] * std::conj(b[i]); } Complex g = Utils::ScalarProduct(a, b); CHECK_NEAR(std::abs(g - e), 0, 1e-12 * (1 + std::abs(e)) * 10, "Hermitian product"); Complex h = Utils::ScalarProduct(b, a); CHECK_NEAR(std::abs(h - std::conj(g)), 0, 1e-11, "conjugate symmetry"); Vector<Real> z(n + 1); CHECK_THROWS(Utils::ScalarProduct(X, z), VectorDimensionError, ""); CHECK_THROWS(Utils::VectorsAngle(X, z), VectorDimensionError, "");
	VectorN<Real, 4> u, v; LD t = 0, nu = 0, nv = 0; for (int i = 0; i < 4; i++) { u[i] = s.real(-5, 5); v[i] = s.real(-5, 5); t += (LD)u[i] * v[i]; nu += (LD)u[i] * u[i]; nv += (LD)v[i] * v[i]; } CHECK_NEAR(Utils::ScalarProduct(u, v), (double)t, 1e-13, "fixed-size scalar product"); if (nu > 0 && nv > 0) CHECK_NEAR(std::cos(Utils::VectorsAngle(u, v)), (double)(t / std::sqrt(nu * nv)), 1e-13, "fixed-size angle");
}
