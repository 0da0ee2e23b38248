// C01 dense vector / matrix algebra versus its definition
#include "common.h"
#include "base/BaseUtils.h"

template<class T> T genT(Src& s, int k = 9) { return (T)s.i(-k, k); }
template<> Complex genT<Complex>(Src& s, int k) { double a = (double)s.i(-k, k); return Complex(a, (double)s.i(-k, k)); }
template<class T> std::string strT(const std::vector<T>& v) { std::ostringstream o; for (auto& x : v) o << x << ' '; return o.str(); }
template<class T> struct Ref { int r = 0, c = 0; std::vector<T> d; Ref(int r_ = 0, int c_ = 0) : r(r_), c(c_), d((size_t)r_ * c_, T(0)) {} T& at(int i, int j) { return d[(size_t)i * c + j]; } const T& at(int i, int j) const { return d[(size_t)i * c + j]; } };
template<class T> Ref<T> genRef(Src& s, int r, int c, int k = 9) { Ref<T> m(r, c); for (auto& x : m.d) x = genT<T>(s, k); return m; }
template<class T> Matrix<T> mk(const Ref<T>& r) { Matrix<T> m(r.r, r.c); for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) m(i, j) = r.at(i, j); return m; }
template<class T> void same(const Matrix<T>& m, const Ref<T>& r, const char* what) {
	CHECK(m.rows() == r.r && m.cols() == r.c, what << ": shape " << m.rows() << "x" << m.cols() << " expected " << r.r << "x" << r.c);
	for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) CHECK(m(i, j) == r.at(i, j), what << ": element (" << i << "," << j << ") is " << m(i, j) << " expected " << r.at(i, j));
}
template<class T> void sameV(const Vector<T>& v, const std::vector<T>& r, const char* what) { CHECK(v.size() == (int)r.size(), what << " size " << v.size()); for (int i = 0; i < v.size(); i++) CHECK(v[i] == r[i], what << ": element " << i << " is " << v[i] << " expected " << r[i]); }
template<class T> Ref<T> mulR(const Ref<T>& a, const Ref<T>& b) { Ref<T> r(a.r, b.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < b.c; j++) { T q(0); for (int k = 0; k < a.c; k++) q += a.at(i, k) * b.at(k, j); r.at(i, j) = q; } return r; }
template<class T> Ref<T> trR(const Ref<T>& a) { Ref<T> r(a.c, a.r); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) r.at(j, i) = a.at(i, j); return r; }

// ---- one-shot algebra, all shapes, four element types (integer data: every result is exact)
template<class T> void algebra(Src& s, Case& c) {
	int n = s.size(1, 12), m = s.size(1, 12), p = s.size(1, 9);
	Ref<T> a = genRef<T>(s, n, m), b = genRef<T>(s, n, m), d = genRef<T>(s, m, p);
	Matrix<T> A = mk(a), B = mk(b), D = mk(d);
	T k = genT<T>(s); c.say([&](auto& o) { o << n << "x" << m << " * " << m << "x" << p << " A=" << strT(a.d) << " B=" << strT(b.d) << " D=" << strT(d.d) << " k=" << k; });
	c.nontrivial(n != m && n > 1 && m > 1); c.label(n == m ? "square" : (n == 1 || m == 1 ? "thin" : "rectangular"));
	auto zip = [&](auto f) { Ref<T> r(n, m); for (size_t i = 0; i < a.d.size(); i++) r.d[i] = f(a.d[i], b.d[i]); return r; };
	same<T>(A + B, zip([](T x, T y) { return x + y; }), "A+B"); same<T>(A - B, zip([](T x, T y) { return x - y; }), "A-B");
	same<T>(-A, zip([](T x, T) { return -x; }), "-A"); same<T>(A * k, zip([&](T x, T) { return x * k; }), "A*k"); same<T>(k * A, zip([&](T x, T) { return x * k; }), "k*A");
	{ Matrix<T> q(A); q += B; same<T>(q, zip([](T x, T y) { return x + y; }), "A+=B"); q = A; q -= B; same<T>(q, zip([](T x, T y) { return x - y; }), "A-=B"); q = A; q *= k; same<T>(q, zip([&](T x, T) { return x * k; }), "A*=k"); q = A * T(4); q /= T(4); same<T>(q, a, "A*4/=4"); same<T>((A * T(4)) / T(2), zip([](T x, T) { return x * T(2); }), "A*4/2"); }
	same<T>(A * D, mulR(a, d), "A*D"); same<T>(A.transpose(), trR(a), "transpose");
	same<T>(A, a, "operands unchanged"); same<T>(D, d, "operands unchanged");
	std::vector<T> v(m), w(n); for (auto& x : v) x = genT<T>(s); for (auto& x : w) x = genT<T>(s);
	std::vector<T> av(n, T(0)), wa(m, T(0)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { av[i] += a.at(i, j) * v[j]; wa[j] += w[i] * a.at(i, j); }
	sameV<T>(A * Vector<T>(v), av, "A*v"); sameV<T>(Vector<T>(w) * A, wa, "w*A");
	CHECK((A == B) == (a.d == b.d) && (A != B) == (a.d != b.d), "operator=="); CHECK(A.IsEqualTo(A) && Matrix<T>::AreEqual(A, A), "IsEqualTo self");
	{ int i = (int)s.i(0, n - 1), j = (int)s.i(0, m - 1); Matrix<T> q(A); q(i, j) += T(1); CHECK(!q.IsEqualTo(A) && q != A && !(q == A), "one differing element at " << i << "," << j << " not noticed"); CHECK(q.IsEqualTo(A, 1.5), "IsEqualTo with eps 1.5");
		CHECK_THROWS(A.at(n, j), MatrixAccessBoundsError, "at(rows,j)"); CHECK_THROWS(A.at(i, m), MatrixAccessBoundsError, "at(i,cols)"); CHECK_THROWS(A.at(-1, j), MatrixAccessBoundsError, "at(-1,j)"); CHECK_THROWS(A.at(i, -1), MatrixAccessBoundsError, "at(i,-1)"); CHECK(A.at(i, j) == a.at(i, j) && A[i][j] == a.at(i, j), "at"); 
		std::vector<T> row, col; for (int q2 = 0; q2 < m; q2++) row.push_back(a.at(i, q2)); for (int q2 = 0; q2 < n; q2++) col.push_back(a.at(q2, j));
		sameV<T>(A.VectorFromRow(i), row, "row"); sameV<T>(A.VectorFromColumn(j), col, "column"); CHECK_THROWS(A.VectorFromRow(n), MatrixAccessBoundsError, ""); CHECK_THROWS(A.VectorFromRow(-1), MatrixAccessBoundsError, ""); CHECK_THROWS(A.VectorFromColumn(m), MatrixAccessBoundsError, ""); CHECK_THROWS(A.VectorFromColumn(-1), MatrixAccessBoundsError, "");
		std::vector<T> r2, c2; for (auto& x : A.row(i)) r2.push_back(x); for (auto& x : A.col(j)) c2.push_back(x); CHECK(r2 == row && c2 == col, "row()/col() ranges"); CHECK_THROWS(A.row(n), MatrixAccessBoundsError, ""); CHECK_THROWS(A.col(m), MatrixAccessBoundsError, "");
		int rn = (int)s.i(1, n - i), cn = (int)s.i(1, m - j); Ref<T> sub(rn, cn); for (int x = 0; x < rn; x++) for (int y = 0; y < cn; y++) sub.at(x, y) = a.at(i + x, j + y);
		same<T>(A.GetSubmatrix(i, j, rn, cn), sub, "submatrix"); auto bl = A.block(i, j, rn, cn); CHECK(bl.rows() == rn && bl.cols() == cn, "block shape"); for (int x = 0; x < rn; x++) for (int y = 0; y < cn; y++) CHECK(bl(x, y) == sub.at(x, y), "block(" << x << "," << y << ")");
		CHECK_THROWS(A.GetSubmatrix(i, j, n - i + 1, cn), MatrixDimensionError, "submatrix too tall"); CHECK_THROWS(A.GetSubmatrix(i, j, rn, m - j + 1), MatrixDimensionError, "submatrix too wide"); CHECK_THROWS(A.block(i, j, n - i + 1, cn), MatrixDimensionError, ""); CHECK_THROWS(A.block(i, j, rn, m - j + 1), MatrixDimensionError, "");
	}
	{ int total = 0; for (auto& x : A) { CHECK(x == a.d[total], "iteration"); total++; } CHECK(total == n * m, "iteration count"); }
	// dimension mismatches
	{ int dn = s.b() ? 1 : 0, dm = dn ? 0 : 1; Matrix<T> X(n + dn, m + dm); Matrix<T> q(A); CHECK_THROWS((void)(A + X), MatrixDimensionError, "A+X"); CHECK_THROWS((void)(A - X), MatrixDimensionError, "A-X"); CHECK_THROWS(q += X, MatrixDimensionError, ""); CHECK_THROWS(q -= X, MatrixDimensionError, ""); same<T>(q, a, "after rejected +=");
		Matrix<T> Y(m + 1, p); CHECK_THROWS((void)(A * Y), MatrixDimensionError, "A*Y"); CHECK_THROWS((void)(A * Vector<T>(m + 1)), MMLException, "A*v"); CHECK_THROWS((void)(Vector<T>(n + 1) * A), MMLException, "w*A"); CHECK(!(A == X) && !A.IsEqualTo(X), "shape mismatch equality"); if (n != m) { CHECK_THROWS(A.trace(), MatrixDimensionError, ""); CHECK_THROWS(q.Transpose(), MatrixDimensionError, ""); CHECK_THROWS(q.Invert(), MatrixDimensionError, ""); CHECK_THROWS(A.diagonal(), MatrixDimensionError, ""); CHECK_THROWS(q.MakeUnitMatrix(), MatrixDimensionError, ""); CHECK_THROWS((void)A.GetLower(), MatrixDimensionError, ""); CHECK_THROWS((void)A.GetUpper(), MatrixDimensionError, ""); same<T>(q, a, "after rejected in-place ops"); } }
	// square-only
	{ int z = s.size(1, 7); Ref<T> q = genRef<T>(s, z, z); Matrix<T> Q = mk(q); T tr(0); std::vector<T> dg; Ref<T> lo(z, z), up(z, z), sl(z, z), su(z, z); for (int i = 0; i < z; i++) { tr += q.at(i, i); dg.push_back(q.at(i, i)); for (int j = 0; j < z; j++) { if (j <= i) lo.at(i, j) = q.at(i, j); if (j < i) sl.at(i, j) = q.at(i, j); if (j >= i) up.at(i, j) = q.at(i, j); if (j > i) su.at(i, j) = q.at(i, j); } }
		CHECK(Q.trace() == tr, "trace"); sameV<T>(Q.diagonal(), dg, "diagonal"); same<T>(Q.GetLower(), lo, "lower"); same<T>(Q.GetLower(false), sl, "strict lower"); same<T>(Q.GetUpper(), up, "upper"); same<T>(Q.GetUpper(false), su, "strict upper"); Matrix<T> t(Q); t.Transpose(); same<T>(t, trR(q), "in-place transpose"); same<T>(Matrix<T>::Diagonal(Vector<T>(dg)), [&] { Ref<T> e(z, z); for (int i = 0; i < z; i++) e.at(i, i) = dg[i]; return e; }(), "Diagonal"); Ref<T> id(z, z); for (int i = 0; i < z; i++) id.at(i, i) = T(1); same<T>(Matrix<T>::Identity(z), id, "Identity"); Q.MakeUnitMatrix(); same<T>(Q, id, "MakeUnitMatrix"); CHECK(Q.isIdentity() && Q.isDiagonal() && Q.isSymmetric(), "identity predicates"); }
	// norms
	{ LD l1 = 0, l2 = 0, li = 0; for (auto& x : a.d) { LD v2 = std::abs(x); l1 += v2; l2 += v2 * v2; li = std::max(li, v2); } double eps = std::is_same_v<T, float> ? 1e-6 : 1e-13; CHECK_NEAR(A.NormL1(), l1, eps * (double)l1, "L1"); CHECK_NEAR(A.NormL2(), std::sqrt(l2), eps * (double)std::sqrt(l2), "L2"); CHECK_NEAR(A.NormLInf(), li, eps * (double)li, "Linf"); }
}
LAW(algebra_real, 3000, 40000) { algebra<double>(s, c); }
LAW(algebra_complex, 1500, 20000) { algebra<Complex>(s, c); }
LAW(algebra_float, 800, 10000) { algebra<float>(s, c); }
LAW(algebra_int, 800, 10000) { algebra<int>(s, c); }

// ---- construction
LAW(construct, 2000, 20000) {
	int n = s.size(1, 7), m = s.size(1, 7); Ref<double> a = genRef<double>(s, n, m); c.nontrivial(n != m); c.say([&](auto& o) { o << n << "x" << m << " " << strT(a.d); });
	same<double>(Matrix<Real>(n, m, a.d.data()), a, "row-wise buffer"); Ref<double> t = trR(a); same<double>(Matrix<Real>(n, m, t.d.data(), false), a, "column-wise buffer");
	std::vector<std::vector<Real>> vv; for (int i = 0; i < n; i++) vv.emplace_back(a.d.begin() + i * m, a.d.begin() + (i + 1) * m); same<double>(Matrix<Real>(vv), a, "vector of vectors");
	if (n > 1) { int k = (int)s.i(1, n - 1); auto ww = vv; if (s.b()) ww[k].push_back(1); else ww[k].pop_back(); CHECK_THROWS(Matrix<Real>(ww), MatrixDimensionError, "ragged rows"); }
	Matrix<Real> M = mk(a), C(M); same<double>(C, a, "copy"); Matrix<Real> V(std::move(C)); same<double>(V, a, "move"); CHECK(C.rows() == 0 && C.cols() == 0, "moved-from is empty"); C = V; same<double>(C, a, "copy assign"); Matrix<Real>& rC = C; C = rC; same<double>(C, a, "self assign"); C = std::move(rC); same<double>(C, a, "self move assign");
	Matrix<Real> z(n, m), f(n, m, 7.0); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) CHECK(z(i, j) == 0 && f(i, j) == 7, "fill");
	CHECK_THROWS(Matrix<Real>(-n, m), MatrixDimensionError, ""); CHECK_THROWS(Matrix<Real>(n, -m), MatrixDimensionError, ""); CHECK_THROWS(Matrix<Real>::Identity(-n), MatrixDimensionError, ""); CHECK_THROWS(Matrix<Real>(n, m, {1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 11.0, 12.0, 13.0, 14.0, 15.0, 16.0, 17.0, 18.0, 19.0, 20.0, 21.0, 22.0, 23.0, 24.0, 25.0, 26.0, 27.0, 28.0, 29.0, 30.0, 31.0, 32.0, 33.0, 34.0, 35.0, 36.0, 37.0, 38.0, 39.0, 40.0, 41.0, 42.0, 43.0, 44.0, 45.0, 46.0, 47.0, 48.0, 49.0, 50.0}), MatrixDimensionError, "list size mismatch");
	CHECK_THROWS(Matrix<Real>(M, n, 0, 1, 1), MatrixDimensionError, ""); CHECK_THROWS(Matrix<Real>(M, 0, m, 1, 1), MatrixDimensionError, ""); CHECK_THROWS(Matrix<Real>(M, -1, 0, 1, 1), MatrixDimensionError, ""); CHECK_THROWS(Matrix<Real>(M, 0, 0, 0, 1), MatrixDimensionError, "");
	// vector construction
	Vector<Real> v(a.d); sameV<double>(v, a.d, "from std::vector"); sameV<double>(Vector<Real>((int)a.d.size(), a.d.data()), a.d, "from buffer"); CHECK_THROWS(Vector<Real>(-1), VectorInitializationError, ""); CHECK_THROWS(Vector<Real>(-1, 2.0), VectorInitializationError, ""); CHECK_THROWS(Vector<Real>::UnitVector(n, n), VectorDimensionError, ""); CHECK_THROWS(Vector<Real>::UnitVector(n, -1), VectorDimensionError, "");
	int u = (int)s.i(0, n - 1); Vector<Real> e = Vector<Real>::UnitVector(n, u); for (int i = 0; i < n; i++) CHECK(e[i] == (i == u), "UnitVector");
}

// ---- predicates
LAW(predicates, 2500, 25000) {
	int n = s.size(1, 6); Tab t = genInt(s, n, n, 4); int kind = (int)s.choice(6);
	if (kind == 1) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) t[i][j] = t[j][i];
	if (kind == 2) for (int i = 0; i < n; i++) { t[i][i] = 0; for (int j = 0; j < i; j++) t[i][j] = -t[j][i]; }
	if (kind == 3) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) t[i][j] = 0;
	if (kind == 4) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) t[i][j] = i == j;
	if (kind == 5) for (int i = 0; i < n; i++) { double q = 0; for (int j = 0; j < n; j++) if (i != j) q += std::fabs(t[i][j]); t[i][i] = s.b() ? q : -q; }
	if (kind == 6) for (auto& r : t) for (auto& x : r) x = 0;
	if (s.chance(1, 3)) { int i = (int)s.i(0, n - 1), j = (int)s.i(0, n - 1); t[i][j] += (double)s.i(-1, 1); }
	Matrix<Real> A = toMat(t); c.nontrivial(n > 1 && kind > 0); c.label("kind" + std::to_string(kind)); c.say([&](auto& o) { o << str(t); });
	bool sym = true, asym = true, diag = true, id = true, zero = true, dom = true;
	for (int i = 0; i < n; i++) { double q = 0; for (int j = 0; j < n; j++) { sym &= t[i][j] == t[j][i]; asym &= t[i][j] == -t[j][i]; if (i != j) { diag &= t[i][j] == 0; q += std::fabs(t[i][j]); } id &= t[i][j] == (i == j); zero &= t[i][j] == 0; } dom &= std::fabs(t[i][i]) >= q; }
	CHECK(A.isSymmetric() == sym, "isSymmetric"); CHECK(A.isAntiSymmetric() == asym, "isAntiSymmetric"); CHECK(A.isDiagonal() == diag, "isDiagonal"); CHECK(A.isIdentity() == id, "isIdentity"); CHECK(A.isZero() == zero, "isZero"); CHECK(A.isDiagonallyDominant() == dom, "isDiagonallyDominant"); CHECK(A.isSquare() && !A.isEmpty(), "shape");
	int m = n + 1; Matrix<Real> R(n, m); CHECK(!R.isSquare() && !R.isSymmetric() && !R.isAntiSymmetric() && !R.isIdentity(), "rectangular predicates");
}

// ---- histories: matrix against a model, with aliasing, rejected calls, resizes
LAW(matrix_history, 4000, 60000) {
	int n = s.size(1, 6), m = s.size(1, 6); Ref<double> r = genRef<double>(s, n, m, 5); Matrix<Real> A = mk(r); int steps = s.size(1, 14); std::ostringstream log; log << n << "x" << m << " [" << strT(r.d) << "]"; int special = 0;
	for (int st = 0; st < steps; st++) {
		n = r.r; m = r.c; int op = (int)s.choice(19); int i = (int)s.i(0, n - 1), j = (int)s.i(0, m - 1), k = (int)s.i(0, n - 1), l = (int)s.i(0, m - 1); double x = (double)s.i(-3, 3);
		log << " ; op" << op << "(" << i << "," << j << "," << k << "," << l << "," << x << ")"; c.label("op" + std::to_string(op)); c.say([&](auto& o) { if (st == 0) o << log.str(); else o << " op" << op << "(" << i << "," << j << "," << k << "," << l << "," << x << ")"; });
		switch (op) {
		case 0: A(i, j) = x; r.at(i, j) = x; break;
		case 1: A += A; for (auto& v : r.d) v += v; special++; break;
		case 2: A -= A * 2.0; for (auto& v : r.d) v = -v; break;
		case 3: A -= A; for (auto& v : r.d) v = 0; special++; break;
		case 4: { double q = r.at(i, j); A *= A(i, j); (void)q; for (auto& v : r.d) v *= q; special++; break; }   // scalar may alias an element
		case 5: { const double& q = A[i][j]; double qv = q; if (qv != 1 && qv != -1 && qv != 2 && qv != -2 && qv != 4) break; A /= q; for (auto& v : r.d) v /= qv; special++; break; }
		case 6: { const double& q = A[i][j]; double qv = q; A *= q; for (auto& v : r.d) v *= qv; special++; break; }
		case 7: A.SwapRows(i, k); for (int q = 0; q < m && i != k; q++) std::swap(r.at(i, q), r.at(k, q)); break;
		case 8: A.SwapCols(j, l); for (int q = 0; q < n && j != l; q++) std::swap(r.at(q, j), r.at(q, l)); break;
		case 9: A.InitRowWithVector(i, A.VectorFromRow(k)); for (int q = 0; q < m; q++) r.at(i, q) = r.at(k, q); break;
		case 10: A.InitColWithVector(j, A.VectorFromColumn(l)); for (int q = 0; q < n; q++) r.at(q, j) = r.at(q, l); break;
		case 11: { int n2 = s.size(1, 7), m2 = s.size(1, 7); log << "resize" << n2 << "x" << m2; bool keep = s.b(); A.Resize(n2, m2, keep); if (n2 != n || m2 != m) { Ref<double> q(n2, m2); if (keep) for (int a = 0; a < std::min(n, n2); a++) for (int b = 0; b < std::min(m, m2); b++) q.at(a, b) = r.at(a, b); r = q; special++; } break; }
		case 12: A = A.transpose(); r = trR(r); break;
		case 13: if (n == m) { A = A * A; r = mulR(r, r); } else { A = A * A.transpose(); r = mulR(r, trR(r)); } break;
		case 14: { int rn = (int)s.i(1, n - i), cn = (int)s.i(1, m - j); A = A.GetSubmatrix(i, j, rn, cn); Ref<double> q(rn, cn); for (int a = 0; a < rn; a++) for (int b = 0; b < cn; b++) q.at(a, b) = r.at(i + a, j + b); r = q; break; }
		case 15: { int rn = (int)s.i(1, n - i), cn = (int)s.i(1, m - j); auto v = A.block(i, j, rn, cn); for (int a = 0; a < rn; a++) for (int b = 0; b < cn; b++) { v(a, b) = v(a, b) + x; r.at(i + a, j + b) += x; } break; }
		case 16: { Matrix<Real> B(std::move(A)); A = std::move(B); break; }
		case 17: CHECK_THROWS(A.SwapRows(i, n), MatrixDimensionError, ""); CHECK_THROWS(A.SwapCols(m, j), MatrixDimensionError, ""); CHECK_THROWS(A.InitRowWithVector(i, Vector<Real>(m + 1)), MMLException, ""); CHECK_THROWS(A.InitColWithVector(j, Vector<Real>(n + 1)), MMLException, ""); CHECK_THROWS(A.InitRowWithVector(n, Vector<Real>(m)), MatrixAccessBoundsError, ""); CHECK_THROWS(A.Resize(0, m), MatrixDimensionError, ""); CHECK_THROWS(A.Resize(n, -1, true), MatrixDimensionError, ""); CHECK_THROWS(A.block(n, 0, 1, 1), MatrixDimensionError, ""); special++; break;
		case 18: for (auto& v : A.row(i)) v += x; for (int q = 0; q < m; q++) r.at(i, q) += x; break;
		case 19: for (auto& v : A.col(j)) v += x; for (int q = 0; q < n; q++) r.at(q, j) += x; break;
		}
		for (auto& v : r.d) if (std::fabs(v) > 1e6) { A = Matrix<Real>(r.r, r.c, 1.0); for (auto& w : r.d) w = 1; break; }
		same<double>(A, r, "after step");
	}
	c.nontrivial(steps > 3 && special > 0);
}
LAW(vector_history, 2500, 40000) {
	std::vector<double> r = genIntV(s, s.size(1, 7)); Vector<Real> A(r); int steps = s.size(1, 14); int special = 0; c.say([&](auto& o) { o << str(r); });
	for (int st = 0; st < steps; st++) {
		int op = (int)s.choice(14); int n = (int)r.size(); int i = n ? (int)s.i(0, n - 1) : 0, k = n ? (int)s.i(0, n - 1) : 0; double x = (double)s.i(-3, 3); c.say([&](auto& o) { o << "op" << op << "(" << i << "," << k << "," << x << ")"; });
		if (!n && op > 1) op = 0;
		switch (op) {
		case 0: A.push_back(x); r.push_back(x); break;
		case 1: A.insert(i, x); r.insert(r.begin() + i, x); break;
		case 2: A.erase(i); r.erase(r.begin() + i); break;
		case 3: A.erase(std::min(i, k), std::max(i, k)); r.erase(r.begin() + std::min(i, k), r.begin() + std::max(i, k)); special++; break;
		case 4: A.erase(x); r.erase(std::remove(r.begin(), r.end(), x), r.end()); special++; break;
		case 5: A += A; for (auto& v : r) v += v; special++; break;
		case 6: A *= A[i]; { double q = r[i]; for (auto& v : r) v *= q; } special++; break;
		case 7: { double q = r[i]; if (q == 0) break; bool pw = q == 1 || q == -1 || q == 2 || q == -2 || q == 4; if (!pw) break; A /= A[i]; for (auto& v : r) v /= q; special++; break; }
		case 8: { int n2 = s.size(0, 9); A.Resize(n2); r.resize(n2); special++; break; }
		case 9: A = -A; for (auto& v : r) v = -v; break;
		case 10: A = A - A * 3.0; for (auto& v : r) v = v - 3 * v; break;
		case 11: A -= A; for (auto& v : r) v = 0; break;
		case 12: CHECK_THROWS(A.at(n), VectorDimensionError, ""); CHECK_THROWS(A.at(-1), VectorDimensionError, ""); CHECK_THROWS(A += Vector<Real>(n + 1), VectorDimensionError, ""); CHECK_THROWS(A -= Vector<Real>(n + 1), VectorDimensionError, ""); CHECK_THROWS((void)(A + Vector<Real>(n + 1)), VectorDimensionError, ""); CHECK_THROWS((void)(A - Vector<Real>(n + 1)), VectorDimensionError, ""); CHECK_THROWS((void)(A == Vector<Real>(n + 1)), VectorDimensionError, ""); CHECK_THROWS(Utils::ScalarProduct(A, Vector<Real>(n + 1)), MMLException, ""); special++; break;
		case 13: A[i] = x; r[i] = x; break;
		case 14: A.push_back(A[i]); r.push_back(double(r[i])); special++; break;
		}
		for (auto& v : r) if (std::fabs(v) > 1e6) { r.assign(r.size(), 1.0); A = Vector<Real>(r); break; }
		sameV<double>(A, r, "after step");
		LD l1 = 0, l2 = 0, li = 0; bool z = true; for (double v : r) { l1 += std::fabs(v); l2 += (LD)v * v; li = std::max<LD>(li, std::fabs(v)); z &= v == 0; }
		CHECK_NEAR(A.NormL1(), l1, 1e-14 * l1, "L1"); CHECK_NEAR(A.NormL2(), std::sqrt(l2), 1e-14 * std::sqrt(l2), "L2"); CHECK(A.NormLInf() == (double)li, "Linf"); CHECK(A.isZero() == z && A.isNearZero() == z, "isZero"); CHECK_NEAR(Utils::ScalarProduct(A, A), l2, 0, "dot");
	}
	c.nontrivial(steps > 3 && special > 0);
}

// ---- fixed-size types agree with the dynamic ones
template<int N, int M, int K> void fixedAlg(Src& s, Case& c) {
	Ref<double> a = genRef<double>(s, N, M), b = genRef<double>(s, N, M), d = genRef<double>(s, M, K); double k = (double)s.i(-4, 4); std::vector<double> v = genIntV(s, M), w = genIntV(s, N), w2 = genIntV(s, N);
	c.say([&](auto& o) { o << N << "x" << M << "x" << K << " A=" << strT(a.d) << " B=" << strT(b.d) << " D=" << strT(d.d) << " k=" << k << " v=" << str(v) << " w=" << str(w) << str(w2); });
	MatrixNM<Real, N, M> A(a.d.data(), a.d.size()), B(b.d.data(), b.d.size()); MatrixNM<Real, M, K> D(d.d.data(), d.d.size());
	auto cmp = [&](const auto& X, const Ref<double>& r, const char* what) { CHECK(X.rows() == r.r && X.cols() == r.c, what); for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) CHECK(X(i, j) == r.at(i, j), what << " (" << i << "," << j << ") is " << X(i, j) << " expected " << r.at(i, j)); };
	auto zip = [&](auto f) { Ref<double> r(N, M); for (size_t i = 0; i < a.d.size(); i++) r.d[i] = f(a.d[i], b.d[i]); return r; };
	cmp(A, a, "from buffer"); cmp(A + B, zip([](double x, double y) { return x + y; }), "A+B"); cmp(A - B, zip([](double x, double y) { return x - y; }), "A-B"); cmp(-A, zip([](double x, double) { return -x; }), "-A"); cmp(A * k, zip([&](double x, double) { return x * k; }), "A*k"); cmp(k * A, zip([&](double x, double) { return x * k; }), "k*A"); cmp((A * 4.0) / 2.0, zip([](double x, double) { return 2 * x; }), "A/k"); cmp(A * D, mulR(a, d), "A*D"); cmp(A.transpose(), trR(a), "transpose"); cmp(A, a, "unchanged");
	VectorN<Real, M> V(v); VectorN<Real, N> W(w), W2(w2); auto av = A * V; auto wa = W * A; for (int i = 0; i < N; i++) { double q = 0; for (int j = 0; j < M; j++) q += a.at(i, j) * v[j]; CHECK(av[i] == q, "A*v"); } for (int j = 0; j < M; j++) { double q = 0; for (int i = 0; i < N; i++) q += w[i] * a.at(i, j); CHECK(wa[j] == q, "w*A"); }
	int i = (int)s.i(0, N - 1), j = (int)s.i(0, M - 1); auto ro = A.VectorFromRow(i); auto co = A.VectorFromColumn(j); for (int q = 0; q < M; q++) CHECK(ro[q] == a.at(i, q), "row"); for (int q = 0; q < N; q++) CHECK(co[q] == a.at(q, j), "col"); auto dg = A.VectorFromDiagonal(); for (int q = 0; q < std::min(N, M); q++) CHECK(dg[q] == a.at(q, q), "diagonal");
	CHECK((A == B) == (a.d == b.d) && (A != B) == (a.d != b.d) && A.IsEqualTo(A), "equality"); { auto C = A; C(i, j) += 1; CHECK(!(C == A) && C != A && !C.IsEqualTo(A) && C.IsEqualTo(A, 1.5), "one differing element"); }
	CHECK_THROWS(A.at(N, j), MatrixAccessBoundsError, ""); CHECK_THROWS(A.at(i, M), MatrixAccessBoundsError, ""); CHECK_THROWS(A.at(-1, j), MatrixAccessBoundsError, ""); CHECK(A.at(i, j) == a.at(i, j) && A[i][j] == a.at(i, j), "at");
	{ auto C = A; double q = a.at(i, j); C *= C[i][j]; cmp(C, zip([&](double x, double) { return x * q; }), "A *= A[i][j]"); C = A; C = k; for (int x = 0; x < N; x++) for (int y = 0; y < M; y++) CHECK(C(x, y) == k, "fill assign"); C = A; auto& rc = C; C = rc; cmp(C, a, "self assign"); }
	{ MatrixNM<Real, N, M> S(k); for (int x = 0; x < N; x++) for (int y = 0; y < M; y++) CHECK(S(x, y) == (x == y ? k : 0), "scalar constructor (" << x << "," << y << ")"); }
	if constexpr (N == M) { Ref<double> lo(N, N), up(N, N), sl(N, N), su(N, N), id(N, N); double tr = 0; for (int x = 0; x < N; x++) { tr += a.at(x, x); id.at(x, x) = 1; for (int y = 0; y < N; y++) { if (y <= x) lo.at(x, y) = a.at(x, y); if (y < x) sl.at(x, y) = a.at(x, y); if (y >= x) up.at(x, y) = a.at(x, y); if (y > x) su.at(x, y) = a.at(x, y); } } cmp(A.GetLower(), lo, "lower"); cmp(A.GetLower(false), sl, "strict lower"); cmp(A.GetUpper(), up, "upper"); cmp(A.GetUpper(false), su, "strict upper"); CHECK(A.Trace() == tr, "trace"); auto C = A; C.Transpose(); cmp(C, trR(a), "in-place transpose"); C.MakeUnitMatrix(); cmp(C, id, "MakeUnit"); cmp(MatrixNM<Real, N, N>::Identity(), id, "Identity"); }
	else { auto C = A; CHECK_THROWS(C.Transpose(), MatrixDimensionError, ""); CHECK_THROWS(C.Invert(), MatrixDimensionError, ""); CHECK_THROWS(C.GetLower(), MatrixDimensionError, ""); CHECK_THROWS(C.GetUpper(), MatrixDimensionError, ""); CHECK_THROWS(C.MakeUnitMatrix(), MatrixDimensionError, ""); cmp(C, a, "unchanged after rejected"); }
	// VectorN
	auto vc = [&](const VectorN<Real, N>& X, auto f, const char* what) { for (int q = 0; q < N; q++) CHECK(X[q] == f(q), what << " element " << q << " is " << X[q] << " expected " << f(q)); };
	vc(W + W2, [&](int q) { return w[q] + w2[q]; }, "w+w2"); vc(W - W2, [&](int q) { return w[q] - w2[q]; }, "w-w2"); vc(-W, [&](int q) { return -w[q]; }, "-w"); vc(W * k, [&](int q) { return w[q] * k; }, "w*k"); vc(k * W, [&](int q) { return w[q] * k; }, "k*w"); vc((W * 4.0) / 2.0, [&](int q) { return 2 * w[q]; }, "w/k");
	{ auto C = W; C += W2; vc(C, [&](int q) { return w[q] + w2[q]; }, "+="); C = W; C -= W2; vc(C, [&](int q) { return w[q] - w2[q]; }, "-="); C = W; C *= C[i]; vc(C, [&](int q) { return w[q] * w[i]; }, "w *= w[i]"); C = W; double q0 = w[i]; if (q0 == 1 || q0 == -1 || q0 == 2 || q0 == 4 || q0 == -4 || q0 == 8) { C /= C[i]; vc(C, [&](int q) { return w[q] / q0; }, "w /= w[i]"); } C = W; C += C; vc(C, [&](int q) { return 2 * w[q]; }, "w+=w"); C.clear(); vc(C, [&](int) { return 0.0; }, "clear"); CHECK(C.isZero(), "isZero"); CHECK_THROWS(C.at(N), VectorDimensionError, ""); CHECK_THROWS(C.at(-1), VectorDimensionError, ""); CHECK_THROWS((VectorN<Real, N>(std::vector<Real>(N + 1))), VectorDimensionError, "too many elements"); CHECK_THROWS(C.Normalized(), MMLException, "normalise zero"); }
	CHECK((W == W2) == (w == w2) && (W != W2) == (w != w2) && W.IsEqualTo(W), "equality"); CHECK(W.isZero() == (maxAbs(w) == 0), "isZero"); LD l1 = 0, l2 = 0, li = 0; for (double x : w) { l1 += std::fabs(x); l2 += (LD)x * x; li = std::max<LD>(li, std::fabs(x)); } CHECK(W.NormL1() == (double)l1 && W.NormLInf() == (double)li, "norms"); CHECK_NEAR(W.NormL2(), std::sqrt(l2), 1e-14 * std::sqrt(l2), "L2"); if (l2 > 0) { auto nn = W.Normalized(); CHECK_NEAR(nn.NormL2(), 1, 1e-14, "Normalized"); for (int q = 0; q < N; q++) CHECK_NEAR(nn[q] * W.NormL2(), w[q], 1e-13 * W.NormL2(), "direction"); }
	vc(VectorN<Real, N>::UnitVector(i), [&](int q) { return (double)(q == i); }, "UnitVector"); 
}
LAW(fixed_size, 4000, 40000) {
	int k = (int)s.choice(9); c.label("shape" + std::to_string(k)); c.nontrivial(k > 1);
	switch (k) { case 0: return fixedAlg<1, 1, 1>(s, c); case 1: return fixedAlg<2, 2, 2>(s, c); case 2: return fixedAlg<3, 3, 3>(s, c); case 3: return fixedAlg<4, 4, 2>(s, c); case 4: return fixedAlg<2, 3, 4>(s, c); case 5: return fixedAlg<3, 2, 5>(s, c); case 6: return fixedAlg<1, 4, 2>(s, c); case 7: return fixedAlg<4, 1, 3>(s, c); case 8: return fixedAlg<5, 5, 1>(s, c); default: return fixedAlg<6, 4, 3>(s, c); }
}

// ---- inverse
template<class M> void checkInv(const Tab& t, const M& I, const char* what) {
	int n = t.size(); double k = condInf(t); Tab it = mkTab(n, n, [&](int i, int j) { return (double)I(i, j); }); Tab p = mulT(t, it), q = mulT(it, t); double tol = 64.0 * n * n * EPS * k + 1e-14;
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { CHECK_NEAR(p[i][j], (double)(i == j), tol, what << ": (A inv)(" << i << "," << j << ") cond " << k); CHECK_NEAR(q[i][j], (double)(i == j), tol, what << ": (inv A)(" << i << "," << j << ")"); }
}
template<int N> void fixedInv(const Tab& t, bool sing) {
	MatrixNM<Real, N, N> A; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) A(i, j) = t[i][j]; if (sing) { CHECK_THROWS(A.GetInverse(), SingularMatrixError, "fixed-size zero matrix"); return; } auto B = A.GetInverse(); checkInv(t, B, "MatrixNM"); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) CHECK(A(i, j) == t[i][j], "GetInverse changed its object"); auto C = A; C.Invert(); CHECK(C == B, "Invert vs GetInverse");
}
LAW(inverse, 2500, 30000) {
	int n = s.size(1, 10), kind = (int)s.choice(3); Tab t;
	if (kind == 0) t = genInt(s, n, n, 9); else if (kind == 1) t = genReal(s, n, n); else if (kind == 2) { t = mkTab(n, n, [&](int, int) { return s.chance(1, 3) ? (double)s.i(-3, 3) : 0.0; }); for (int i = 0; i < n; i++) t[i][(i + n / 2) % n] += s.nz(1, 4); } else { Tab q = genOrtho(s, n), p = genOrtho(s, n); double lo = s.uni(-6, 0); for (int i = 0; i < n; i++) { double sc = std::pow(10.0, n > 1 ? lo * i / (n - 1) : 0); for (int j = 0; j < n; j++) p[i][j] *= sc; } t = mulT(q, p); }
	double scale = s.chance(1, 4) ? s.pwide(-40, 40) : 1; for (auto& r : t) for (auto& x : r) x *= scale;
	double k = condInf(t); DISCARD_IF(!(k < 1e9)); c.nontrivial(n > 1 && k > 3); c.label("kind" + std::to_string(kind)); c.say([&](auto& o) { o << str(t); });
	Matrix<Real> A = toMat(t); checkInv(t, A.inverse(), "inverse()"); CHECK(toTab(A) == t, "inverse() changed its object"); Matrix<Real> B(A); B.Invert(); checkInv(t, B, "Invert()");
	switch (n) { case 1: fixedInv<1>(t, false); break; case 2: fixedInv<2>(t, false); break; case 3: fixedInv<3>(t, false); break; case 4: fixedInv<4>(t, false); break; case 5: fixedInv<5>(t, false); break; case 7: fixedInv<7>(t, false); break; }
}
// exactly singular with exactly representable elimination: a zero row/column, or two equal rows/columns up to powers of two
LAW(inverse_singular, 1200, 12000) {
	int n = s.size(1, 7), kind = (int)s.choice(3); Tab t = genInt(s, n, n, 9); int i = (int)s.i(0, n - 1), j = (int)s.i(0, n - 1);
	if (kind == 0) for (auto& x : t[i]) x = 0; else if (kind == 1) for (auto& r : t) r[j] = 0; else if (kind == 2) for (auto& r : t) for (auto& x : r) x = 0; else { if (n == 1) t[0][0] = 0; else { int k = (i + 1) % n; for (int q = 0; q < n; q++) t[k][q] = t[i][q] * 2; } }
	c.nontrivial(n > 1); c.label("kind" + std::to_string(kind)); c.say([&](auto& o) { o << str(t); }); Matrix<Real> A = toMat(t);
	if (kind < 3) { CHECK_THROWS((void)A.inverse(), SingularMatrixError, "singular matrix inverted"); if (n == 2) fixedInv<2>(t, true); if (n == 3) fixedInv<3>(t, true); if (n == 1) fixedInv<1>(t, true); if (n == 4) fixedInv<4>(t, true); return; }
	try { Matrix<Real> I = A.inverse(); // rounding may hide the exact singularity; then the result must at least be reported as huge, never as a plausible inverse
		double m = 0; for (auto& x : I) m = std::max(m, std::isfinite(x) ? std::fabs(x) : 0.0); CHECK(m > 1e9, "singular matrix got a moderate inverse, max element " << m); for (auto& x : I) CHECK(std::isfinite(x), "non-finite inverse"); } catch (const SingularMatrixError&) {}
}
LAW(inverse_complex, 600, 8000) {
	int n = s.size(1, 6); Matrix<Complex> A(n, n); double dom = s.real(0.5, 3); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = Complex(s.uni(-1, 1), s.uni(-1, 1)); for (int i = 0; i < n; i++) A(i, (i + 1) % n) += Complex(dom * 2 * n, dom);
	c.nontrivial(n > 1); c.say([&](auto& o) { o << A; }); Matrix<Complex> I = A.inverse(), P = A * I; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK(std::abs(P(i, j) - Complex(i == j)) < 1e-11, "A inv(A) at " << i << "," << j << " = " << P(i, j));
}
// floating-point products stay within the standard error bound
LAW(product_rounding, 600, 8000) {
	int n = s.size(1, 20), m = s.size(1, 20), p = s.size(1, 8); Tab a = mkTab(n, m, [&](int, int) { return s.wide(-8, 8); }), b = mkTab(m, p, [&](int, int) { return s.wide(-8, 8); }); Matrix<Real> A = toMat(a), B = toMat(b), C = A * B; c.nontrivial(m > 2); c.say([&](auto& o) { o << n << "x" << m << "x" << p; });
	for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) { LD q = 0, qa = 0; for (int k = 0; k < m; k++) { q += (LD)a[i][k] * b[k][j]; qa += std::fabs((LD)a[i][k] * b[k][j]); } CHECK_NEAR(C(i, j), q, (double)qa * (m + 2) * EPS, "product (" << i << "," << j << ")"); }
	std::vector<double> v; for (int i = 0; i < m; i++) v.push_back(s.wide(-8, 8)); Vector<Real> V(v), X = A * V; for (int i = 0; i < n; i++) { LD q = 0, qa = 0; for (int k = 0; k < m; k++) { q += (LD)a[i][k] * v[k]; qa += std::fabs((LD)a[i][k] * v[k]); } CHECK_NEAR(X[i], q, (double)qa * (m + 2) * EPS, "A*v"); }
}
