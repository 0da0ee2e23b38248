// C23 tensors of rank 2..5 against explicit index sums; symbols
#include "common.h"
#include "base/Matrix/MatrixNM.h"
#include "base/Tensor.h"
#include "base/BaseUtils.h"
template <int N, class T> static void fill(Src& s, std::vector<double>& v) { bool in = s.b(); for (auto& x : v) x = in ? s.i(-3, 3) : s.uni(-2, 2); }
template <int N> static int ipow(int r) { int p = 1; while (r--) p *= N; return p; }
template <int N> static void unflat(int q, int r, int* ix) { for (int k = r - 1; k >= 0; k--) ix[k] = q % N, q /= N; }
template <int N> static double& el(Tensor2<N>& t, const int* i) { return t(i[0], i[1]); } template <int N> static double& el(Tensor3<N>& t, const int* i) { return t(i[0], i[1], i[2]); } template <int N> static double& el(Tensor4<N>& t, const int* i) { return t(i[0], i[1], i[2], i[3]); } template <int N> static double& el(Tensor5<N>& t, const int* i) { return t(i[0], i[1], i[2], i[3], i[4]); }
template <int N> static double at_(const Tensor2<N>& t, const int* i) { return t.at(i[0], i[1]); } template <int N> static double at_(const Tensor3<N>& t, const int* i) { return t.at(i[0], i[1], i[2]); } template <int N> static double at_(const Tensor4<N>& t, const int* i) { return t.at(i[0], i[1], i[2], i[3]); } template <int N> static double at_(const Tensor5<N>& t, const int* i) { return t.at(i[0], i[1], i[2], i[3], i[4]); }
template <int N> static double call(const Tensor2<N>& t, const VectorN<Real, N>* v) { return t(v[0], v[1]); } template <int N> static double call(const Tensor3<N>& t, const VectorN<Real, N>* v) { return t(v[0], v[1], v[2]); } template <int N> static double call(const Tensor4<N>& t, const VectorN<Real, N>* v) { return t(v[0], v[1], v[2], v[3]); } template <int N> static double call(const Tensor5<N>& t, const VectorN<Real, N>* v) { return t(v[0], v[1], v[2], v[3], v[4]); }
template <int N> static double out(const VectorN<Real, N>& t, const int* i) { return t[i[0]]; } template <int N> static double out(Tensor2<N>& t, const int* i) { return t(i[0], i[1]); } template <int N> static double out(Tensor3<N>& t, const int* i) { return t(i[0], i[1], i[2]); }
template <int N> static void counts(VectorN<Real, N>&, const std::vector<bool>&) {} template <class R> static void counts(R& r, const std::vector<bool>& con) { int nc = 0; for (size_t i = 0; i < con.size(); i++) { nc += con[i]; CHECK(r.IsContravar(i) == con[i] && r.IsCovar(i) == !con[i], "variance of remaining index " << i); } CHECK(r.NumContravar() == nc && r.NumCovar() == (int)con.size() - nc, "index counts after contraction: " << r.NumCovar() << " covariant " << r.NumContravar() << " contravariant"); }
template <int N, int R, class T> static void one(Src& s, Case& c) {
	int nc = s.i(0, R); T t(nc, R - nc); int tot = ipow<N>(R); std::vector<double> v(tot); fill<N, T>(s, v); int ix[5]; c.say([&](auto& o) { o << "rank " << R << " N=" << N << " covariant " << nc << " components " << str(v); }); c.label("rank " + std::to_string(R));
	for (int q = 0; q < tot; q++) { unflat<N>(q, R, ix); el(t, ix) = v[q]; } for (int q = 0; q < tot; q++) { unflat<N>(q, R, ix); const T& ct = t; CHECK(at_(ct, ix) == v[q] && el(t, ix) == v[q], "stored component " << q); }
	CHECK(t.NumCovar() == nc && t.NumContravar() == R - nc, "index counts"); for (int i = 0; i < R; i++) CHECK(t.IsContravar(i) == (i >= nc) && t.IsCovar(i) == (i < nc), "variance of index " << i);
	VectorN<Real, N> a[5], b; double k = s.uni(-2, 2); for (auto& x : a) for (int i = 0; i < N; i++) x[i] = s.chance(1, 4) ? s.i(-1, 1) : s.uni(-2, 2); for (int i = 0; i < N; i++) b[i] = s.uni(-2, 2); LD e = 0, mag = 0; for (int q = 0; q < tot; q++) { unflat<N>(q, R, ix); LD p = v[q]; for (int j = 0; j < R; j++) p *= a[j][ix[j]]; e += p; mag += fabsl(p); } double got = call(t, a); CHECK(fabsl(got - e) <= (tot + 8) * EPS * mag, "value on vectors " << fmt(got) << " exact " << (double)e);
	int sl = s.i(0, R - 1); VectorN<Real, N> keep = a[sl]; a[sl] = keep * k + b; double lin = call(t, a); a[sl] = b; double gb = call(t, a); CHECK(fabsl(lin - (k * (LD)got + gb)) <= 4000 * EPS * (tot + 8) * 250, "not linear in argument " << sl); int bad[5]; unflat<N>(0, R, bad); bad[s.i(0, R - 1)] = s.pick({-1, N, N + 1, -N, 1 << 30}); const T& ct = t; CHECK_THROWS(at_(ct, bad), TensorIndexError, "out-of-range index accepted by at()");
	if constexpr (R == 2) { if (nc == 1) { LD tr = 0, m = 0; for (int i = 0; i < N; i++) tr += v[i * N + i], m += std::fabs(v[i * N + i]); CHECK(fabsl(t.Contract() - tr) <= 8 * EPS * m, "contraction"); } else CHECK_THROWS(t.Contract(), TensorCovarContravarNumError, "contraction of two indices of equal type accepted"); }
	else { int i = s.i(0, R - 1), j = s.i(0, R - 1); if (i == j) CHECK_THROWS(t.Contract(i, j), TensorIndexError, "index contracted with itself"); else { auto r = t.Contract(i, j); int n2 = ipow<N>(R - 2); int rest[3], m = 0; std::vector<bool> con; for (int q = 0; q < R; q++) if (q != i && q != j) { rest[m++] = q; con.push_back(q >= nc); } counts(r, con); for (int q = 0; q < n2; q++) { int ox[5]; unflat<N>(q, R - 2, ox); LD e2 = 0, mg = 0; for (int w = 0; w < N; w++) { int fx[5]; for (int z = 0; z < m; z++) fx[rest[z]] = ox[z]; fx[i] = fx[j] = w; int f = 0; for (int z = 0; z < R; z++) f = f * N + fx[z]; e2 += v[f]; mg += std::fabs(v[f]); } CHECK(fabsl(out<N>(r, ox) - e2) <= 8 * EPS * mg, "contraction of indices " << i << "," << j << " component " << q << ": " << fmt(out<N>(r, ox)) << " exact " << (double)e2); } } int o = s.pick({-1, R, R + 3, -7}); CHECK_THROWS(t.Contract(o, 0), TensorIndexError, "contraction index out of range accepted"); CHECK_THROWS(t.Contract(1, o), TensorIndexError, "contraction index out of range accepted"); }
	int w = s.pick({-1, -2, R + 1, R + 2, -3}); CHECK_THROWS(T(w, R - w), TensorCovarContravarNumError, "constructed with " << w << " covariant and " << R - w << " contravariant indices"); int w2 = s.i(0, R + 2), w3 = s.i(0, R + 2); if (w2 + w3 != R) CHECK_THROWS(T(w2, w3), TensorCovarContravarNumError, "constructed with " << w2 << "+" << w3 << " indices"); c.nontrivial(mag > 0); }
LAW(components_2, 1500, 15000) { if (s.b()) one<3, 2, Tensor2<3>>(s, c); else s.b() ? one<2, 2, Tensor2<2>>(s, c) : one<4, 2, Tensor2<4>>(s, c); }
LAW(components_3, 1500, 15000) { if (s.b()) one<3, 3, Tensor3<3>>(s, c); else s.b() ? one<2, 3, Tensor3<2>>(s, c) : one<4, 3, Tensor3<4>>(s, c); }
LAW(components_4, 1000, 10000) { if (s.b()) one<3, 4, Tensor4<3>>(s, c); else s.b() ? one<2, 4, Tensor4<2>>(s, c) : one<4, 4, Tensor4<4>>(s, c); }
LAW(components_5, 600, 6000) { if (s.b()) one<3, 5, Tensor5<3>>(s, c); else one<2, 5, Tensor5<2>>(s, c); }
LAW(rank2_arithmetic, 1000, 10000) {
	int na = s.i(0, 2), nb = s.chance(2, 3) ? na : s.i(0, 2); Tensor2<3> A(na, 2 - na), B(nb, 2 - nb); double k = s.pick({s.uni(-3, 3), 2.0, -1.0, 0.5}); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A(i, j) = s.uni(-2, 2), B(i, j) = s.i(-4, 4); c.say([&](auto& o) { o << "covariant counts " << na << " " << nb << " scalar " << fmt(k); }); if (na != nb) { CHECK_THROWS(A + B, TensorCovarContravarArithmeticError, "added tensors of different type"); CHECK_THROWS(A - B, TensorCovarContravarArithmeticError, "subtracted tensors of different type"); } else { auto S = A + B, D = A - B; for (auto* T : {&S, &D}) { CHECK(T->NumCovar() == na && T->NumContravar() == 2 - na, "type of a sum"); for (int i = 0; i < 2; i++) CHECK(T->IsContravar(i) == A.IsContravar(i), "variance of a sum"); } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CHECK(S(i, j) == A(i, j) + B(i, j) && D(i, j) == A(i, j) - B(i, j), "sum component " << i << j); }
	auto M = A * k, L = k * A, Q = A / (k == 0 ? 1 : k); for (auto* T : {&M, &L, &Q}) CHECK(T->NumCovar() == na && T->NumContravar() == 2 - na && T->IsContravar(0) == A.IsContravar(0) && T->IsContravar(1) == A.IsContravar(1), "type of a multiple"); auto W = A.GetMatrix(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) CHECK(M(i, j) == A(i, j) * k && L(i, j) == M(i, j) && std::fabs(Q(i, j) * (k == 0 ? 1 : k) - A(i, j)) <= 4e-16 * std::fabs(A(i, j)) + 1e-300 && W(i, j) == A(i, j), "scaled component " << i << j);
	// initializer lists fill row by row, missing values are zero, surplus is rejected
	Tensor2<2> I(1, 1, {1, 2, 3}); CHECK(I(0, 0) == 1 && I(0, 1) == 2 && I(1, 0) == 3 && I(1, 1) == 0, "initializer list of rank 2"); Tensor3<2> J(1, 2, {k, 2, 3, 4, 5, 6, 7}); CHECK(J(0, 0, 0) == k && J(0, 0, 1) == 2 && J(0, 1, 0) == 3 && J(1, 0, 0) == 5 && J(1, 1, 0) == 7 && J(1, 1, 1) == 0, "initializer list of rank 3"); std::initializer_list<Real> five{1, 2, 3, 4, 5}, nine{1, 2, 3, 4, 5, 6, 7, 8, 9}; CHECK_THROWS(Tensor2<2>(1, 1, five), TensorCovarContravarNumError, "too many values"); CHECK_THROWS(Tensor3<2>(1, 2, nine), TensorCovarContravarNumError, "too many values"); int w = s.pick({-1, 3, 4}); CHECK_THROWS(Tensor2<2>(w, 2 - w, five), TensorCovarContravarNumError, "bad index counts"); std::initializer_list<Real> one_{1}; w = s.pick({-1, 4, 5, -2}); CHECK_THROWS(Tensor3<2>(w, 3 - w, one_), TensorCovarContravarNumError, "bad index counts"); c.nontrivial(true); }
LAW(symbols, 600, 3000) { // permutation symbols: parity by counting inversions
	int p[4]; for (int& x : p) x = s.i(1, 4); if (s.chance(2, 3)) for (int i = 0; i < 4; i++) { p[i] = i + 1; } if (p[0] == 1 && p[3] == 4) for (int i = 3; i > 0; i--) std::swap(p[i], p[s.i(0, i)]); c.say([&](auto& o) { o << p[0] << p[1] << p[2] << p[3]; }); auto par = [&](int n, int hi) { int inv = 0; for (int i = 0; i < n; i++) { if (p[i] > hi) return 0; for (int j = i + 1; j < n; j++) { if (p[i] == p[j]) return 0; inv += p[i] > p[j]; } } return inv % 2 ? -1 : 1; }; int e4 = par(4, 4), e3 = par(3, 3); CHECK(Utils::LeviCivita(p[0], p[1], p[2], p[3]) == e4, "four-index symbol"); CHECK(Utils::LeviCivita(p[0], p[1], p[2]) == e3, "three-index symbol"); CHECK(Utils::KroneckerDelta(p[0], p[1]) == (p[0] == p[1]), "delta"); c.nontrivial(e4 != 0 || e3 != 0); }
