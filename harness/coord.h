// shared oracle for coordinate transformations: exact maps and Jacobians against every entry point
#pragma once
#include "common.h"
#include "interfaces/IFunction.h"
#include "interfaces/ITensorField.h"
#include "base/Quaternions.h"
#include "core/CoordTransf.h"
#include "core/CoordTransf/CoordTransf2D.h"
#include "core/CoordTransf/CoordTransf3D.h"
#include "core/CoordTransf/CoordTransfCylindrical.h"
#include "core/CoordTransf/CoordTransfSpherical.h"
#include "core/CoordSystem.h"
#include <array>
#include <set>
template <int N> using P = std::array<double, N>; template <int N> using J = std::array<std::array<LD, N>, N>;
template <int N> static std::string ps(const P<N>& p) { std::ostringstream o; o << "("; for (double v : p) o << fmt(v) << " "; o << ")"; return o.str(); }
template <class V, int N> static V mk(const P<N>& p) { V v; for (int i = 0; i < N; i++) v[i] = p[i]; return v; }
template <class V, class W> static V cv_(const W& w) { V v; for (int i = 0; i < w.size(); i++) v[i] = w[i]; return v; }
#define NR(v, ex, tol, msg) do { double _v = (v); LD _e = (ex), _t = (tol); if (!(fabsl(_v - _e) <= _t)) { std::ostringstream _o; _o << msg << ": " << fmt(_v) << " exact " << fmt((double)_e) << " tol " << (double)_t; pbt::fail(_o.str()); } } while (0)
// x: source point, y: its image, Jm = dy/dx and K = dx/dy exact; da = round-off amplification of the derivative rules
template <class F, class T, int N, class C> static void check(Src& s, C& t, const P<N>& xs, const P<N>& ys, const J<N>& Jm, const J<N>& K, double dtol, bool tensors = true, bool angleWrap = true) {
	(void)angleWrap; F x = mk<F, N>(xs); T y = mk<T, N>(ys); LD sx = 0, sy = 0, sj = 0, sk = 0; for (int i = 0; i < N; i++) { sx = std::max<LD>(sx, std::fabs(xs[i])); sy = std::max<LD>(sy, std::fabs(ys[i])); for (int j = 0; j < N; j++) { sj = std::max(sj, fabsl(Jm[i][j])); sk = std::max(sk, fabsl(K[i][j])); } }
	LD tf = 40 * EPS * (sy + sj * sx + 1e-300L), tb = 40 * EPS * (sx + sk * sy); T Y = t.transf(x); F X = t.transfInverse(y); VectorN<Real, N> op = t(VectorN<Real, N>(x));
	for (int i = 0; i < N; i++) { NR(Y[i], ys[i], tf, "transf component " << i); NR(X[i], xs[i], tb, "inverse component " << i); NR(t.coordTransfFunc(i)(x), Y[i], tf, "coordTransfFunc " << i); NR(t.inverseCoordTransfFunc(i)(y), X[i], tb, "inverseCoordTransfFunc " << i); NR(op[i], Y[i], tf, "operator() " << i); }
	F rt = t.transfInverse(Y); T rf = t.transf(X); for (int i = 0; i < N; i++) { NR(rt[i], xs[i], tb + sk * tf * N, "round trip " << i); NR(rf[i], ys[i], tf + sj * tb * N, "reverse round trip " << i); }
	LD dj = dtol * (sj + 1e-3L * sy + 1e-3L), dk = dtol * (sk + 1e-3L * sx + 1e-3L), dkx = dk + 1e-9L * (sx + sy * sk); auto Jn = t.jacobian(x); VectorN<Real, N> v, w; for (int i = 0; i < N; i++) v[i] = s.uni(-2, 2), w[i] = s.uni(-2, 2); LD vm = 2 * N;
	for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) NR(Jn(i, j), Jm[i][j], dj, "jacobian " << i << j);
	for (int k = 0; k < N; k++) { T b = t.getBasisVec(k, x); F ib = t.getInverseBasisVec(k, x); F cb = t.getContravarBasisVec(k, y); T icb = t.getInverseContravarBasisVec(k, y); for (int i = 0; i < N; i++) { NR(b[i], Jm[i][k], dj, "basis vector " << k << " component " << i); NR(ib[i], Jm[k][i], dj, "inverse basis vector " << k << " component " << i); NR(cb[i], K[k][i], dk, "contravariant basis vector " << k << i); NR(icb[i], K[i][k], dk, "inverse contravariant basis vector " << k << i); } }
	T cv = t.transfVecContravariant(cv_<F>(v), x); F icov = t.transfInverseVecCovariant(cv_<T>(w), x); T co = t.transfVecCovariant(cv_<F>(v), y); F ict = t.transfInverseVecContravariant(cv_<T>(w), y);
	for (int i = 0; i < N; i++) { LD a = 0, b = 0, g = 0, d = 0; for (int j = 0; j < N; j++) { a += Jm[i][j] * v[j]; b += Jm[j][i] * w[j]; g += K[j][i] * v[j]; d += K[i][j] * w[j]; } NR(cv[i], a, dj * vm, "contravariant transform " << i); NR(icov[i], b, dj * vm, "inverse covariant transform " << i); NR(co[i], g, dk * vm, "covariant transform " << i); NR(ict[i], d, dkx * vm, "inverse contravariant transform " << i); }
	{ LD a = 0, b = 0; T co2 = t.transfVecCovariant(cv_<F>(w), y); for (int i = 0; i < N; i++) a += (LD)co2[i] * cv[i], b += (LD)w[i] * v[i]; NR((double)a, b, (dj * sk + dk * sj) * 4 * vm * vm + dj * dk * 100, "contraction of a covariant with a contravariant vector"); }
	if (!tensors) return; auto co_ = [&](bool con, int i, int k) { return con ? Jm[i][k] : K[k][i]; }; LD sc = std::max(sj, sk), dd = std::max(dj, dk);
	{ int nc = s.i(0, 2); Tensor2<N> A(nc, 2 - nc); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) A(i, j) = (double)s.i(-3, 3); auto B = t.transfTensor2(A, x); CHECK(B.NumCovar() == nc && B.NumContravar() == 2 - nc, "transformed tensor has " << B.NumCovar() << " covariant indices, expected " << nc); for (int i = 0; i < 2; i++) CHECK(B.IsContravar(i) == A.IsContravar(i), "index " << i << " changes type"); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { LD e = 0; for (int k = 0; k < N; k++) for (int l = 0; l < N; l++) e += co_(A.IsContravar(0), i, k) * co_(A.IsContravar(1), j, l) * A(k, l); NR(B(i, j), e, dd * sc * 3 * 2 * N * N, "tensor2 " << i << j << " covariant indices " << nc); } }
	{ int nc = s.i(0, 3); Tensor3<N> A(nc, 3 - nc); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) A(i, j, k) = (double)s.i(-3, 3); auto B = t.transfTensor3(A, x); CHECK(B.NumCovar() == nc, "tensor3 variance"); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) { LD e = 0; for (int l = 0; l < N; l++) for (int m = 0; m < N; m++) for (int n = 0; n < N; n++) e += co_(A.IsContravar(0), i, l) * co_(A.IsContravar(1), j, m) * co_(A.IsContravar(2), k, n) * A(l, m, n); NR(B(i, j, k), e, dd * sc * sc * 3 * 3 * N * N * N, "tensor3 " << i << j << k << " covariant indices " << nc); } }
	if (s.chance(1, 3)) { int nc = s.i(0, 4); Tensor4<N> A(nc, 4 - nc); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) for (int l = 0; l < N; l++) A(i, j, k, l) = (double)s.i(-3, 3); auto B = t.transfTensor4(A, x); CHECK(B.NumCovar() == nc, "tensor4 variance"); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) for (int o = 0; o < N; o++) { LD e = 0; for (int l = 0; l < N; l++) for (int m = 0; m < N; m++) for (int n = 0; n < N; n++) for (int p = 0; p < N; p++) e += co_(A.IsContravar(0), i, l) * co_(A.IsContravar(1), j, m) * co_(A.IsContravar(2), k, n) * co_(A.IsContravar(3), o, p) * A(l, m, n, p); NR(B(i, j, k, o), e, dd * sc * sc * sc * 3 * 4 * N * N * N * N, "tensor4 covariant indices " << nc); } }
	if (N == 2 && s.chance(1, 2)) { int nc = s.i(0, 5); Tensor5<N> A(nc, 5 - nc); auto ix = [](int q, int b) { return q >> b & 1; }; for (int q = 0; q < 32; q++) A(ix(q, 4), ix(q, 3), ix(q, 2), ix(q, 1), ix(q, 0)) = (double)s.i(-3, 3); auto B = t.transfTensor5(A, x); CHECK(B.NumCovar() == nc, "tensor5 variance"); for (int q = 0; q < 32; q++) { LD e = 0; for (int r = 0; r < 32; r++) { LD p = A(ix(r, 4), ix(r, 3), ix(r, 2), ix(r, 1), ix(r, 0)); for (int b = 0; b < 5; b++) p *= co_(A.IsContravar(b), ix(q, 4 - b), ix(r, 4 - b)); e += p; } NR(B(ix(q, 4), ix(q, 3), ix(q, 2), ix(q, 1), ix(q, 0)), e, dd * sc * sc * sc * sc * 3 * 5 * 32, "tensor5 covariant indices " << nc); } } }
template <int N> static J<N> inv(const J<N>& A) { std::vector<std::vector<LD>> m(N, std::vector<LD>(2 * N, 0)); for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) m[i][j] = A[i][j]; m[i][N + i] = 1; } for (int c = 0; c < N; c++) { int p = c; for (int r = c; r < N; r++) if (fabsl(m[r][c]) > fabsl(m[p][c])) p = r; std::swap(m[c], m[p]); for (int r = 0; r < N; r++) if (r != c) { LD f = m[r][c] / m[c][c]; for (int k = 0; k < 2 * N; k++) m[r][k] -= f * m[c][k]; } } J<N> R; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) R[i][j] = m[i][N + j] / m[i][i]; return R; }
template <int N> static P<N> app(const J<N>& A, const P<N>& x) { P<N> y; for (int i = 0; i < N; i++) { LD t = 0; for (int j = 0; j < N; j++) t += A[i][j] * x[j]; y[i] = (double)t; } return y; }
