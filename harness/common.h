// shared generators and reference helpers
#pragma once
#include <memory>
#include <complex>
#include <array>
#include <map>
#include <set>
#include <fstream>
#include <iostream>
#include <cstring>
#include "pbt.h"
#include "MMLBase.h"
#include "base/Vector/Vector.h"
#include "base/Vector/VectorN.h"
#include "base/Matrix/Matrix.h"
#include "base/Matrix/MatrixNM.h"

using namespace MML;
using pbt::Src; using pbt::Case; using pbt::fmt; using pbt::fmtv; using pbt::fmtm;
typedef long double LD;
typedef std::vector<std::vector<double>> Tab;      // reference matrix

inline const double EPS = 2.220446049250313e-16;

inline Vector<Real> toVec(const std::vector<double>& v) { Vector<Real> r((int)v.size()); for (size_t k = 0; k < v.size(); k++) r[(int)k] = v[k]; return r; }
inline Matrix<Real> toMat(const Tab& t) { int n = (int)t.size(), m = n ? (int)t[0].size() : 0; Matrix<Real> a(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) a(i, j) = t[i][j]; return a; }
template<class M> Tab toTab(const M& a) { Tab t(a.rows(), std::vector<double>(a.cols())); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) t[i][j] = a(i, j); return t; }
template<class F> Tab mkTab(int n, int m, F f) { Tab t(n, std::vector<double>(m)); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) t[i][j] = f(i, j); return t; }

// integer table, entries in [-k,k]
inline Tab genInt(Src& s, int n, int m, int k = 9) { return mkTab(n, m, [&](int, int) { return (double)s.i(-k, k); }); }
inline std::vector<double> genIntV(Src& s, int n, int k = 9) { std::vector<double> v(n); for (auto& x : v) x = (double)s.i(-k, k); return v; }
inline std::vector<double> genRealV(Src& s, int n, double lo = -10, double hi = 10) { std::vector<double> v(n); for (auto& x : v) x = s.real(lo, hi); return v; }
inline Tab genReal(Src& s, int n, int m, double lo = -10, double hi = 10) { return mkTab(n, m, [&](int, int) { return s.real(lo, hi); }); }

inline Tab mulT(const Tab& a, const Tab& b) { int n = a.size(), k = b.size(), m = k ? b[0].size() : 0; return mkTab(n, m, [&](int i, int j) { LD s = 0; for (int l = 0; l < k; l++) s += (LD)a[i][l] * b[l][j]; return (double)s; }); }
inline Tab trT(const Tab& a) { if (a.empty()) return a; return mkTab((int)a[0].size(), (int)a.size(), [&](int i, int j) { return a[j][i]; }); }
inline double maxAbs(const Tab& a) { double m = 0; for (auto& r : a) for (double x : r) m = std::max(m, std::fabs(x)); return m; }
inline double maxAbs(const std::vector<double>& a) { double m = 0; for (double x : a) m = std::max(m, std::fabs(x)); return m; }
inline double frob(const Tab& a) { LD m = 0; for (auto& r : a) for (double x : r) m += (LD)x * x; return (double)std::sqrt(m); }
inline std::string str(const Tab& a) { std::string s = "["; for (size_t i = 0; i < a.size(); i++) { if (i) s += "; "; for (size_t j = 0; j < a[i].size(); j++) { if (j) s += " "; s += fmt(a[i][j]); } } return s + "]"; }
inline std::string str(const std::vector<double>& v) { return fmtv(v, (int)v.size()); }

// random orthogonal matrix: product of Householder reflectors in long double
inline Tab genOrtho(Src& s, int n) {
	std::vector<std::vector<LD>> q(n, std::vector<LD>(n, 0)); for (int i = 0; i < n; i++) q[i][i] = 1;
	int k = n == 1 ? 1 : std::min(n, 3);
	for (int r = 0; r < k; r++) {
		std::vector<LD> v(n); LD nn = 0; for (auto& x : v) { x = s.uni(-1, 1); nn += x * x; }
		if (nn < 1e-3L) { for (auto& x : v) x = 0; v[0] = 1; nn = 1; }
		for (int j = 0; j < n; j++) { LD d = 0; for (int i = 0; i < n; i++) d += v[i] * q[i][j]; d *= 2 / nn; for (int i = 0; i < n; i++) q[i][j] -= d * v[i]; }
	}
	return mkTab(n, n, [&](int i, int j) { return (double)q[i][j]; });
}
// exact determinant of an integer matrix by fraction-free elimination (Bareiss) in __int128
inline __int128 detInt(const Tab& t) {
	int n = t.size(); std::vector<std::vector<__int128>> a(n, std::vector<__int128>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = (long long)t[i][j];
	__int128 prev = 1; int sg = 1;
	for (int k = 0; k < n - 1; k++) {
		if (a[k][k] == 0) { int p = k + 1; while (p < n && a[p][k] == 0) p++; if (p == n) return 0; std::swap(a[k], a[p]); sg = -sg; }
		for (int i = k + 1; i < n; i++) for (int j = k + 1; j < n; j++) a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev;
		prev = a[k][k];
	}
	return n == 0 ? 1 : sg * a[n - 1][n - 1];
}
// rank of an integer matrix, exact over rationals via modular elimination with two primes
inline int rankInt(const Tab& t) {
	auto rk = [&](long long p) { std::vector<std::vector<long long>> a; for (auto& r : t) { std::vector<long long> v; for (double x : r) v.push_back((((long long)x % p) + p) % p); a.push_back(v); }
		auto pw = [&](long long b, long long e) { __int128 r = 1, x = b; while (e) { if (e & 1) r = r * x % p; x = x * x % p; e >>= 1; } return (long long)r; };
		int n = a.size(), m = n ? a[0].size() : 0, r = 0; for (int c = 0; c < m && r < n; c++) { int q = r; while (q < n && a[q][c] == 0) q++; if (q == n) continue; std::swap(a[q], a[r]); long long iv = pw(a[r][c], p - 2); for (int i = r + 1; i < n; i++) { long long f = (long long)((__int128)a[i][c] * iv % p); if (f) for (int j = c; j < m; j++) a[i][j] = ((a[i][j] - (long long)((__int128)f * a[r][j] % p)) % p + p) % p; } r++; } return r; };
	return std::max(rk(2305843009213693951LL), rk(1000000007LL));
}
// inverse in long double by Gauss-Jordan with full pivoting; returns false when numerically singular
inline bool invLD(const Tab& t, std::vector<std::vector<LD>>& inv) {
	int n = t.size(); std::vector<std::vector<LD>> a(n, std::vector<LD>(2 * n, 0)); std::vector<int> perm(n);
	LD mx = 0; for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) { a[i][j] = t[i][j]; mx = std::max(mx, std::fabs(a[i][j])); } a[i][n + i] = 1; }
	for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i; if (std::fabs(a[p][k]) <= mx * 1e-17L) return false; std::swap(a[p], a[k]); LD d = a[k][k]; for (auto& x : a[k]) x /= d; for (int i = 0; i < n; i++) if (i != k) { LD f = a[i][k]; if (f != 0) for (int j = 0; j < 2 * n; j++) a[i][j] -= f * a[k][j]; } }
	inv.assign(n, std::vector<LD>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) inv[i][j] = a[i][n + j]; return true;
}
inline double normInf(const Tab& a) { double m = 0; for (auto& r : a) { double q = 0; for (double x : r) q += std::fabs(x); m = std::max(m, q); } return m; }
// condition number estimate in the infinity norm (long double), inf when singular
inline double condInf(const Tab& t) { std::vector<std::vector<LD>> iv; if (t.empty()) return 1; if (!invLD(t, iv)) return INFINITY; LD m = 0; for (auto& r : iv) { LD q = 0; for (LD x : r) q += std::fabs(x); m = std::max(m, q); } return (double)m * normInf(t); }
