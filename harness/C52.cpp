// C52: the linear-system facade against exact constructions, for every call order
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "base/Matrix/Matrix.h"
#include "systems/LinearSystem.h"
using namespace MML::Systems; typedef std::vector<LD> W; typedef std::vector<W> WM; typedef Matrix<Real> M; typedef Vector<Real> Vc;
static std::string sm(const M& A) { std::ostringstream o; o << A.rows() << "x" << A.cols() << ":"; for (int i = 0; i < A.rows(); i++) { for (int j = 0; j < A.cols(); j++) o << " " << fmt(A(i, j)); o << ";"; } return o.str(); }
static std::string svc(const Vc& v) { std::ostringstream o; for (int i = 0; i < v.size(); i++) o << " " << fmt(v[i]); return o.str(); }
// exact rank and determinant of an integer matrix (fraction-free elimination)
static int irank(const M& A, LD* det = nullptr) { int m = A.rows(), n = A.cols(); std::vector<std::vector<__int128>> B(m, std::vector<__int128>(n)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) B[i][j] = (__int128)A(i, j); int r = 0; __int128 prev = 1; int sg = 1; for (int c = 0; c < n && r < m; c++) { int p = -1; for (int i = r; i < m; i++) if (B[i][c] != 0) { p = i; break; } if (p < 0) continue; if (p != r) { std::swap(B[p], B[r]); sg = -sg; } for (int i = r + 1; i < m; i++) { for (int j = c + 1; j < n; j++) B[i][j] = (B[i][j] * B[r][c] - B[i][c] * B[r][j]) / prev; B[i][c] = 0; } prev = B[r][c]; r++; } if (det) *det = m == n && r == n ? sg * (LD)prev : 0; return r; }
static M genFac(Src& s, int m, int n, int kind) { M A(m, n); auto e = [&]() { return (double)s.i(-5, 5); }; switch (kind) {
  case 0: for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = e(); break;
  case 1: { int r = (int)s.i(1, std::max(1, std::min(m, n) - 1)); M P(m, r), Q(r, n); for (int i = 0; i < m; i++) for (int k = 0; k < r; k++) P(i, k) = (double)s.i(-3, 3); for (int k = 0; k < r; k++) for (int j = 0; j < n; j++) Q(k, j) = (double)s.i(-3, 3); A = P * Q; break; }
  case 2: for (int i = 0; i < m; i++) for (int j = i; j < n; j++) A(i, j) = e(); break;
  case 3: for (int i = 0; i < m; i++) for (int j = 0; j <= std::min(i, n - 1); j++) A(i, j) = e(); break;
  case 4: for (int i = 0; i < std::min(m, n); i++) A(i, i) = e(); break;
  case 5: for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = i < n && j < m && j < i ? A(j, i) : e(); break;
  case 6: { M P(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) P(i, j) = (double)s.i(-2, 2); M R(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double v = i == j ? 1 : 0; if (i < n) for (int k = 0; k < n; k++) v += P(i, k) * P(j, k); R(i, j) = v; } A = R; break; }
  default: for (int i = 0; i < m; i++) { double q = 0; for (int j = 0; j < n; j++) if (j != i) { A(i, j) = (double)s.i(-3, 3); q += std::fabs(A(i, j)); } if (i < n) A(i, i) = (q + 1 + (double)s.i(0, 3)) * (s.b() ? 1 : -1); } } return A; }
static LD sig(const M& A, bool smallest, int r) { // singular values from the Gram matrix in long double (Jacobi); r-th largest
  int m = A.rows(), n = A.cols(); WM B(n, W(m)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) B[j][i] = A(i, j); for (int sw = 0; sw < 60; sw++) { LD off = 0; for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) { LD a = 0, b = 0, g = 0; for (int i = 0; i < m; i++) { a += B[p][i] * B[p][i]; b += B[q][i] * B[q][i]; g += B[p][i] * B[q][i]; } if (fabsl(g) <= 1e-19L * sqrtl(a * b) || g == 0) continue; off += fabsl(g); LD z = (b - a) / (2 * g), t = (z >= 0 ? 1 : -1) / (fabsl(z) + sqrtl(1 + z * z)), c = 1 / sqrtl(1 + t * t), s = c * t; for (int i = 0; i < m; i++) { LD x = B[p][i], y = B[q][i]; B[p][i] = c * x - s * y; B[q][i] = s * x + c * y; } } if (off == 0) break; } W v; for (auto& col : B) { LD t = 0; for (LD x : col) t += x * x; v.push_back(sqrtl(t)); } std::sort(v.rbegin(), v.rend()); return smallest ? v[r - 1] : v[0]; }
static LD resid(const M& A, const Vc& x, const Vc& b) { LD r = 0; for (int i = 0; i < A.rows(); i++) { LD t = -(LD)b[i]; for (int j = 0; j < A.cols(); j++) t += (LD)A(i, j) * x[j]; r += t * t; } return sqrtl(r); }
static LD nr(const Vc& x) { LD r = 0; for (int i = 0; i < x.size(); i++) r += (LD)x[i] * x[i]; return sqrtl(r); }

LAW(solves, 5000, 120000) {
  int kind = (int)s.i(0, 7), shape = (int)s.i(0, 3), n = (int)s.i(1, 6), m = shape == 0 ? n + (int)s.i(1, 3) : shape == 1 && n > 1 ? (int)s.i(1, n - 1) : n; M A = genFac(s, m, n, kind); double sc = s.chance(1, 3) ? std::pow(2.0, (double)s.i(-60, 60)) : 1; int rank = irank(A); Vc x0(n), b(m); for (int i = 0; i < n; i++) x0[i] = (double)s.i(-5, 5); for (int i = 0; i < m; i++) { double t = 0; for (int j = 0; j < n; j++) t += A(i, j) * x0[j]; b[i] = t * sc; } bool cons = !(m > n && s.chance(1, 3)); if (!cons) for (int i = 0; i < m; i++) b[i] += sc * (double)s.i(-3, 3);
  M B(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) B(i, j) = A(i, j) * sc; c.nontrivial(n > 1 && rank > 0); c.label(m == n ? rank == n ? "square" : "singular" : m > n ? rank == n ? "tall" : "tall deficient" : "wide"); c.say([&](auto& o) { o << sm(A) << " scaled by " << fmt(sc) << " x" << svc(x0) << (cons ? "" : " inconsistent"); }); DISCARD_IF(rank == 0);
  LinearSystem<Real> L(B, b); LD s1 = sig(A, false, 1), sr = sig(A, true, rank), cond = s1 / sr; DISCARD_IF(cond > 1e7L); Vc x = L.Solve(); CHECK(x.size() == n, "solution size"); for (int i = 0; i < n; i++) CHECK(std::isfinite(x[i]), "solution contains " << x[i]); LD xs = nr(x), tol = 1e-11L * (1 + cond) * (1 + s1) * (1 + xs + nr(x0)) * sc;
  if (cons) CHECK(resid(B, x, b) <= tol, "residual " << (double)(resid(B, x, b) / sc) << " of a consistent system (rank " << rank << ")"); if (cons && rank == n) for (int i = 0; i < n; i++) CHECK_NEAR((LD)x[i], (LD)x0[i], 1e-11L * (1 + cond) * (cond + 1) * (1 + nr(x0)), "solution component " << i);
  if (!cons) for (int j = 0; j < n; j++) { LD g = 0; for (int i = 0; i < m; i++) { LD t = -(LD)b[i]; for (int k = 0; k < n; k++) t += (LD)B(i, k) * x[k]; g += t * B(i, j); } CHECK(fabsl(g) <= tol * (1 + s1) * sc * 100, "normal equations violated by " << (double)g); }
  if (rank < n) { // minimum norm: orthogonal to the null space
    Vc pm = L.SolveBySVD(); CHECK(nr(pm) <= nr(x0) * (1 + 1e-9L * cond) + 1e-9L || !cons, "SVD solution is longer than a known solution"); if (cons) CHECK(resid(B, pm, b) <= tol, "SVD residual"); }
  CHECK_NEAR((LD)L.ResidualNorm(x), resid(B, x, b), 1e-13L * (1 + s1) * (1 + xs) * sc * n + 1e-15L * nr(b), "residual norm"); LD bn = nr(b); if (bn > 1e-10L) { CHECK_NEAR((LD)L.RelativeResidual(x), resid(B, x, b) / bn, 1e-12L * (1 + s1) * (1 + xs) * n * sc / bn + 1e-14L, "relative residual"); if (m >= n && rank == n) { auto V = L.Verify(x0, 1e-8); CHECK(V.isAccurate == (resid(B, x0, b) / bn < 1e-8L) && V.absoluteResidual == L.ResidualNorm(x0), "verification of the known solution"); } }
  if (m == n && rank == n) { LD t2 = 1e-10L * (1 + cond) * (1 + cond) * (1 + nr(x0)); Vc y[3] = {L.SolveByLU(), L.SolveByGaussJordan(), L.SolveByQR()}; for (auto& v : y) for (int i = 0; i < n; i++) CHECK_NEAR((LD)v[i], (LD)x0[i], t2, "solver variant, component " << i); Vc z = L.SolveBySVD(); for (int i = 0; i < n; i++) CHECK_NEAR((LD)z[i], (LD)x0[i], t2, "SVD component " << i); if (kind == 6 && sc > 1e-4) { Vc w = L.SolveByCholesky(); for (int i = 0; i < n; i++) CHECK_NEAR((LD)w[i], (LD)x0[i], t2, "Cholesky component " << i); } if (kind == 7) for (auto me : {IterativeMethod::Auto, IterativeMethod::Jacobi, IterativeMethod::GaussSeidel}) { if (sc != 1) break; Vc w = L.SolveIterative(me, 1e-12, 5000); for (int i = 0; i < n; i++) CHECK_NEAR((LD)w[i], (LD)x0[i], 1e-8L * (1 + cond) * (1 + nr(x0)), "iterative component " << i); } }
  if (m > n && rank == n) { Vc w = L.SolveLeastSquares(); for (int i = 0; i < n; i++) CHECK_NEAR((LD)w[i], (LD)x[i], 1e-10L * (1 + cond) * (1 + cond) * (1 + xs + nr(b) / sc), "least squares"); }
  int p = (int)s.i(1, 3); if (m == n && rank == n) { M X0(n, p), R(n, p); for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) X0(i, j) = (double)s.i(-4, 4); R = B * X0; LinearSystem<Real> Q(B, R); M X = Q.SolveMultiple(); for (int i = 0; i < n; i++) for (int j = 0; j < p; j++) CHECK_NEAR((LD)X(i, j), (LD)X0(i, j), 1e-10L * (1 + cond) * (1 + cond) * 10, "column " << j << " of the multiple solution"); bool threw = false; try { Q.Solve(); } catch (const std::exception&) { threw = true; } CHECK(threw, "single solve of a multiple right-hand side"); CHECK_THROWS(L.SolveMultiple(), std::exception, "multiple solve without a matrix"); } }

LAW(analysis, 4000, 90000) {
  int kind = (int)s.i(0, 7), n = (int)s.i(1, 6), m = s.chance(1, 3) ? (int)s.i(1, 7) : n; M A = genFac(s, m, n, kind); LD det; int rank = irank(A, &det), k = std::min(m, n); c.nontrivial(k > 1); c.label(m == n ? rank == n ? "regular" : "singular" : "rectangular"); c.say([&](auto& o) { o << sm(A); }); DISCARD_IF(rank == 0); LinearSystem<Real> L(A); LD s1 = sig(A, false, 1), sr = sig(A, true, rank); DISCARD_IF(s1 / sr > 1e7L);
  bool sym = m == n, dd = m == n, up = true, lo = true; int zeros = 0; for (int i = 0; i < m; i++) { double q = 0; for (int j = 0; j < n; j++) { if (sym && A(i, j) != A(j, i)) sym = false; if (j < i && A(i, j) != 0) up = false; if (j > i && A(i, j) != 0) lo = false; zeros += A(i, j) == 0; if (j != i) q += std::fabs(A(i, j)); } if (m == n && std::fabs(A(i, i)) <= q) dd = false; }
  bool pd = sym; if (sym) for (int q = 1; q <= n && pd; q++) { M P(q, q); for (int i = 0; i < q; i++) for (int j = 0; j < q; j++) P(i, j) = A(i, j); LD d; irank(P, &d); if (d <= 0) pd = false; }
  auto R = L.Analyze(); CHECK(R.rows == m && R.cols == n && R.isSquare == (m == n) && R.isOverdetermined == (m > n) && R.isUnderdetermined == (m < n), "shape"); CHECK(L.rows() == m && L.cols() == n && L.isSquare() == (m == n) && L.isOverdetermined() == (m > n) && L.isUnderdetermined() == (m < n), "shape queries");
  CHECK(R.isSymmetric == sym && L.isSymmetric() == sym, "symmetric " << R.isSymmetric); bool edge = sym && rank < n; /* semidefinite: decided by rounding */ CHECK(edge || (R.isPositiveDefinite == pd && L.isPositiveDefinite() == pd), "positive definite " << R.isPositiveDefinite << " expected " << pd); CHECK(R.isDiagonallyDominant == dd, "diagonally dominant"); CHECK(R.isUpperTriangular == up && R.isLowerTriangular == lo && R.isDiagonal == (up && lo), "triangular structure"); CHECK_NEAR((double)R.sparsity, zeros / (double)(m * n), 1e-14, "sparsity");
  CHECK(R.rank == rank && L.Rank() == rank, "rank " << R.rank << " expected " << rank); CHECK(R.nullity == n - rank && L.Nullity() == n - rank, "nullity"); if (m == n) { CHECK_NEAR((LD)R.determinant, det, 1e-11L * (1 + powl(s1, n)), "determinant in the analysis"); if (rank == n) CHECK_NEAR((LD)L.Determinant(), det, 1e-11L * powl(1 + s1, n), "determinant"); } else CHECK_THROWS(L.Determinant(), MatrixDimensionError, "determinant of a rectangular matrix");
  if (m >= n) { if (rank == n) { LD cd = s1 / sr; CHECK_NEAR((LD)R.conditionNumber, cd, 1e-9L * cd * cd, "condition number"); if (fabsl(cd - 1e4L) > 1) CHECK(R.stability == (cd < 1e4L ? MatrixStability::WellConditioned : MatrixStability::ModeratelyConditioned), "stability class"); CHECK(std::fabs(R.expectedDigitsLost - std::floor(std::log10((double)cd))) <= (std::fabs(std::log10((double)cd) - std::round(std::log10((double)cd))) < 1e-6 ? 1 : 0), "digits lost " << R.expectedDigitsLost); } else CHECK(R.conditionNumber > 1e10 && R.stability == MatrixStability::Singular, "condition of a rank-deficient matrix " << R.conditionNumber); CHECK(R.hasUniqueSolution == (rank == n), "unique solution"); } else CHECK(!R.hasUniqueSolution && R.hasInfiniteSolutions, "wide system");
  if (m == n) CHECK(R.hasInfiniteSolutions == (rank < n), "infinite solutions"); CHECK(!R.analysisReport.empty() && R.analysisReport.find("Recommended solver: " + R.recommendedSolver) != std::string::npos, "report"); std::string w = R.recommendedSolver; if (w == "Cholesky") CHECK(pd, "Cholesky recommended for a matrix that is not positive definite"); if (w == "Triangular") CHECK(m == n && (up || lo) && rank == n, "triangular solver recommended"); if (w == "LU") CHECK(m == n && rank == n, "LU recommended for rank " << rank); if (m == n && rank < n) CHECK(w == "SVD", w << " recommended for a singular matrix"); if (pd && !up && !lo) CHECK(w == "Cholesky", w << " recommended for a positive definite matrix");
  if (m == n && rank == n) { LD n1 = 0, ni = 0; M I = L.Inverse(); LD i1 = 0, ii = 0; for (int i = 0; i < n; i++) { LD a = 0, bb = 0, d = 0, e = 0; for (int j = 0; j < n; j++) { a += fabsl(A(i, j)); bb += fabsl(A(j, i)); d += fabsl(I(i, j)); e += fabsl(I(j, i)); } ni = std::max(ni, a); n1 = std::max(n1, bb); ii = std::max(ii, d); i1 = std::max(i1, e); } LD cd = s1 / sr; CHECK_NEAR((LD)L.ConditionNumber1(), n1 * i1, 1e-10L * cd * cd, "1-norm condition"); CHECK_NEAR((LD)L.ConditionNumberInf(), ni * ii, 1e-10L * cd * cd, "infinity-norm condition"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { LD t = 0; for (int q = 0; q < n; q++) t += (LD)A(i, q) * I(q, j); CHECK_NEAR(t, (LD)(i == j), 1e-11L * (1 + cd) * cd, "inverse"); } } else if (m == n) { CHECK(L.ConditionNumber1() > 1e10, "1-norm condition of a singular matrix"); }
  // tolerance-dependent answers in any order
  M P(A); if (m == n && n > 1) { double e = 1e-3; P(0, n - 1) += e; LinearSystem<Real> Q(P); bool first = s.b(); if (first) Q.isSymmetric(1.0); CHECK(!sym || !Q.isSymmetric(1e-6), "asymmetry of 1e-3 missed at tolerance 1e-6"); if (sym) CHECK(Q.isSymmetric(1e-2), "asymmetry of 1e-3 not tolerated at 1e-2"); } }

LAW(spaces, 2500, 50000) {
  int n = (int)s.i(1, 6), m = s.chance(1, 2) ? n : (int)s.i(1, 7); M A = genFac(s, m, n, s.b() ? 1 : 0); int rank = irank(A); DISCARD_IF(rank == 0); c.nontrivial(rank < n); c.say([&](auto& o) { o << sm(A) << " rank " << rank; }); LD s1 = sig(A, false, 1), sr = sig(A, true, rank); DISCARD_IF(s1 / sr > 1e6L); LinearSystem<Real> L(A); LD cd = s1 / sr;
  auto orth = [&](const M& Q, const char* w) { for (int a = 0; a < Q.cols(); a++) for (int b = 0; b < Q.cols(); b++) { LD t = 0; for (int i = 0; i < Q.rows(); i++) t += (LD)Q(i, a) * Q(i, b); CHECK_NEAR(t, (LD)(a == b), 1e-10L, w << " basis not orthonormal"); } }; M N = L.NullSpace(); if (rank < n) { CHECK(N.rows() == n && N.cols() == n - rank, "null space is " << N.rows() << "x" << N.cols()); orth(N, "null space"); for (int k = 0; k < N.cols(); k++) for (int i = 0; i < m; i++) { LD t = 0; for (int j = 0; j < n; j++) t += (LD)A(i, j) * N(j, k); CHECK(fabsl(t) <= 1e-10L * s1, "null vector is not mapped to zero: " << (double)t); } } else CHECK(N.cols() == 0 || N.rows() == 0, "null space of a full-rank matrix");
  M C = L.ColumnSpace(); CHECK(C.rows() == m && C.cols() == rank, "column space is " << C.rows() << "x" << C.cols()); orth(C, "column space"); for (int j = 0; j < n; j++) { W v(m); LD nn = 0; for (int i = 0; i < m; i++) v[i] = A(i, j); for (int k = 0; k < rank; k++) { LD t = 0; for (int i = 0; i < m; i++) t += (LD)C(i, k) * A(i, j); for (int i = 0; i < m; i++) v[i] -= t * C(i, k); } for (LD q : v) nn += q * q; CHECK(sqrtl(nn) <= 1e-10L * s1, "column " << j << " outside the column space"); }
  M P = L.PseudoInverse(); CHECK(P.rows() == n && P.cols() == m, "pseudo-inverse shape"); M AP = A * P, PA = P * A, T = AP * A, U = PA * P; LD t1 = 1e-11L * (1 + cd) * (1 + s1), t2 = 1e-11L * (1 + cd) * (1 + 1 / sr); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) CHECK_NEAR((LD)T(i, j), (LD)A(i, j), t1 * 10, "A P A = A"); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) CHECK_NEAR((LD)U(i, j), (LD)P(i, j), t2 * 10, "P A P = P"); for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) CHECK_NEAR((LD)AP(i, j), (LD)AP(j, i), t1, "A P symmetric"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK_NEAR((LD)PA(i, j), (LD)PA(j, i), t1, "P A symmetric"); }

LAW(decompositions, 2500, 50000) {
  int n = (int)s.i(1, 6), m = s.chance(1, 3) ? n + (int)s.i(0, 3) : n; M A = genFac(s, m, n, (int)s.i(0, 7)); LD det; int rank = irank(A, &det); DISCARD_IF(rank == 0); c.nontrivial(n > 1); c.say([&](auto& o) { o << sm(A); }); LD s1 = sig(A, false, 1), sr = sig(A, true, rank); DISCARD_IF(s1 / sr > 1e7L); LinearSystem<Real> L(A); std::vector<int> ord = {0, 1, 2, 3, 0, 1, 2, 3}; for (size_t i = ord.size() - 1; i > 0; i--) std::swap(ord[i], ord[s.choice(i)]); LD tol = 1e-12L * (1 + s1) * n;
  for (int w : ord) { if (w == 0) { auto D = L.GetLU(); if (m != n || rank < n) { if (m != n) CHECK(!D.valid, "LU of a rectangular matrix"); continue; } CHECK(D.valid && (int)D.permutation.size() == n, "LU invalid"); std::vector<char> seen(n, 0); for (int p : D.permutation) { CHECK(p >= 0 && p < n && !seen[p], "permutation"); seen[p] = 1; } for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (j > i) CHECK(D.L(i, j) == 0, "L not lower"); if (j < i) CHECK(D.U(i, j) == 0, "U not upper"); if (i == j) CHECK(D.L(i, i) == 1, "unit diagonal"); LD t = 0; for (int k = 0; k < n; k++) t += (LD)D.L(i, k) * D.U(k, j); CHECK_NEAR(t, (LD)A(D.permutation[i], j), tol * 30, "P A = L U at " << i << "," << j); } CHECK_NEAR((LD)D.determinant, det, 1e-11L * powl(1 + s1, n), "determinant of LU"); }
    else if (w == 1) { auto D = L.GetQR(); CHECK(D.valid, "QR invalid"); M T = D.Q * D.R; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) CHECK_NEAR((LD)T(i, j), (LD)A(i, j), tol * 10, "Q R = A"); for (int a = 0; a < D.Q.cols(); a++) for (int b = 0; b < D.Q.cols(); b++) { LD t = 0; for (int i = 0; i < m; i++) t += (LD)D.Q(i, a) * D.Q(i, b); CHECK_NEAR(t, (LD)(a == b), 1e-11L, "Q orthogonal"); } for (int i = 0; i < D.R.rows(); i++) for (int j = 0; j < std::min(i, n); j++) CHECK(std::fabs(D.R(i, j)) <= tol, "R not upper"); }
    else if (w == 2) { auto D = L.GetSVD(); CHECK(D.valid && D.rank == rank, "SVD rank " << D.rank); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { LD t = 0; for (int k = 0; k < D.singularValues.size(); k++) t += (LD)D.U(i, k) * D.singularValues[k] * D.V(j, k); CHECK_NEAR(t, (LD)A(i, j), tol * 10, "U W V' = A"); } for (int k = 0; k + 1 < D.singularValues.size(); k++) CHECK(D.singularValues[k] >= D.singularValues[k + 1], "singular values unsorted"); CHECK_NEAR((LD)D.singularValues[0], s1, tol * 10, "largest singular value"); }
    else { bool pd = L.isPositiveDefinite(); auto D = L.GetCholesky(); CHECK(D.valid == pd, "Cholesky valid " << D.valid << " for positive definite " << pd); if (pd) for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { LD t = 0; for (int k = 0; k <= j; k++) t += (LD)D.L(i, k) * D.L(j, k); CHECK_NEAR(t, (LD)A(i, j), tol * 10, "L L' = A"); } } }
  if (m == n) { auto E = L.GetEigen(); LD tr = 0, es = 0; for (int i = 0; i < n; i++) tr += A(i, i); Vc ev = L.Eigenvalues(); double mag = 0; bool cx = false; for (auto& e : E.eigenvalues) { es += e.real; mag = std::max(mag, std::hypot((double)e.real, (double)e.imag)); cx = cx || std::fabs(e.imag) > 1e-3; } CHECK((int)E.eigenvalues.size() == n && ev.size() == n, "number of eigenvalues"); CHECK_NEAR(es, tr, 1e-6L * (1 + s1) * n, "eigenvalue sum"); CHECK_NEAR((double)L.SpectralRadius(), mag, 1e-12 * (1 + mag), "spectral radius"); CHECK(mag <= (double)s1 * (1 + 1e-9) + 1e-9, "spectral radius above the norm"); if (cx) CHECK(L.HasComplexEigenvalues(), "complex eigenvalues not reported"); if (L.isSymmetric()) { Vc es2 = L.EigenvaluesSymmetric(); LD q = 0, f = 0; for (int i = 0; i < n; i++) { q += (LD)es2[i] * es2[i]; for (int j = 0; j < n; j++) f += (LD)A(i, j) * A(i, j); } CHECK_NEAR(q, f, 1e-9L * (1 + f), "sum of squared eigenvalues"); CHECK(!cx, "complex eigenvalues of a symmetric matrix"); } else CHECK_THROWS(L.EigenvaluesSymmetric(), MatrixDimensionError, "symmetric solver on an asymmetric matrix"); } }

// every query gives the answer of a fresh object, whatever was asked before
LAW(call_orders, 2500, 50000) { int n = (int)s.i(1, 5), m = s.chance(1, 3) ? (int)s.i(1, 6) : n; M A = genFac(s, m, n, (int)s.i(0, 7)); DISCARD_IF(irank(A) == 0); Vc b(m); for (int i = 0; i < m; i++) b[i] = (double)s.i(-4, 4); LinearSystem<Real> L(A, b); LinearSystem<Real> C(L); int steps = (int)s.i(2, 20); c.nontrivial(steps > 4); std::vector<int> ops;
  auto ask = [&](const LinearSystem<Real>& S, int op) { std::vector<double> r; try { switch (op) { case 0: r = {(double)S.Rank()}; break; case 1: r = {(double)S.Rank(2.5)}; break; case 2: r = {(double)S.isSymmetric()}; break; case 3: r = {(double)S.isSymmetric(3)}; break; case 4: r = {(double)S.isPositiveDefinite()}; break; case 5: r = {S.ConditionNumber()}; break; case 6: { auto x = S.Solve(); for (int i = 0; i < x.size(); i++) r.push_back(x[i]); break; } case 7: { auto x = S.Analyze(); r = {(double)x.rank, x.conditionNumber, x.determinant, (double)x.isSymmetric, (double)x.hasUniqueSolution, (double)x.recommendedSolver.size()}; break; } case 8: { auto d = S.GetLU(); r = {(double)d.valid, d.determinant}; break; } case 9: { auto d = S.GetSVD(); for (int i = 0; i < d.singularValues.size(); i++) r.push_back(d.singularValues[i]); break; } case 10: { auto d = S.GetQR(); r = {(double)d.valid}; if (d.valid) r.push_back(d.R(0, 0)); break; } case 11: { auto d = S.GetCholesky(); r = {(double)d.valid}; if (d.valid) r.push_back(d.L(0, 0)); break; } case 12: r = {(double)S.Nullity()}; break; case 13: r = {(double)S.Nullity(2.5)}; break; case 14: r = {(double)S.isPositiveDefinite(3)}; break; default: { auto N = S.NullSpace(); r = {(double)N.cols()}; } } } catch (const std::exception&) { r = {-12345}; } return r; };
  for (int k = 0; k < steps; k++) ops.push_back((int)s.i(0, 15)); c.say([&](auto& o) { o << sm(A) << " queries"; for (int q : ops) o << " " << q; }); for (int q : ops) { LinearSystem<Real> F(A, b); auto want = ask(F, q); LinearSystem<Real>& S = s.chance(1, 4) ? C : L; auto got = ask(S, q); bool same = want.size() == got.size(); for (size_t i = 0; same && i < want.size(); i++) same = want[i] == got[i] || (std::isnan(want[i]) && std::isnan(got[i])); CHECK(same, "query " << q << " answers " << (got.empty() ? 0 : got[0]) << " but a fresh system " << (want.empty() ? 0 : want[0])); if (s.chance(1, 5)) C = L; } for (int i = 0; i < m; i++) CHECK(L.GetRHS()[i] == b[i], "right-hand side changed"); CHECK(L.GetMatrix() == A, "matrix changed"); }
LAW(errors, 300, 3000) { int n = (int)s.i(1, 4); M A = genFac(s, n, n, 0); Vc b(n + 1); CHECK_THROWS((LinearSystem<Real>(A, b)), MatrixDimensionError, "wrong right-hand side"); M B(n + 1, 2); B(0, 0) = 1; CHECK_THROWS((LinearSystem<Real>(A, B)), MatrixDimensionError, "wrong right-hand sides"); LinearSystem<Real> L(A); CHECK_THROWS(L.Solve(), std::exception, "solve without right-hand side"); CHECK_THROWS(L.GetRHS(), std::exception, "right-hand side of a bare matrix"); M T(n + 1, n); T(0, 0) = 1; LinearSystem<Real> R(T); CHECK_THROWS(R.Inverse(), MatrixDimensionError, "inverse of a rectangular matrix"); CHECK_THROWS(R.SpectralRadius(), MatrixDimensionError, "spectrum of a rectangular matrix"); c.nontrivial(true); }
