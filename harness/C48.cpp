// C48: graph spectra, centralities and structure measures against combinatorial computation
#include "common.h"
#include "base/Graph.h"
#include "algorithms/GraphAlgorithms.h"
#include "algorithms/EigenSystemSolvers.h"
#include "algorithms/GraphSpectral.h"
typedef Graph<int, Real> G; static const double INF = std::numeric_limits<double>::infinity();
struct Gr { G g; size_t n; bool dir; std::vector<std::vector<double>> W; size_t m = 0; std::string txt; };
static Gr gen(Src& s, int maxN, bool weighted, bool dirOk) {
  Gr r; r.dir = dirOk && s.chance(1, 3); r.n = s.chance(1, 15) ? (size_t)s.i(0, 1) : (size_t)s.i(2, maxN); auto T = r.dir ? G::Type::Directed : G::Type::Undirected; r.g = G(r.n, T, false); r.W.assign(r.n, std::vector<double>(r.n, 0)); std::ostringstream o; o << (r.dir ? "directed " : "undirected ") << r.n << ":";
  int shape = (int)s.i(0, 6), dens = (int)s.i(1, 10); size_t half = r.n / 2; std::vector<size_t> pm(r.n); for (size_t i = 0; i < r.n; i++) pm[i] = i; for (size_t k = r.n; k > 1; k--) std::swap(pm[k - 1], pm[(size_t)s.i(0, (int64_t)k - 1)]);
  for (size_t i = 0; i < r.n; i++) for (size_t j = r.dir ? 0 : i + 1; j < r.n; j++) { if (i == j) continue; bool e; switch (shape) {
      case 0: e = (i < half) == (j < half) || (i + 1 == half && j == half) || (j + 1 == half && i == half); break;      // two cliques and a bridge
      case 1: e = ((i < half) != (j < half)) && s.chance(dens, 10); break;                                           // bipartite
      case 2: e = i < j && s.chance(1, (int)j - (int)i); break;                                                     // path-like
      case 3: e = i == 0 || j == 0; break;                                                                            // star
      default: e = s.chance(dens, 11); }
    if (!e) continue; double w = weighted ? (double)s.i(1, 16) / 4 : 1; size_t a = pm[i], b = pm[j]; r.g.addEdge(a, b, w); r.W[a][b] = w; if (!r.dir) r.W[b][a] = w; r.m++; o << " " << a << (r.dir ? ">" : "-") << b; if (weighted) o << ":" << fmt(w); }
  r.txt = o.str(); return r; }
static std::vector<std::vector<double>> hops(const Gr& r) { auto d = r.W; for (auto& x : d) for (auto& y : x) y = y > 0 ? 1 : INF; for (size_t i = 0; i < r.n; i++) d[i][i] = 0; for (size_t k = 0; k < r.n; k++) for (size_t i = 0; i < r.n; i++) for (size_t j = 0; j < r.n; j++) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]); return d; }
typedef std::vector<std::vector<LD>> ML;
static std::vector<LD> eig(ML a) { int n = (int)a.size(); for (int it = 0; it < 60; it++) { LD off = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) off += a[i][j] * a[i][j]; if (off < 1e-34L) break; for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) { if (fabsl(a[p][q]) < 1e-25L) continue; LD th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c; for (int k = 0; k < n; k++) { LD x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; } for (int k = 0; k < n; k++) { LD x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; } } } std::vector<LD> e; for (int i = 0; i < n; i++) e.push_back(a[i][i]); std::sort(e.begin(), e.end()); return e; }
static ML lap(const Gr& r) { ML l(r.n, std::vector<LD>(r.n, 0)); for (size_t i = 0; i < r.n; i++) for (size_t j = 0; j < r.n; j++) { l[i][j] -= r.W[i][j]; l[i][i] += r.W[i][j]; } return l; }
static size_t comps(const Gr& r, const std::vector<std::vector<double>>& d) { std::vector<bool> seen(r.n, false); size_t k = 0; for (size_t i = 0; i < r.n; i++) if (!seen[i]) { k++; for (size_t j = 0; j < r.n; j++) if (d[i][j] < INF) seen[j] = true; } return k; }

LAW(laplacian_spectrum, 2500, 80000) {
  bool wt = s.b(); Gr r = gen(s, 10, wt, false); auto d = hops(r); size_t k = comps(r, d); c.nontrivial(r.m > 1); c.label(k > 1 ? "disconnected" : "connected"); c.say([&](auto& o) { o << r.txt; });
  auto ev = LaplacianEigenvalues(r.g); CHECK(ev.size() == r.n, ev.size() << " eigenvalues of " << r.n); if (!r.n) { CHECK(AlgebraicConnectivity(r.g) == 0, "connectivity of the empty graph"); return; } auto ref = eig(lap(r)); double sc = 1 + (double)ref.back(), tol = 1e-9 * sc; size_t zeros = 0;
  for (size_t i = 0; i < r.n; i++) { CHECK_NEAR((double)ev[i], (double)ref[i], tol, "Laplacian eigenvalue " << i); zeros += std::fabs(ev[i]) < 1e-7; } CHECK(zeros == k, zeros << " zero eigenvalues but " << k << " components");
  double a = AlgebraicConnectivity(r.g), b = AlgebraicConnectivityBound(r.g); CHECK_NEAR(a, r.n < 2 ? 0.0 : (double)ref[1], tol, "algebraic connectivity"); CHECK(b <= (r.n < 2 ? 0 : (double)ref[1]) + tol, "lower bound " << fmt(b) << " exceeds the algebraic connectivity " << fmt((double)ref[1])); if (k > 1) CHECK(b == 0, "bound " << fmt(b) << " for a disconnected graph"); else if (r.n > 1) CHECK(b > 0, "bound of a connected graph is " << fmt(b)); CHECK(IsConnectedSpectral(r.g) == (k <= 1), "IsConnectedSpectral");
  auto ds = LaplacianDegreeSequence(r.g); std::vector<double> w; for (size_t i = 0; i < r.n; i++) { double t = 0; for (double x : r.W[i]) t += x; w.push_back(t); } std::sort(w.begin(), w.end()); CHECK(ds == w, "degree sequence");
  if (!wt && k == 1 && r.n > 1) { // Kirchhoff: spanning trees counted by the determinant of a minor (exact) and by the spectrum
    ML l = lap(r); int n = (int)r.n - 1; LD det = 1; ML q(n, std::vector<LD>(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) q[i][j] = l[i][j]; for (int i = 0; i < n; i++) { int p = i; for (int j = i; j < n; j++) if (fabsl(q[j][i]) > fabsl(q[p][i])) p = j; if (p != i) { std::swap(q[p], q[i]); det = -det; } det *= q[i][i]; for (int j = i + 1; j < n; j++) { LD f = q[j][i] / q[i][i]; for (int c2 = i; c2 < n; c2++) q[j][c2] -= f * q[i][c2]; } } LD pr = 1; for (size_t i = 1; i < r.n; i++) pr *= ev[i]; CHECK_NEAR((LD)(pr / r.n / roundl(det)), (LD)1, 1e-6L, "spanning trees by the spectrum over " << fmt((double)roundl(det))); }
}
LAW(centralities, 2500, 80000) {
  Gr r = gen(s, 9, false, true); auto d = hops(r); size_t n = r.n; c.nontrivial(r.m > 2); c.label(r.dir ? "directed" : "undirected"); c.say([&](auto& o) { o << r.txt; });
  auto dc = DegreeCentrality(r.g), cc = ClosenessCentrality(r.g), bn = BetweennessCentrality(r.g, true), bu = BetweennessCentrality(r.g, false), bd = BetweennessCentrality(r.g); CHECK(dc.size() == n && cc.size() == n && bn.size() == n && bu.size() == n && bd == bn, "centrality sizes");
  // number of shortest paths by counting walks of shortest length
  std::vector<std::vector<double>> sg(n, std::vector<double>(n, 0)); for (size_t i = 0; i < n; i++) { sg[i][i] = 1; for (size_t L = 1; L < n; L++) for (size_t v = 0; v < n; v++) if (d[i][v] == (double)L) for (size_t u = 0; u < n; u++) if (d[i][u] == (double)L - 1 && r.W[u][v] > 0) sg[i][v] += sg[i][u]; }
  for (size_t v = 0; v < n; v++) { double deg = 0, tot = 0, cnt = 0, b = 0; for (size_t u = 0; u < n; u++) { deg += r.W[v][u] > 0; if (u != v && d[v][u] < INF) { tot += d[v][u]; cnt++; } } for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j && i != v && j != v && d[i][j] < INF && d[i][v] + d[v][j] == d[i][j]) b += sg[i][v] * sg[v][j] / sg[i][j]; if (!r.dir) b /= 2;
    CHECK_NEAR((double)dc[v], n > 1 ? deg / (n - 1) : 0.0, 1e-14, "degree centrality of " << v); CHECK_NEAR((double)cc[v], tot > 0 ? cnt / tot : 0.0, 1e-14, "closeness of " << v); CHECK_NEAR((double)bu[v], b, 1e-11 * (1 + b), "betweenness of " << v); CHECK_NEAR((double)bn[v], n > 2 ? b * 2 / ((n - 1.0) * (n - 2.0)) : 0.0, 1e-12 * (1 + b), "normalised betweenness of " << v); }
}
LAW(eigenvector_centrality, 2000, 60000) {
  Gr r = gen(s, 9, s.b(), false); size_t n = r.n; c.nontrivial(r.m > 1); c.say([&](auto& o) { o << r.txt; }); auto x = EigenvectorCentrality(r.g, 20000, 1e-13); CHECK(x.size() == n, "size"); if (!n || !r.m) return; ML a(n, std::vector<LD>(n)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) a[i][j] = r.W[i][j]; LD lam = eig(a).back(), nn = 0, res = 0; for (size_t i = 0; i < n; i++) { LD t = -lam * x[i]; for (size_t j = 0; j < n; j++) t += a[i][j] * x[j]; res = std::max(res, fabsl(t)); nn += (LD)x[i] * x[i]; CHECK(x[i] >= 0, "negative centrality"); } CHECK_NEAR((double)nn, 1.0, 1e-12, "norm of the centrality vector"); CHECK(res <= 1e-6L * (1 + lam), "not an eigenvector of the adjacency matrix: residual " << fmt((double)res) << " with largest eigenvalue " << fmt((double)lam)); }
LAW(page_rank, 2000, 60000) {
  Gr r = gen(s, 9, false, true); size_t n = r.n; double df = s.chance(1, 6) ? 0.0 : s.uni(0.05, 0.95); c.nontrivial(r.m > 1); c.say([&](auto& o) { o << "damping " << fmt(df) << " " << r.txt; }); auto p = PageRank(r.g, df, 5000, 1e-14); CHECK(p.size() == n, "size"); if (!n) return;
  ML m(n, std::vector<LD>(n + 1, 0)); for (size_t i = 0; i < n; i++) { m[i][i] += 1; m[i][n] = (1 - (LD)df) / n; } bool dangling = false; for (size_t v = 0; v < n; v++) { LD out = 0; for (double w : r.W[v]) out += w > 0; dangling = dangling || out == 0; for (size_t u = 0; u < n; u++) m[u][v] -= out == 0 ? (LD)df / n : r.W[v][u] > 0 ? df / out : 0; } if (dangling) c.label("dangling vertices");
  for (size_t i = 0; i < n; i++) { size_t q = i; for (size_t j = i; j < n; j++) if (fabsl(m[j][i]) > fabsl(m[q][i])) q = j; std::swap(m[q], m[i]); for (size_t j = 0; j < n; j++) if (j != i) { LD f = m[j][i] / m[i][i]; for (size_t k = i; k <= n; k++) m[j][k] -= f * m[i][k]; } } LD sum = 0; for (size_t i = 0; i < n; i++) { CHECK_NEAR((double)p[i], (double)(m[i][n] / m[i][i]), 1e-11, "rank of " << i); sum += p[i]; } CHECK_NEAR((double)sum, 1.0, 1e-12, "sum of ranks"); }
LAW(structure_measures, 2500, 80000) {
  Gr r = gen(s, 9, false, true); auto d = hops(r); size_t n = r.n; c.nontrivial(r.m > 2); c.label(r.dir ? "directed" : "undirected"); c.say([&](auto& o) { o << r.txt; }); double dia = 0, tot = 0, cnt = 0; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j) { dia = std::max(dia, d[i][j]); if (d[i][j] < INF) { tot += d[i][j]; cnt++; } }
  CHECK((double)GraphDiameter(r.g) == dia, "diameter " << fmt((double)GraphDiameter(r.g)) << " not " << fmt(dia)); CHECK_NEAR((double)AveragePathLength(r.g), cnt ? tot / cnt : 0.0, 1e-13, "average path length"); CHECK_NEAR((double)GraphDensity(r.g), n > 1 ? (r.dir ? 1.0 : 2.0) * r.m / (n * (n - 1.0)) : 0.0, 1e-15, "density");
  if (!r.dir) { double cc = 0; int k = 0; for (size_t v = 0; v < n; v++) { double t = 0, deg = 0; for (size_t i = 0; i < n; i++) { deg += r.W[v][i] > 0; for (size_t j = i + 1; j < n; j++) t += r.W[v][i] > 0 && r.W[v][j] > 0 && r.W[i][j] > 0; } if (deg > 1) { cc += t / (deg * (deg - 1) / 2); k++; } } CHECK_NEAR((double)AverageClusteringCoefficient(r.g), k ? cc / k : 0.0, 1e-13, "clustering coefficient"); } }
