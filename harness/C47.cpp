// C47: graph container against an edge-map model over edit histories; graph algorithms against exhaustive references
#include "common.h"
#include "base/Graph.h"
#include "algorithms/GraphAlgorithms.h"
static const double INF = std::numeric_limits<double>::infinity();
static const size_t NO = GRAPH_NOT_FOUND;

// ---- histories of edits
template<class E> struct Model { bool dir, loops; std::vector<int> data; std::map<std::pair<size_t, size_t>, E> e; // undirected edges stored once, smaller index first
  std::pair<size_t, size_t> key(size_t a, size_t b) const { return !dir && a > b ? std::make_pair(b, a) : std::make_pair(a, b); } bool has(size_t a, size_t b) const { return a < data.size() && b < data.size() && e.count(key(a, b)); } };
template<class E> static void compare(const Graph<int, E>& g, const Model<E>& m) {
  typedef Graph<int, E> G; size_t n = m.data.size(); CHECK(g.numVertices() == n && g.isEmpty() == (n == 0), "graph has " << g.numVertices() << " vertices, expected " << n); CHECK(g.numEdges() == m.e.size(), "graph counts " << g.numEdges() << " edges, expected " << m.e.size());
  CHECK(g.isDirected() == m.dir && g.isUndirected() == !m.dir && g.allowsSelfLoops() == m.loops && (g.type() == G::Type::Directed) == m.dir, "kind of graph changed"); bool w = false; for (auto& x : m.e) w = w || std::fabs((double)x.second - 1) > 1e-10; CHECK(g.isWeighted() == w, "isWeighted is " << g.isWeighted());
  auto A = g.toAdjacencyMatrix(); auto D = g.toDegreeMatrix(); auto L = g.toLaplacianMatrix(); auto N = g.toNormalizedLaplacian(); CHECK((size_t)A.rows() == n && (size_t)A.cols() == n, "adjacency matrix size");
  std::vector<double> deg(n, 0); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (m.has(i, j)) deg[i] += (double)m.e.at(m.key(i, j));
  for (size_t i = 0; i < n; i++) {
    CHECK(g.vertexData(i) == m.data[i], "data of vertex " << i << " is " << g.vertexData(i) << " not " << m.data[i]); std::map<size_t, E> nb; for (auto& x : g.neighbors(i)) CHECK(nb.emplace(x.to, x.weight).second, "neighbour " << x.to << " of " << i << " listed twice"); size_t in = 0, out = 0;
    for (size_t j = 0; j < n; j++) { bool h = m.has(i, j); E w0 = h ? m.e.at(m.key(i, j)) : E{0}; out += h; in += m.has(j, i);
      CHECK(g.hasEdge(i, j) == h, "edge " << i << "->" << j << (h ? " missing" : " reported but absent")); CHECK(nb.count(j) == (size_t)h && (!h || nb[j] == w0), "neighbours of " << i << " wrong at " << j); CHECK(A((int)i, (int)j) == w0, "adjacency matrix at " << i << "," << j);
      if (h) CHECK(g.edgeWeight(i, j) == w0, "weight of " << i << "->" << j << " is " << g.edgeWeight(i, j) << " not " << w0); else CHECK_THROWS(g.edgeWeight(i, j), std::invalid_argument, "weight of an absent edge");
      CHECK((double)D((int)i, (int)j) == (i == j ? deg[i] : 0.0), "degree matrix at " << i << "," << j); CHECK((double)L((int)i, (int)j) == (i == j ? deg[i] : 0.0) - (double)w0, "Laplacian at " << i << "," << j << " is " << (double)L((int)i, (int)j) << ", D-A is " << (i == j ? deg[i] : 0.0) - (double)w0);
      double s = deg[i] > 0 && deg[j] > 0 ? (double)w0 / std::sqrt(deg[i] * deg[j]) : 0; CHECK_NEAR((double)N((int)i, (int)j), (i == j ? 1.0 : 0.0) - s, 1e-14 * (1 + std::fabs(s)), "normalised Laplacian at " << i << "," << j); }
    CHECK(g.degree(i) == out && g.outDegree(i) == out && g.inDegree(i) == in, "degrees of " << i << ": " << g.degree(i) << "/" << g.inDegree(i) << " expected " << out << "/" << in);
  }
  for (size_t bad : {n, n + 3, NO}) { CHECK(!g.hasEdge(bad, 0) && !g.hasEdge(0, bad), "edge at a missing vertex"); CHECK_THROWS(g.vertexData(bad), std::out_of_range, "data of a missing vertex"); CHECK_THROWS(g.neighbors(bad), std::out_of_range, "neighbours of a missing vertex"); CHECK_THROWS(g.degree(bad), std::out_of_range, "degree of a missing vertex"); CHECK_THROWS(g.inDegree(bad), std::out_of_range, "in-degree of a missing vertex"); CHECK_THROWS(g.edgeWeight(bad, 0), std::out_of_range, "edge weight at a missing vertex"); }
}
template<class E> static void edits(Src& s, Case& c) {
  typedef Graph<int, E> G; Model<E> m; m.dir = s.b(); m.loops = s.b(); G g(m.dir ? G::Type::Directed : G::Type::Undirected, m.loops); auto T = m.dir ? G::Type::Directed : G::Type::Undirected;
  if (s.b()) { int n = (int)s.i(0, 5); g = G((size_t)n, T, m.loops); for (int i = 0; i < n; i++) m.data.push_back(i); } int ops = (int)s.i(1, 40), removed = 0, rejected = 0; std::ostringstream log;
  for (int k = 0; k < ops; k++) { size_t n = m.data.size(), a = (size_t)s.i(0, (int64_t)n), b = (size_t)s.i(0, (int64_t)n); if (n && !s.chance(1, 12)) { a = (size_t)s.i(0, (int64_t)n - 1); b = (size_t)s.i(0, (int64_t)n - 1); } int op = (int)s.i(0, 11);
    if (op <= 1) { if (n > 7) continue; int d = (int)s.i(-5, 5); size_t idx = g.addVertex(d); CHECK(idx == n, "new vertex got index " << idx); m.data.push_back(d); log << "v "; }
    else if (op <= 7) { E w = (E)s.i(-4, 9); log << "+" << a << ">" << b << " "; bool bad = a >= n || b >= n, loop = a == b && !m.loops, dup = m.has(a, b); if (bad) { CHECK_THROWS(g.addEdge(a, b, w), std::out_of_range, "edge to a missing vertex accepted"); rejected++; } else if (loop || dup) { CHECK_THROWS(g.addEdge(a, b, w), std::invalid_argument, (loop ? "self-loop" : "second edge") << " " << a << "->" << b << " accepted"); rejected++; } else { if (s.chance(1, 4)) { g.addEdge(a, b); w = E{1}; } else g.addEdge(a, b, w); m.e[m.key(a, b)] = w; } }
    else if (op <= 9) { log << "-" << a << ">" << b << " "; bool h = m.has(a, b); CHECK(g.removeEdge(a, b) == h, "removeEdge(" << a << "," << b << ") returned " << !h); if (h) { m.e.erase(m.key(a, b)); removed++; } }
    else if (op == 10 && n) { size_t v = (size_t)s.i(0, (int64_t)n - 1); g.vertexData(v) = 77; m.data[v] = 77; }
    else if (op == 11 && s.chance(1, 6)) { g.clear(); m.data.clear(); m.e.clear(); log << "clear "; }
    if (k % 4 == 0) compare<E>(g, m); }
  compare<E>(g, m); G h = g; compare<E>(h, m); c.nontrivial(m.e.size() > 1 && m.data.size() > 2); if (removed) c.label("edges removed"); if (rejected) c.label("edges rejected"); c.label(m.dir ? "directed" : "undirected"); c.say([&](auto& o) { o << (m.dir ? "directed " : "undirected ") << (m.loops ? "loops " : "") << log.str(); });
}
LAW(edit_history_real, 1500, 60000) { edits<Real>(s, c); }
LAW(edit_history_int, 1000, 40000) { edits<int>(s, c); }
LAW(named_graphs, 300, 4000) {
  int n = (int)s.i(0, 9), r = (int)s.i(0, 5), q = (int)s.i(0, 5); c.nontrivial(n > 1); c.say([&](auto& o) { o << "n " << n << " grid " << r << "x" << q; });
  auto ck = [&](const Graph<int, Real>& g, size_t v, auto f, const char* nm) { CHECK(g.numVertices() == v && g.isUndirected(), nm << " graph has " << g.numVertices() << " vertices"); size_t e = 0; for (size_t i = 0; i < v; i++) for (size_t j = 0; j < v; j++) { bool w = i != j && (f(i, j) || f(j, i)); e += w && i < j; CHECK(g.hasEdge(i, j) == w, nm << " graph, edge " << i << "-" << j); if (w) CHECK(g.edgeWeight(i, j) == 1, nm << " weight"); } CHECK(g.numEdges() == e, nm << " graph has " << g.numEdges() << " edges"); };
  ck(createPathGraph(n), n, [](size_t i, size_t j) { return j == i + 1; }, "path"); ck(createCycleGraph(n), n, [&](size_t i, size_t j) { return j == i + 1 || (n > 2 && i == (size_t)n - 1 && j == 0); }, "cycle"); ck(createCompleteGraph(n), n, [](size_t, size_t) { return true; }, "complete"); ck(createStarGraph(n), n, [](size_t i, size_t) { return i == 0; }, "star");
  ck(createGridGraph(r, q), (size_t)r * q, [&](size_t i, size_t j) { return (j == i + 1 && j % q) || j == i + q; }, "grid");
}

// ---- algorithms
typedef Graph<int, Real> G; struct Ed { size_t a, b; double w; };
struct Gr { G g; std::vector<Ed> e; size_t n; bool dir; std::vector<std::vector<double>> W; };   // W: weight or INF (parallel-free)
static Gr genG(Src& s, int maxN, int wkind, bool onlyUndirected = false) { // wkind 0 unit, 1 nonneg int, 2 any int, 3 nonneg real
  Gr r; r.dir = !onlyUndirected && s.b(); r.n = s.chance(1, 15) ? (size_t)s.i(0, 1) : (size_t)s.i(2, maxN); bool loops = s.chance(1, 4); r.g = G(r.n, r.dir ? G::Type::Directed : G::Type::Undirected, loops); r.W.assign(r.n, std::vector<double>(r.n, INF));
  int dens = (int)s.i(1, 9); bool tree = s.chance(1, 3); std::vector<std::pair<size_t, size_t>> all; for (size_t i = 0; i < r.n; i++) for (size_t j = r.dir ? 0 : i; j < r.n; j++) if (i != j || loops) { if (s.chance(dens, 12) || (tree && j == i + 1)) all.push_back({i, j}); }
  for (size_t k = all.size(); k > 1; k--) std::swap(all[k - 1], all[(size_t)s.i(0, (int64_t)k - 1)]);
  std::vector<double> pot(r.n); bool usePot = wkind == 2 && r.dir && s.chance(2, 3); for (auto& x : pot) x = (double)s.i(-6, 6);   // potentials give negative edges without negative cycles
  for (auto& p : all) { double w = wkind == 0 ? 1 : wkind == 1 ? (double)s.i(0, 9) : wkind == 3 ? s.real(0, 10) : (double)s.i(usePot ? 0 : -2, 9); if (usePot) w += pot[p.first] - pot[p.second]; size_t a = p.first, b = p.second; if (!r.dir && s.b()) std::swap(a, b); r.g.addEdge(a, b, w); r.e.push_back({a, b, w}); r.W[a][b] = w; if (!r.dir) r.W[b][a] = w; }
  return r; }
static std::string showG(const Gr& r) { std::ostringstream o; o << (r.dir ? "directed " : "undirected ") << r.n << " vertices:"; for (auto& e : r.e) o << " " << e.a << ">" << e.b << ":" << fmt(e.w); return o.str(); }
static std::vector<std::vector<double>> floyd(const Gr& r, bool hops, bool& neg) { size_t n = r.n; auto d = r.W; if (hops) for (auto& x : d) for (auto& y : x) if (y < INF) y = 1; for (size_t i = 0; i < n; i++) d[i][i] = std::min(0.0, d[i][i]); for (size_t k = 0; k < n; k++) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (d[i][k] < INF && d[k][j] < INF) d[i][j] = std::min(d[i][j], std::max(-1e15, d[i][k] + d[k][j])); neg = false; for (size_t i = 0; i < n; i++) neg = neg || d[i][i] < 0; return d; }
static void ckTreeParents(const Gr& r, const TraversalResult& t, size_t s0, const char* who, bool weighted) {
  CHECK(t.parent.size() == r.n && t.distance.size() == r.n, who << ": result sizes");
  for (size_t v = 0; v < r.n; v++) { if (v == s0) { CHECK(t.parent[v] == NO && t.distance[v] == 0, who << ": start has parent or distance"); continue; } bool reach = t.distance[v] < INF; CHECK(reach == (t.parent[v] != NO), who << ": parent of " << v << " inconsistent with its distance"); if (reach) { size_t p = t.parent[v]; CHECK(p < r.n && r.W[p][v] < INF, who << ": parent edge " << p << "->" << v << " does not exist"); double w = weighted ? r.W[p][v] : 1; CHECK(t.distance[v] == t.distance[p] + w, who << ": distance of " << v << " is not that of its parent plus the edge"); } } }
static void ckPath(const Gr& r, const PathResult& p, size_t a, size_t b, double want, bool weighted, const char* who, double tol) {
  if (want == INF) { CHECK(!p.found && p.path.empty() && !p.diagnostics.empty(), who << ": path to an unreachable vertex"); return; } CHECK(p.found && !p.path.empty() && p.path.front() == a && p.path.back() == b, who << ": path from " << a << " to " << b << " missing or wrong ends"); double t = 0; for (size_t i = 1; i < p.path.size(); i++) { CHECK(p.path[i] < r.n && r.W[p.path[i - 1]][p.path[i]] < INF, who << ": path uses a missing edge " << p.path[i - 1] << "->" << p.path[i]); t += weighted ? r.W[p.path[i - 1]][p.path[i]] : 1; } CHECK_NEAR(t, want, tol, who << ": length along the path"); CHECK_NEAR((double)p.totalWeight, want, tol, who << ": reported length"); }

LAW(traversal, 3000, 120000) {
  Gr r = genG(s, 9, (int)s.i(0, 1)); bool neg; auto d = floyd(r, true, neg); size_t st = (size_t)s.i(0, (int64_t)r.n); c.nontrivial(r.e.size() > 2 && st < r.n); c.say([&](auto& o) { o << "start " << st << " " << showG(r); });
  auto b = BFS(r.g, st), f = DFS(r.g, st); std::vector<size_t> vb, vf; BFSVisit(r.g, st, [&](size_t v) { vb.push_back(v); return true; }); DFSVisit(r.g, st, [&](size_t v) { vf.push_back(v); return true; });
  if (st >= r.n) { CHECK(b.nodesVisited == 0 && f.nodesVisited == 0 && b.visitOrder.empty() && f.visitOrder.empty() && vb.empty() && vf.empty(), "traversal from a missing vertex visited something"); return; }
  CHECK(vb == b.visitOrder && vf == f.visitOrder, "visitor order differs from the result's"); size_t reach = 0; for (size_t v = 0; v < r.n; v++) reach += d[st][v] < INF;
  for (auto* t : {&b, &f}) { CHECK(t->nodesVisited == reach && t->visitOrder.size() == reach, (t == &b ? "BFS" : "DFS") << " visited " << t->nodesVisited << " of " << reach); std::set<size_t> u(t->visitOrder.begin(), t->visitOrder.end()); CHECK(u.size() == reach, "vertex visited twice"); for (size_t v = 0; v < r.n; v++) CHECK(u.count(v) == (size_t)(d[st][v] < INF), (t == &b ? "BFS" : "DFS") << ": reachability of " << v); CHECK(t->visitOrder[0] == st, "start not first"); }
  ckTreeParents(r, b, st, "BFS", false); ckTreeParents(r, f, st, "DFS", false); for (size_t v = 0; v < r.n; v++) CHECK(b.distance[v] == d[st][v], "BFS distance of " << v << " is " << fmt(b.distance[v]) << " not " << fmt(d[st][v])); for (size_t i = 1; i < reach; i++) CHECK(b.distance[b.visitOrder[i - 1]] <= b.distance[b.visitOrder[i]], "BFS order not by distance");
  // depth first: every vertex is visited right below the latest visited vertex that still had an unvisited neighbour, and that vertex is its parent
  std::vector<bool> vis(r.n, false); std::vector<size_t> stack; for (size_t k = 0; k < reach; k++) { size_t v = f.visitOrder[k]; while (!stack.empty()) { size_t u = stack.back(); bool open = false; for (size_t w = 0; w < r.n; w++) open = open || (r.W[u][w] < INF && !vis[w]); if (open) break; stack.pop_back(); } if (k) { CHECK(!stack.empty() && r.W[stack.back()][v] < INF, "DFS went to " << v << " before finishing deeper vertices"); CHECK(f.parent[v] == stack.back(), "DFS parent of " << v << " is " << f.parent[v] << " but it was reached from " << stack.back()); } vis[v] = true; stack.push_back(v); }
  size_t stop = (size_t)s.i(1, 9), cnt = 0; BFSVisit(r.g, st, [&](size_t) { return ++cnt < stop; }); CHECK(cnt == std::min(stop, reach), "BFS visitor did not stop"); cnt = 0; DFSVisit(r.g, st, [&](size_t) { return ++cnt < stop; }); CHECK(cnt == std::min(stop, reach), "DFS visitor did not stop");
  for (size_t v = 0; v <= r.n; v++) { auto p = ShortestPathUnweighted(r.g, st, v); if (v == r.n) CHECK(!p.found && !p.diagnostics.empty(), "path to a missing vertex"); else ckPath(r, p, st, v, d[st][v], false, "unweighted path", 0); }
  if (!r.dir) { auto k = ConnectedComponents(r.g); std::set<size_t> ids; for (size_t i = 0; i < r.n; i++) { CHECK(k.componentId[i] < k.numComponents, "component id of " << i); ids.insert(k.componentId[i]); for (size_t j = 0; j < r.n; j++) CHECK((k.componentId[i] == k.componentId[j]) == (d[i][j] < INF), "vertices " << i << " and " << j << " in wrong components"); } CHECK(ids.size() == k.numComponents && k.components.size() == k.numComponents, "number of components"); size_t tot = 0; for (size_t q = 0; q < k.numComponents; q++) { for (size_t v : k.components[q]) CHECK(k.componentId[v] == q, "component list"); tot += k.components[q].size(); } CHECK(tot == r.n, "component lists cover " << tot << " vertices"); CHECK(IsConnected(r.g) == (k.numComponents <= 1), "IsConnected"); }
}
LAW(shortest_paths, 3000, 120000) {
  int wk = s.chance(1, 3) ? 3 : (int)s.i(0, 1); Gr r = genG(s, 9, wk); bool neg; auto d = floyd(r, false, neg); size_t st = (size_t)s.i(0, (int64_t)r.n); c.nontrivial(r.e.size() > 2 && st < r.n); c.say([&](auto& o) { o << "start " << st << " " << showG(r); });
  auto t = Dijkstra(r.g, st); auto b = BellmanFord(r.g, st); if (st >= r.n) { CHECK(t.nodesVisited == 0 && t.distance.empty() && b.distance.empty(), "paths from a missing vertex"); CHECK(!HasNegativeCycle(r.g, st), "negative cycle reported at a missing vertex"); CHECK(!DijkstraPath(r.g, st, 0).found, "path from a missing vertex"); return; }
  double tol = wk == 3 ? 1e-12 : 0; ckTreeParents(r, t, st, "Dijkstra", true); ckTreeParents(r, b, st, "Bellman-Ford", true); CHECK(!HasNegativeCycle(r.g, st), "negative cycle reported without negative weights"); size_t reach = 0;
  for (size_t v = 0; v < r.n; v++) { reach += d[st][v] < INF; if (d[st][v] == INF) { CHECK(t.distance[v] == INF && b.distance[v] == INF, "unreachable " << v << " has a distance"); } else { CHECK_NEAR((double)t.distance[v], d[st][v], tol, "Dijkstra distance of " << v); CHECK_NEAR((double)b.distance[v], d[st][v], tol, "Bellman-Ford distance of " << v);
      auto p = ReconstructPath(t.parent, st, v); CHECK(!p.empty() && p.front() == st && p.back() == v, "reconstructed path ends"); double w = 0; for (size_t i = 1; i < p.size(); i++) w += r.W[p[i - 1]][p[i]]; CHECK_NEAR(w, d[st][v], tol, "reconstructed path length"); } if (d[st][v] == INF) CHECK(ReconstructPath(t.parent, st, v).empty(), "path reconstructed to unreachable " << v);
    ckPath(r, DijkstraPath(r.g, st, v), st, v, d[st][v], true, "Dijkstra path", tol); }
  CHECK(t.nodesVisited == reach && b.nodesVisited == reach, "visited " << t.nodesVisited << "/" << b.nodesVisited << " of " << reach); auto bad = DijkstraPath(r.g, st, r.n); CHECK(!bad.found && !bad.diagnostics.empty(), "path to a missing vertex");
}
LAW(negative_weights, 3000, 120000) {
  Gr r = genG(s, 8, 2); bool neg; auto d = floyd(r, false, neg); size_t st = r.n ? (size_t)s.i(0, (int64_t)r.n - 1) : 0; DISCARD_IF(!r.n); bool reachNeg = false; for (size_t v = 0; v < r.n; v++) reachNeg = reachNeg || (d[st][v] < INF && d[v][v] < 0); bool anyNeg = false; for (auto& e : r.e) anyNeg = anyNeg || e.w < 0;
  c.nontrivial(anyNeg); c.label(reachNeg ? "negative cycle reachable" : neg ? "negative cycle out of reach" : "no negative cycle"); c.say([&](auto& o) { o << "start " << st << " " << showG(r); }); auto b = BellmanFord(r.g, st); CHECK(HasNegativeCycle(r.g, st) == reachNeg, "negative cycle " << (reachNeg ? "missed" : "reported but absent"));
  if (reachNeg) { CHECK(b.parent.empty() && b.distance.empty() && b.nodesVisited == 0, "distances despite a negative cycle"); return; } ckTreeParents(r, b, st, "Bellman-Ford", true); for (size_t v = 0; v < r.n; v++) CHECK(b.distance[v] == d[st][v], "distance of " << v << " is " << fmt(b.distance[v]) << " not " << fmt(d[st][v])); }
LAW(ordering, 3000, 120000) {
  Gr r = genG(s, 8, 0); if (r.dir && s.b()) { Gr q; q.n = r.n; q.dir = true; q.g = G(r.n, G::Type::Directed, false); q.W.assign(r.n, std::vector<double>(r.n, INF)); std::vector<size_t> pm(r.n); for (size_t i = 0; i < r.n; i++) pm[i] = i; for (size_t k = r.n; k > 1; k--) std::swap(pm[k - 1], pm[(size_t)s.i(0, (int64_t)k - 1)]); for (auto& e : r.e) if (e.a < e.b) { q.g.addEdge(pm[e.a], pm[e.b]); q.e.push_back({pm[e.a], pm[e.b], 1}); q.W[pm[e.a]][pm[e.b]] = 1; } r = q; }
  bool neg; auto d = floyd(r, true, neg); bool cyc = false; for (auto& e : r.e) cyc = cyc || d[e.b][e.a] < INF; auto t = TopologicalSort(r.g); bool want = r.n == 0 || (r.dir && !cyc); c.nontrivial(r.dir && r.e.size() > 2); c.label(!r.dir ? "undirected" : cyc ? "cyclic" : "acyclic"); c.say([&](auto& o) { o << showG(r); }); CHECK(t.isDAG == want && IsDAG(r.g) == want, (want ? "acyclic graph rejected" : "cyclic graph accepted"));
  if (want) { CHECK(t.order.size() == r.n, "order has " << t.order.size() << " of " << r.n << " vertices"); std::vector<size_t> pos(r.n, NO); for (size_t i = 0; i < r.n; i++) { CHECK(t.order[i] < r.n && pos[t.order[i]] == NO, "vertex repeated in the order"); pos[t.order[i]] = i; } for (auto& e : r.e) CHECK(pos[e.a] < pos[e.b], "edge " << e.a << "->" << e.b << " points backwards"); } else { CHECK(t.order.empty() && !t.diagnostics.empty(), "order given for a graph without one"); } }
LAW(spanning_trees, 3000, 120000) {
  int wk = (int)s.i(0, 3); Gr r = genG(s, 8, wk, true); bool neg; auto d = floyd(r, true, neg); bool conn = true; for (size_t v = 0; v < r.n; v++) conn = conn && (d[0][v] < INF); size_t st = (size_t)s.i(0, (int64_t)r.n + 1); c.nontrivial(r.e.size() > 2); c.label(conn ? "connected" : "disconnected"); c.say([&](auto& o) { o << "start " << st << " " << showG(r); });
  // exhaustive reference: weight of the best spanning forest by relaxing a matroid greedy in rational order is what is under test, so enumerate edge subsets instead
  auto es = r.e; es.erase(std::remove_if(es.begin(), es.end(), [](const Ed& e) { return e.a == e.b; }), es.end()); size_t comps = 0; { std::vector<bool> seen(r.n, false); for (size_t i = 0; i < r.n; i++) if (!seen[i]) { comps++; for (size_t j = 0; j < r.n; j++) if (d[i][j] < INF) seen[j] = true; } }
  auto K = Kruskal(r.g), P = Prim(r.g, st); size_t p0 = st < r.n ? st : 0, cs = 0; for (size_t v = 0; v < r.n; v++) cs += d[p0][v] < INF;
  auto ck = [&](const MSTResult& t, size_t edges, const char* who, bool whole) { CHECK(t.isComplete == conn, who << (conn ? ": connected graph called incomplete" : ": disconnected graph called complete")); CHECK(conn == t.diagnostics.empty(), who << ": diagnostics"); CHECK(t.edges.size() == edges, who << ": " << t.edges.size() << " edges, expected " << edges); std::vector<size_t> id(r.n); for (size_t i = 0; i < r.n; i++) id[i] = i; double w = 0; std::set<std::pair<size_t, size_t>> in;
    for (auto& e : t.edges) { size_t a = std::get<0>(e), b = std::get<1>(e); CHECK(a < r.n && b < r.n && r.W[a][b] == std::get<2>(e), who << ": edge " << a << "-" << b << " not in the graph with that weight"); CHECK(id[a] != id[b], who << ": edges contain a cycle"); size_t o = id[b], q = id[a]; for (auto& x : id) if (x == o) x = q; w += std::get<2>(e); in.insert({std::min(a, b), std::max(a, b)}); } CHECK_NEAR((double)t.totalWeight, w, 1e-12 * (1 + std::fabs(w)), who << ": total weight");
    // optimal iff for every edge outside, it is a heaviest edge on the cycle it closes (within its tree)
    for (auto& e : es) { if (in.count({std::min(e.a, e.b), std::max(e.a, e.b)}) || id[e.a] != id[e.b]) continue; if (!whole && d[p0][e.a] == INF) continue; std::vector<double> mx(r.n, INF); mx[e.a] = -INF; std::vector<size_t> st2 = {e.a}; while (!st2.empty()) { size_t u = st2.back(); st2.pop_back(); for (auto& x : t.edges) { size_t a = std::get<0>(x), b = std::get<1>(x); if (b == u) std::swap(a, b); if (a == u && mx[b] == INF) { mx[b] = std::max(mx[u], (double)std::get<2>(x)); st2.push_back(b); } } } CHECK(mx[e.b] <= e.w, who << ": edge " << e.a << "-" << e.b << " of weight " << fmt(e.w) << " would improve the tree"); } };
  if (!r.n) { CHECK(K.isComplete && P.isComplete && K.edges.empty() && P.edges.empty(), "spanning tree of the empty graph"); return; }
  ck(K, r.n - comps, "Kruskal", true); ck(P, cs - 1, "Prim", false); if (conn) CHECK_NEAR((double)K.totalWeight, (double)P.totalWeight, 1e-12 * (1 + std::fabs(K.totalWeight)), "Kruskal and Prim weights");
}
