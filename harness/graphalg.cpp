// C09: records the results of mml/algorithms/GraphAlgorithms.h and GraphSpectral.h
#include <memory>
#include "vp.h"
#include "algorithms/GraphAlgorithms.h"
#include "algorithms/GraphSpectral.h"
using namespace MML; using namespace vp;
typedef Graph<int, double> G;
struct T { int u, v, w; };
struct GD { int n; bool dir, loops; std::vector<T> E; double sc; };
static Out out;
static std::vector<int> idx(const std::vector<size_t>& v) { std::vector<int> r; for (auto x : v) r.push_back(x == GRAPH_NOT_FOUND ? -1 : (int)x); return r; }
static Ev base(const char* op, const GD& d, int s) {
  std::string E = "["; for (size_t i = 0; i < d.E.size(); i++) { if (i) E += ","; E += "[" + js(d.E[i].u) + "," + js(d.E[i].v) + "," + js(d.E[i].w) + "]"; } E += "]";
  Ev e(op); e.kv("n", d.n).kv("dir", d.dir).kv("E", Raw{E}).kv("s", s).kv("sc", d.sc); return e;
}
static G build(const GD& d) {
  G g((size_t)d.n, d.dir ? G::Type::Directed : G::Type::Undirected, d.loops);
  for (auto& t : d.E) g.addEdge(t.u, t.v, t.w * d.sc);
  return g;
}
static bool bip(const GD& d) {
  std::vector<int> c(d.n, -1); bool ok = true;
  std::function<void(int, int)> f = [&](int v, int k) { if (c[v] >= 0) { if (c[v] != k) ok = false; return; } c[v] = k; for (auto& t : d.E) { if (t.u == v) f(t.v, 1 - k); if (t.v == v) f(t.u, 1 - k); } };
  for (int v = 0; v < d.n; v++) if (c[v] < 0) f(v, 0);
  return ok;
}
static void all(const std::string& id, const GD& d, bool heavy) {
  out.begin(id); G g = build(d);
  bool neg = false, loop = false; for (auto& t : d.E) { neg |= t.w < 0; loop |= t.u == t.v; }
  std::vector<int> starts; for (int s = 0; s <= d.n; s++) starts.push_back(s);
  for (int s : starts) {
    { auto r = BFS(g, s); out.ev(base("bfs", d, s).kv("order", idx(r.visitOrder)).kv("par", idx(r.parent)).kv("dist", r.distance).kv("nodes", (int)r.nodesVisited));
      if (s < d.n) for (int t = 0; t <= d.n; t++) out.ev(base("recon", d, s).kv("t", t).kv("path", idx(ReconstructPath(r.parent, s, t)))); }
    { auto r = DFS(g, s); out.ev(base("dfs", d, s).kv("order", idx(r.visitOrder)).kv("par", idx(r.parent)).kv("dist", r.distance).kv("nodes", (int)r.nodesVisited)); }
    for (int stop = 0; stop < 3; stop++) {
      std::vector<int> o; auto vis = [&](size_t v) { o.push_back((int)v); return stop == 0 || (int)o.size() < stop; };
      BFSVisit(g, s, vis); out.ev(base("bfsvisit", d, s).kv("stop", stop).kv("order", o)); o.clear();
      DFSVisit(g, s, vis); out.ev(base("dfsvisit", d, s).kv("stop", stop).kv("order", o)); }
    if (!neg) {
      auto r = Dijkstra(g, s); out.ev(base("dijkstra", d, s).kv("par", idx(r.parent)).kv("dist", r.distance).kv("nodes", (int)r.nodesVisited));
      for (int t = 0; t <= d.n; t++) { auto p = DijkstraPath(g, s, t); out.ev(base("path", d, s).kv("t", t).kv("found", p.found).kv("path", idx(p.path)).kv("total", p.totalWeight)); }
    }
    for (int t = 0; t <= d.n; t++) { auto p = ShortestPathUnweighted(g, s, t); out.ev(base("hoppath", d, s).kv("t", t).kv("found", p.found).kv("path", idx(p.path)).kv("total", p.totalWeight)); }
    { auto r = BellmanFord(g, s); bool n = HasNegativeCycle(g, s); out.ev(base("bf", d, s).kv("par", idx(r.parent)).kv("dist", r.distance).kv("nodes", (int)r.nodesVisited).kv("neg", n)); }
  }
  if (!d.dir) {
    auto c = ConnectedComponents(g); std::vector<std::vector<int>> cs; for (auto& x : c.components) cs.push_back(idx(x));
    out.ev(base("comps", d, 0).kv("num", (int)c.numComponents).kv("comps", cs).kv("ids", idx(c.componentId)).kv("conn", IsConnected(g)).kv("connS", IsConnectedSpectral(g)));
    auto mst = [&](const char* a, int s, const MSTResult& r) { std::string E = "["; bool f = true; for (auto& [u, v, w] : r.edges) { if (!f) E += ","; f = false; E += "[" + js((int)u) + "," + js((int)v) + "," + js(w) + "]"; } E += "]";
      out.ev(base("mst", d, s).kv("alg", a).kv("complete", r.isComplete).kv("edges", Raw{E}).kv("total", r.totalWeight)); };
    mst("kruskal", 0, Kruskal(g)); for (int s = 0; s <= d.n; s++) mst("prim", s, Prim(g, s));
  } else out.ev(base("reachall", d, 0).kv("conn", IsConnected(g)));
  { auto r = TopologicalSort(g); out.ev(base("topo", d, 0).kv("dag", r.isDAG).kv("isdag", IsDAG(g)).kv("order", idx(r.order))); }
  if (!loop) {
    out.ev(base("struct", d, 0).kv("diam", GraphDiameter(g)).kv("apl", AveragePathLength(g)).kv("dens", GraphDensity(g)).kv("degc", DegreeCentrality(g)).kv("clos", ClosenessCentrality(g)).kv("clus", AverageClusteringCoefficient(g)));
    out.ev(base("between", d, 0).kv("raw", BetweennessCentrality(g, false)).kv("norm", BetweennessCentrality(g, true)));
    if (!d.dir && !neg && d.n > 0) { out.ev(base("spectrum", d, 0).kv("ev", LaplacianEigenvalues(g)).kv("alg", AlgebraicConnectivity(g)).kv("bound", AlgebraicConnectivityBound(g)).kv("seq", LaplacianDegreeSequence(g)));
      if (d.n > 2 && ConnectedComponents(g).numComponents == 1 && !bip(d) && heavy) out.ev(base("eigencent", d, 0).kv("c", EigenvectorCentrality(g, 20000, 1e-12))); }
    double dp = 0.85; if (heavy) out.ev(base("pagerank", d, 0).kv("damp", dp).kv("rank", PageRank(g, dp, 5000, 1e-14)));
  }
  out.end();
}
int main(int ac, char** av) {
  Args A = args(ac, av); Rng R(A.seed); out.open(A.out.c_str());
  int k = 0;
  // every unweighted graph on up to 3 (thorough 4) vertices, directed with all loops patterns absent
  for (int n = 0; n <= 3; n++) for (int dir = 0; dir < 2; dir++) {
    std::vector<T> P; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) if (u != v && (dir || u < v)) P.push_back({u, v, 1});
    for (int m = 0; m < (1 << P.size()); m++) { GD d{n, (bool)dir, false, {}, 1.0}; for (size_t i = 0; i < P.size(); i++) if (m >> i & 1) d.E.push_back({P[i].u, P[i].v, 1 + (int)((i * 7 + m) % 3)}); all("all" + std::to_string(k++), d, true); }
  }
  { std::vector<T> P; for (int u = 0; u < 4; u++) for (int v = u + 1; v < 4; v++) P.push_back({u, v, 1});
    for (int m = 0; m < (1 << P.size()); m++) { GD d{4, false, false, {}, 0.5}; for (size_t i = 0; i < P.size(); i++) if (m >> i & 1) d.E.push_back({P[i].u, P[i].v, 1 + (int)((i * 5 + m) % 4)}); all("all" + std::to_string(k++), d, false); } }
  int nr = A.thorough() ? 1500 : 80;
  std::vector<double> scs{1, 0.25, 8, 0.0625};
  for (int i = 0; i < nr; i++) {
    GD d; d.n = R.range(2, A.thorough() ? 11 : 8); d.dir = R.chance(1, 2); d.loops = R.chance(1, 6); d.sc = R.pick(scs);
    int kind = R.range(0, 3); int lo = kind == 0 ? 0 : kind == 1 ? -2 : 1, hi = kind == 2 ? 3 : 20; int dens = R.range(1, 9);
    std::vector<T> P; for (int u = 0; u < d.n; u++) for (int v = 0; v < d.n; v++) if ((u != v || d.loops) && (d.dir || u <= v)) P.push_back({u, v, 0});
    for (size_t j = P.size(); j > 1; j--) std::swap(P[j - 1], P[R.range(0, j - 1)]);
    for (auto& p : P) if (R.chance(dens, 10)) { T t = p; if (!d.dir && R.chance(1, 2)) std::swap(t.u, t.v); t.w = R.range(lo, hi); if (kind == 1 && R.chance(3, 4)) t.w = std::abs(t.w) ; if (kind != 0 && t.w == 0) t.w = 1; d.E.push_back(t); }
    all("rnd" + std::to_string(i), d, kind != 1);
  }
  // long shapes: paths, cycles with chords, negative edges without a negative cycle
  for (int n : {9, 12}) { GD p{n, false, false, {}, 1}; for (int i = 0; i + 1 < n; i++) p.E.push_back({i + 1, i, 1 + i % 3}); all("path" + std::to_string(n), p, false);
    GD c{n, true, false, {}, 1}; for (int i = 0; i + 1 < n; i++) c.E.push_back({n - 2 - i, n - 1 - i, -1 - i % 2}); all("negpath" + std::to_string(n), c, false); c.E.push_back({n - 1, 0, 30}); all("negcyc" + std::to_string(n), c, false); c.E.back().w = 3; all("negcyc2" + std::to_string(n), c, false); }
  out.close();
}
