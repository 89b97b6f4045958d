// C08: records histories of MML::Graph objects
#include <memory>
#include "vp.h"
#include "base/Graph.h"
#include <sstream>
using namespace MML; using namespace vp;
typedef Graph<int, double> G;
static Out out;
template <class M> static std::string jm(const M& m) {
  std::string s = "["; for (int i = 0; i < (int)m.rows(); i++) { if (i) s += ","; s += "["; for (int j = 0; j < (int)m.cols(); j++) { if (j) s += ","; s += js((double)m(i, j)); } s += "]"; } return s + "]";
}
static std::string obs(const G& g) {
  size_t n = g.numVertices(); Ev e("o");
  e.kv("nv", (int)n).kv("ne", (int)g.numEdges()).kv("empty", g.isEmpty()).kv("dir", g.isDirected()).kv("undir", g.isUndirected()).kv("loops", g.allowsSelfLoops()).kv("weighted", g.isWeighted());
  std::vector<int> data, deg, od, id; for (size_t i = 0; i < n; i++) { data.push_back(g.vertexData(i)); deg.push_back(g.degree(i)); od.push_back(g.outDegree(i)); id.push_back(g.inDegree(i)); }
  e.kv("data", data).kv("deg", deg).kv("outd", od).kv("ind", id);
  std::string has = "[", wt = "[", nb = "[";
  for (size_t u = 0; u <= n; u++) { if (u) has += ",", wt += ","; has += "["; wt += "[";
    for (size_t v = 0; v <= n; v++) { if (v) has += ",", wt += ","; has += js(g.hasEdge(u, v)); double w = 0; std::string x = guarded([&] { w = g.edgeWeight(u, v); }); wt += x.empty() ? js(w) : js(x); }
    has += "]"; wt += "]"; }
  for (size_t u = 0; u < n; u++) { if (u) nb += ","; nb += "["; bool f = true; for (auto& ed : g.neighbors(u)) { if (!f) nb += ","; f = false; nb += "[" + js((int)ed.to) + "," + js(ed.weight) + "]"; } nb += "]"; }
  e.kv("has", Raw{has + "]"}).kv("wt", Raw{wt + "]"}).kv("nbr", Raw{nb + "]"});
  e.kv("adjM", Raw{jm(g.toAdjacencyMatrix())}).kv("degM", Raw{jm(g.toDegreeMatrix())}).kv("lapM", Raw{jm(g.toLaplacianMatrix())}).kv("nlap", Raw{jm(g.toNormalizedLaplacian())});
  return e.str();
}
struct Run {
  std::unique_ptr<G> g;
  void create(bool d, bool l, int n) {
    auto t = d ? G::Type::Directed : G::Type::Undirected;
    if (n) g.reset(new G((size_t)n, t, l)); else g.reset(new G(t, l));
    out.ev(Ev("new").kv("dir", d).kv("loops", l).kv("n", n).kv("obs", Raw{obs(*g)}));
  }
  void addV(int d) { size_t r = g->addVertex(d); out.ev(Ev("addVertex").kv("d", d).kv("res", (int)r).kv("obs", Raw{obs(*g)})); }
  void setData(int u, int d) { std::string x = guarded([&] { g->vertexData(u) = d; }); out.ev(Ev("setData").kv("u", u).kv("d", d).kv("res", x.empty() ? std::string("ok") : x).kv("obs", Raw{obs(*g)})); }
  void addE(int u, int v, double w) { std::string x = guarded([&] { g->addEdge(u, v, w); }); out.ev(Ev("addEdge").kv("u", u).kv("v", v).kv("w", w).kv("res", x.empty() ? std::string("ok") : x).kv("obs", Raw{obs(*g)})); }
  void rem(int u, int v) { bool r = g->removeEdge(u, v); out.ev(Ev("removeEdge").kv("u", u).kv("v", v).kv("res", r).kv("obs", Raw{obs(*g)})); }
  void clear() { g->clear(); out.ev(Ev("clear").kv("obs", Raw{obs(*g)})); }
  void copy() { G c(*g); G m; m = c; c.clear(); *g = std::move(m); out.ev(Ev("copy").kv("obs", Raw{obs(*g)})); }
  void reserve(int n) { g->reserve(n); out.ev(Ev("reserve").kv("obs", Raw{obs(*g)})); }
};
int main(int ac, char** av) {
  Args A = args(ac, av); Rng R(A.seed); out.open(A.out.c_str());
  if (!A.script.empty()) {       // behaviours of the specification
    std::ifstream f(A.script); std::string line; int k = 0;
    while (std::getline(f, line)) { if (line.empty()) continue;
      out.begin("spec" + std::to_string(k++)); Run r; std::stringstream ls(line); std::string ev;
      while (std::getline(ls, ev, ';')) { std::stringstream s(ev); std::string op; s >> op; int a = 0, b = 0, c = 0; s >> a >> b >> c;
        if (op == "new") r.create(a, b, c); else if (op == "addVertex") r.addV(a); else if (op == "addEdge") r.addE(a, b, c); else if (op == "removeEdge") r.rem(a, b); else if (op == "clear") r.clear(); }
      out.end(); }
  }
  int nr = A.thorough() ? 3000 : 250;
  for (int k = 0; k < nr; k++) {
    out.begin("rnd" + std::to_string(k)); Run r; r.create(R.chance(1, 2), R.chance(1, 2), R.range(0, 7));
    int steps = R.range(5, 30);
    for (int i = 0; i < steps; i++) {
      int n = r.g->numVertices(), u = R.range(0, n), v = R.range(0, n); int what = R.range(0, 19);
      if (R.chance(9, 10) && n) { u = R.range(0, n - 1); v = R.range(0, n - 1); }
      if (what < 11) r.addE(u, v, R.chance(1, 3) ? 1.0 : R.range(-3, 12) * 0.25);
      else if (what < 15) { if (R.chance(2, 3) && u < n && n) { auto& nb = r.g->neighbors(u); if (nb.size()) { size_t i = nb.size() > 1 ? R.range(0, nb.size() - 1) : 0; v = nb[i].to; if (R.chance(1, 2)) std::swap(u, v); } } r.rem(u, v); }
      else if (what == 15) { if (n < 9) r.addV(R.range(-5, 99)); }
      else if (what == 16) r.setData(u, R.range(0, 50)); else if (what == 17) r.copy(); else if (what == 18) r.reserve(R.range(0, 30)); else if (R.chance(1, 6)) r.clear();
    }
    out.end();
  }
  auto fac = [&](const char* k, int n, int m, const G& g) { out.begin(std::string("factory-") + k + std::to_string(n) + "-" + std::to_string(m)); out.ev(Ev("factory").kv("kind", k).kv("n", n).kv("m", m).kv("obs", Raw{obs(g)})); out.end(); };
  for (int n = 0; n <= 6; n++) {
    fac("complete", n, 0, createCompleteGraph<int, double>(n)); fac("star", n, 0, createStarGraph<int, double>(n));
    fac("path", n, 0, createPathGraph<int, double>(n)); fac("cycle", n, 0, createCycleGraph<int, double>(n));
    for (int m = 0; m <= 4; m++) fac("grid", n, m, createGridGraph<int, double>(n, m));
  }
  out.close();
}
