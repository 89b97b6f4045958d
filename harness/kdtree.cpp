// C10: records histories of KDTree<2..4>, KDTree2D, KDTree3D
#include "vp.h"
#include "algorithms/CompGeometry/KDTree.h"
using namespace MML; using namespace vp;
static Out out;
typedef std::vector<double> Pv;
template <int D> struct Gen { typedef KDTree<D> T; typedef VectorN<Real, D> P;
  static P mk(const Pv& v) { P p; for (int i = 0; i < D; i++) p[i] = v[i]; return p; }
  static Pv back(const P& p) { Pv v; for (int i = 0; i < D; i++) v.push_back(p[i]); return v; } };
struct W2 { typedef KDTree2D T; typedef Point2Cartesian P; static P mk(const Pv& v) { return P(v[0], v[1]); } static Pv back(const P& p) { return {p.X(), p.Y()}; } };
struct W3 { typedef KDTree3D T; typedef Point3Cartesian P; static P mk(const Pv& v) { return P(v[0], v[1], v[2]); } static Pv back(const P& p) { return {p.X(), p.Y(), p.Z()}; } };
static std::vector<int> ints(const std::vector<size_t>& v) { return std::vector<int>(v.begin(), v.end()); }
template <class K> void history(Rng& R, int D, const std::string& id, bool thorough) {
  out.begin(id); typename K::T t; int steps = R.range(1, 3); std::vector<Pv> pts;
  int style = R.range(0, 6);          // coordinate style
  double scale = style == 5 ? 1e6 : style == 6 ? 1e-7 : 1;
  int tol = style >= 3 ? 8 : 4;
  auto co = [&]() -> double { switch (style) { case 0: return R.range(0, 3); case 1: return R.range(-6, 6); case 2: return R.range(0, 1); case 3: return R.range(-8, 8) * 0.1; default: return R.uni(-1, 1) * scale; } };
  auto rp = [&]() { Pv p; for (int i = 0; i < D; i++) p.push_back(co()); return p; };
  auto query = [&]() { Pv p = rp(); if (pts.size() && R.chance(1, 4)) p = pts[R.range(0, pts.size() - 1)]; else if (R.chance(1, 5)) for (auto& x : p) x = x * 5 + scale; if (R.chance(1, 8)) for (auto& x : p) x += 0.5 * scale; return p; };
  auto queries = [&]() {
    int nq = thorough ? 14 : 9;
    for (int j = 0; j < nq; j++) {
      Pv q = query(); auto Q = K::mk(q);
      { auto r = t.findNearest(Q); out.ev(Ev("nearest").kv("q", q).kv("found", r.found).kv("status", (int)r.status).kv("i", r.found ? (int)r.index : -1).kv("d", r.distance).kv("k", tol)); }
      int n = R.chance(1, 6) ? R.range(-1, 0) : R.chance(1, 5) ? (int)pts.size() + R.range(-1, 3) : R.range(1, 7);
      { auto r = t.findKNearest(Q, n); out.ev(Ev("knn").kv("q", q).kv("n", n).kv("status", (int)r.status).kv("i", ints(r.indices)).kv("d", r.distances).kv("k", tol)); }
      double r0 = R.chance(1, 10) ? 0.0 : R.chance(1, 12) ? -1.0 : style < 3 ? R.range(0, 9) * 0.5 : R.uni(0, 2) * scale;
      { auto r = t.findInRadius(Q, r0); out.ev(Ev("radius").kv("q", q).kv("r", r0).kv("status", (int)r.status).kv("i", ints(r.indices)).kv("d", r.distances).kv("k", style < 3 ? 0 : 8)); }
      Pv a = query(), b = query(); if (!R.chance(1, 10)) for (int i = 0; i < D; i++) if (a[i] > b[i]) std::swap(a[i], b[i]);
      { auto r = t.findInBox(K::mk(a), K::mk(b)); out.ev(Ev("box").kv("lo", a).kv("hi", b).kv("i", ints(r))); }
    } };
  auto backs = [&]() { std::vector<Pv> b; for (size_t i = 0; i < t.size(); i++) b.push_back(K::back(t.point(i))); return b; };
  if (R.chance(1, 8)) queries();
  for (int s = 0; s < steps; s++) {
    int n = R.chance(1, 10) ? R.range(0, 2) : R.chance(1, 8) ? R.range(60, thorough ? 200 : 90) : R.range(3, 40); pts.clear();
    int degen = R.range(0, 7);
    for (int i = 0; i < n; i++) { Pv p = rp();
      if (degen == 0) for (int k = 1; k < D; k++) p[k] = p[0];
      if (degen == 1) p[R.range(0, 1) ? 0 : D - 1] = scale;
      if (degen == 2 && i) p = pts[0];
      if (degen == 3 && i && R.chance(1, 2)) p = pts[R.range(0, i - 1)];
      if (degen == 4) p[0] = 0;
      pts.push_back(p); }
    KDTreeConfig c; int lf = R.range(0, 9); c.max_leaf_size = lf < 5 ? 1 + lf : lf == 5 ? 10 : lf == 6 ? 32 : lf == 7 ? 4 : lf == 8 ? 2 : 1; c.balanced = R.chance(3, 4);
    std::vector<typename K::P> v; for (auto& p : pts) v.push_back(K::mk(p));
    t.build(v, c);
    auto st = t.stats();
    out.ev(Ev("build").kv("pts", pts).kv("leaf", c.max_leaf_size).kv("size", (int)t.size()).kv("empty", t.empty()).kv("back", backs())
      .kv("stats", Raw{Ev("s").kv("n", (int)st.num_points).kv("nodes", (int)st.num_nodes).kv("leaves", (int)st.num_leaf_nodes).kv("depth", (int)st.tree_depth).str()}));
    queries();
    if (R.chance(1, 4)) { typename K::T u(std::move(t)); t = std::move(u); out.ev(Ev("move").kv("size", (int)t.size()).kv("empty", t.empty()).kv("back", backs())); queries(); }
    if (R.chance(1, 6)) { t.clear(); pts.clear(); out.ev(Ev("clear").kv("size", (int)t.size()).kv("empty", t.empty())); queries(); }
  }
  out.end();
}
static void leafzero(int lf) {      // any leaf size, also none
  out.begin("leaf" + std::to_string(lf)); KDTree<2> t; KDTreeConfig c; c.max_leaf_size = lf; std::vector<Pv> pts; std::vector<VectorN<Real, 2>> v;
  for (int i = 0; i < 5; i++) { pts.push_back({(double)(i % 3), (double)(i % 2)}); v.push_back(Gen<2>::mk(pts.back())); }
  t.build(v, c); auto st = t.stats();
  out.ev(Ev("build").kv("pts", pts).kv("leaf", lf).kv("size", (int)t.size()).kv("empty", t.empty()).kv("back", pts)
      .kv("stats", Raw{Ev("s").kv("n", (int)st.num_points).kv("nodes", (int)st.num_nodes).kv("leaves", (int)st.num_leaf_nodes).kv("depth", (int)st.tree_depth).str()}));
  out.end();
}
int main(int ac, char** av) {
  Args A = args(ac, av); Rng R(A.seed); out.open(A.out.c_str()); bool th = A.thorough();
  for (int lf : {0, -3, 1}) leafzero(lf);
  int n = th ? 800 : 60;
  for (int k = 0; k < n; k++) {
    std::string s = std::to_string(k);
    history<Gen<2>>(R, 2, "kd2-" + s, th); history<W2>(R, 2, "w2-" + s, th); history<W3>(R, 3, "w3-" + s, th);
    if (k % 2 == 0) history<Gen<3>>(R, 3, "kd3-" + s, th); else history<Gen<4>>(R, 4, "kd4-" + s, th);
    if (k % 4 == 0) history<Gen<1>>(R, 1, "kd1-" + s, th);
  }
  out.close();
}
