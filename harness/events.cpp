// Event detection (C19).
#include "expr.h"
#include "mml/MMLBase.h"
#include "mml/base/Vector/Vector.h"
#include "mml/interfaces/IODESystemWithEvents.h"
#include "mml/algorithms/ODESolvers/ODESolverEventDetection.h"
using namespace vp; using namespace MML;
typedef std::vector<double> V;
static Out out;
static Vector<Real> mv(const V& v) { Vector<Real> r((int)v.size()); for (size_t i = 0; i < v.size(); i++) r[(int)i] = v[i]; return r; }
static V sv(const Vector<Real>& v) { V r; for (int i = 0; i < v.size(); i++) r.push_back(v[i]); return r; }
struct Sys : IODESystemWithEvents {
  std::vector<E> fs, gs, sol; std::vector<std::string> dirs, acts; std::vector<std::vector<E>> hs; mutable std::string han; mutable int nh = 0;
  static V arg(Real t, const Vector<Real>& x) { V a{t}; for (int i = 0; i < x.size(); i++) a.push_back(x[i]); return a; }
  int getDim() const override { return (int)fs.size(); }
  void derivs(const Real t, const Vector<Real>& x, Vector<Real>& d) const override { V a = arg(t, x); for (size_t i = 0; i < fs.size(); i++) d[(int)i] = fs[i].eval<double>(a.data()); }
  int getNumEvents() const override { return (int)gs.size(); }
  Real eventFunction(int i, Real t, const Vector<Real>& x) const override { V a = arg(t, x); return gs[i].eval<double>(a.data()); }
  EventDirection getEventDirection(int i) const override { return dirs[i] == "up" ? EventDirection::Increasing : dirs[i] == "down" ? EventDirection::Decreasing : EventDirection::Both; }
  EventAction getEventAction(int i) const override { return acts[i] == "stop" ? EventAction::Stop : acts[i] == "restart" ? EventAction::Restart : EventAction::Continue; }
  void handleEvent(int i, Real t, Vector<Real>& x) const override {
    V a = arg(t, x); Ev e("h"); e.kv("i", i).kv("t", t).kv("x", sv(x)); V y; for (auto& h : hs[i]) y.push_back(h.eval<double>(a.data())); x = mv(y); e.kv("y", y);
    if (nh++ > 400) throw 1; han += (han.empty() ? "" : ",") + e.str();
  }
};
template <class S> static void go(Sys& s, const char* m, const V& x0, double t0, double te, double dt, double eps, double tol, double h0, double slack, double lip, double rate) {
  S in(s); Ev e("run"); s.han = ""; s.nh = 0; EventResult r(0, 1, 1, 1);
  std::string ex = guarded([&] { r = in.integrateWithEvents(s, mv(x0), t0, te, dt, eps, tol, h0); });
  if (s.nh > 400) return;   // restarts piling up
  e.kv("m", m).kv("sol", s.sol).kv("gs", s.gs).kv("dirs", s.dirs).kv("acts", s.acts).kv("hs", s.hs).kv("x0", x0).kv("t0", t0).kv("te", te).kv("dt", dt).kv("tol", tol).kv("slack", slack).kv("lip", lip).kv("rate", rate).kv("ex", ex);
  std::string ev; for (auto& q : r.events) { Ev k("e"); k.kv("i", q.eventIndex).kv("t", q.time).kv("x", sv(q.state)).kv("dir", q.direction == EventDirection::Increasing ? "up" : q.direction == EventDirection::Decreasing ? "down" : "both").kv("g", q.eventValue); ev += (ev.empty() ? "" : ",") + k.str(); }
  V ts; std::vector<V> xs; if (ex.empty()) for (int i = 0; i < r.solution.size(); i++) { ts.push_back(r.solution.getTValue(i)); V x; for (size_t c = 0; c < x0.size(); c++) x.push_back(r.solution.getXValue(i, (int)c)); xs.push_back(x); }
  e.kv("evs", Raw{"[" + ev + "]"}).kv("han", Raw{"[" + s.han + "]"}).kv("term", r.terminatedByEvent).kv("ft", r.finalTime).kv("fx", sv(r.finalState)).kv("ts", ts).kv("xs", xs);
  out.ev(e);
}
int main(int ac, char** av) {
  Args a = args(ac, av); out.open(a.out.c_str()); Rng R(a.seed);
  int N = a.thorough() ? 260 : 44;
  for (int q = 0; q < N; q++) {
    out.begin("v" + std::to_string(q));
    int fam = R.pick(std::vector<int>{0, 0, 0, 1, 2, 3}); Sys s; V x0; double T = R.pick(V{1, 2, 3.3}), slack = 1e-9, lip = 4, rate = 8; E t = X(1);
    int n;
    if (fam == 0 || fam == 3) {   // falling bodies: one or two
      int b = fam == 0 ? 1 : 2; n = 2 * b;
      for (int i = 0; i < b; i++) {
        double g = R.pick(V{-9.81, -10, -2, 0, 3}); if (i) g = R.pick(V{0, 0, 1});
        s.fs.push_back(X(2 * i + 3)); s.fs.push_back(C(g)); E y = X(2 * i + 2), v = X(2 * i + 3);
        s.sol.push_back(y + v * t + C(g / 2) * t * t); s.sol.push_back(v + C(g) * t);
        x0.push_back(R.pick(V{0, 0, 1, 2, 10})); x0.push_back(R.pick(V{0, 1, 4, 7, 12}));
      }
      rate = 40;
    } else if (fam == 1) {
      double w = R.pick(V{1, 2, 3}); n = 2; s.fs = {X(3), C(-w * w) * X(2)};
      s.sol = {X(2) * fcos(C(w) * t) + X(3) * fsin(C(w) * t) * C(1 / w), X(3) * fcos(C(w) * t) - X(2) * C(w) * fsin(C(w) * t)};
      x0 = {R.pick(V{0, 1, -2}), R.pick(V{0, 1, 2})}; if (x0[0] == 0 && x0[1] == 0) x0[0] = 1; slack = 5e-3; T *= 2; rate = 20;
    } else {
      n = 2; double k = R.pick(V{0.5, 1, -0.5}); s.fs = {C(-k) * X(2), C(1)}; s.sol = {X(2) * fexp(C(-k) * t), X(3) + t}; x0 = {R.pick(V{1, -2, 3}), 0}; slack = 1e-4;
    }
    int ne = R.range(1, 3); bool rst = false;
    for (int i = 0; i < ne; i++) {
      int c = R.range(0, n - 1); E g = X(c + 2);
      switch (R.range(0, 5)) { case 0: break; case 1: g = g - C(R.pick(V{0.5, 1, 2})); break; case 2: g = C(R.pick(V{0.5, 1.5, -0.5})) - g; break; case 3: g = X(1) - C(R.pick(V{0.3, 0.75, 1.1})); break; case 4: g = X(2) - C(0.5) * X(n == 4 ? 4 : 3); break; default: g = X(2) - C(R.pick(V{0.25, 0, 5})); }
      s.gs.push_back(g); s.dirs.push_back(R.pick(std::vector<std::string>{"up", "down", "both", "both"}));
      std::string ac = R.pick(std::vector<std::string>{"continue", "continue", "continue", "stop", "restart", "restart"}); s.acts.push_back(ac);
      std::vector<E> h; for (int k = 0; k < n; k++) h.push_back(X(k + 2));
      switch (R.range(0, 4)) { case 0: case 1: if (fam != 2) h[1] = C(-0.9) * X(3); break; case 2: h[0] = X(2) + C(1); break; case 3: if (fam != 2) h[1] = X(3) + C(2); break; default: break; }
      s.hs.push_back(h); if (ac == "restart") rst = true;
    }
    if (q < 6) {   // the bouncing ball
      n = 2; s = Sys(); s.fs = {X(3), C(-10)}; s.sol = {X(2) + X(3) * t + C(-5) * t * t, X(3) + C(-10) * t}; x0 = {R.pick(V{5, 1.25, 0}), R.pick(V{0, 3})}; if (x0[0] == 0) x0[1] = 4;
      s.gs = {X(2), X(3), X(2) - C(0.5)}; s.dirs = {q % 2 ? "down" : "both", "both", "up"}; s.acts = {"restart", "continue", "continue"}; s.hs = {{q < 3 ? X(2) : C(0), C(-0.9) * X(3)}, {X(2), X(3)}, {X(2), X(3)}}; rst = true; T = 2.5; slack = 1e-9; rate = 40;
    }
    double t0 = R.pick(V{0, 0, 0, 1.5, -2});
    if (t0 != 0) for (auto& g : s.gs) if (g.op == "-" && g.a[0].op == "x" && g.a[0].k == 1) g = g - C(t0);
    double dt = T / R.pick(V{40, 25, 12.3, 7}), eps = R.pick(V{1e-10, 1e-8, 1e-10}), tol = R.pick(V{1e-12, 1e-9, 1e-12}), h0 = R.pick(V{0, 0, 0.01});
    if (fam == 1 && dt > 0.25) dt = 0.25;
    (void)rst; if (eps > 1e-9 && slack < 1e-3) slack = std::max(slack, slack == 1e-9 ? 1e-9 : 1e-3);
    for (int k = 0; k < 2; k++) switch (R.range(0, 4)) {
      case 0: case 1: go<DormandPrince5EventIntegrator>(s, "dp5", x0, t0, t0 + T, dt, eps, tol, h0, slack, lip, rate); break;
      case 2: go<CashKarpEventIntegrator>(s, "ck", x0, t0, t0 + T, dt, eps, tol, h0, slack, lip, rate); break;
      case 3: go<DormandPrince8EventIntegrator>(s, "dp8", x0, t0, t0 + T, dt, eps, tol, h0, slack, lip, rate); break;
      default: go<BulirschStoerEventIntegrator>(s, "bs", x0, t0, t0 + T, dt, eps, tol, h0, slack, lip, rate);
    }
    out.end();
  }
  out.close(); return 0;
}
