// Dynamical systems, discrete maps and their analyses (C33).
#include "expr.h"
#include <type_traits>
#include <vector>
#include <complex>
#include "mml/MMLBase.h"
#include "mml/base/Vector/Vector.h"
#include "mml/base/Matrix/Matrix.h"
#include "mml/systems/DynamicalSystem.h"
#include "mml/systems/ContinuousSystems.h"
#include "mml/systems/DiscreteMaps.h"
#include "mml/systems/DynamicalSystemAnalyzers.h"
#include "mml/systems/DynamicalSystemAnalyzer.h"
using namespace vp; using namespace MML; using namespace MML::Systems;
typedef std::vector<double> V; typedef std::vector<V> M; typedef std::vector<int> VI; typedef std::vector<std::string> VS;
static Out out; static Rng* RR;
static Vector<Real> mk(const V& v) { Vector<Real> r((int)v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = v[i]; return r; }
static V un_(const Vector<Real>& v) { V r; for (int i = 0; i < v.size(); i++) r.push_back(v[i]); return r; }
static M um(const Matrix<Real>& m) { M r; for (int i = 0; i < m.rows(); i++) { V q; for (int j = 0; j < m.cols(); j++) q.push_back(m(i, j)); r.push_back(q); } return r; }
static M ul(const std::vector<Vector<Real>>& v) { M r; for (auto& x : v) r.push_back(un_(x)); return r; }
static M ue(const std::vector<std::complex<Real>>& v) { M r; for (auto& x : v) r.push_back(V{x.real(), x.imag()}); return r; }
struct Stop_ : std::runtime_error { Stop_() : std::runtime_error("calls") {} };
// a system given by expressions of the state followed by the parameters
struct XS : IDynamicalSystem {
  std::vector<E> f; V p; bool an; mutable long calls = 0; long limit = -1;
  XS(const std::vector<E>& a, const V& q = {}, bool an_ = true) : f(a), p(q), an(an_) {}
  int getDim() const override { return (int)f.size(); } int getNumParam() const override { return (int)p.size(); }
  Real getParam(int i) const override { return p[i]; } void setParam(int i, Real v) override { p[i] = v; } Vector<Real> getParams() const override { return mk(p); } void setParams(const Vector<Real>& q) override { p = un_(q); }
  V arg(const Vector<Real>& x) const { V y = un_(x); y.insert(y.end(), p.begin(), p.end()); return y; }
  void derivs(Real, const Vector<Real>& x, Vector<Real>& d) const override { if (limit >= 0 && ++calls > limit) throw Stop_(); V y = arg(x); for (size_t i = 0; i < f.size(); i++) d[i] = f[i].eval<double>(y.data()); }
  void jacobian(Real t, const Vector<Real>& x, Matrix<Real>& J) const override { if (!an) { IDynamicalSystem::jacobian(t, x, J); return; } int n = getDim(); J.Resize(n, n); V y = arg(x); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) J(i, j) = f[i].partial(y.data(), (int)y.size(), j); }
};
static double val() { Rng& R = *RR; int k = R.range(0, 4); return k == 0 ? R.range(-3, 3) : k == 1 ? R.range(-12, 12) / 8.0 : k == 2 ? R.uni(-2, 2) : k == 3 ? R.uni(-20, 20) : R.range(-1, 1) * 1.0; }
static V vals(int n) { V v; for (int i = 0; i < n; i++) v.push_back(val()); return v; }
template <class S> static void meta(const std::string& name, S&& made, const V& given) {
  S def; int n = made.getDim(), P = made.getNumParam(); VS st, pn; V lo, hi, df, ct, set = vals(P), got, set2 = vals(P), got2;
  for (int i = 0; i < n; i++) st.push_back(made.getStateName(i));
  for (int i = 0; i < P; i++) { pn.push_back(made.getParamName(i)); lo.push_back(made.getParamRange(i).first); hi.push_back(made.getParamRange(i).second); df.push_back(def.getParam(i)); ct.push_back(made.getParam(i)); }
  for (int i = P - 1; i >= 0; i--) made.setParam(i, set[i]);
  for (int i = 0; i < P; i++) got.push_back(made.getParam(i));
  V all = un_(made.getParams()); made.setParams(mk(set2)); for (int i = 0; i < P; i++) got2.push_back(made.getParam(i));
  out.ev(Ev("meta").kv("sys", name).kv("dim", n).kv("np", P).kv("states", st).kv("params", pn).kv("lo", lo).kv("hi", hi).kv("dflt", df).kv("given", given).kv("ctor", ct).kv("set", set).kv("got", got).kv("all", all).kv("set2", set2).kv("got2", got2));
}
template <class S> static void deriv(const std::string& name) {
  Rng& R = *RR; S s; int n = s.getDim(), P = s.getNumParam(); V x = vals(n), p = R.chance(1, 3) ? un_(s.getParams()) : vals(P);
  if (name == "doublependulum") { for (auto& q : p) q = q == 0 ? 1 : std::min(std::abs(q) + 0.25, 4.0); for (auto& q : x) q = std::max(-4.0, std::min(4.0, q)); }
  if (name == "henonheiles" || name == "doublependulum") {} for (int i = 0; i < P; i++) s.setParam(i, p[i]);
  Vector<Real> d(n); Matrix<Real> J(n, n); const IDynamicalSystem& I = s; I.derivs(R.uni(-5, 5), mk(x), d); I.jacobian(R.uni(-5, 5), mk(x), J);
  V inv; for (int i = 0; i < I.getNumInvariants(); i++) inv.push_back(I.computeInvariant(i, mk(x)));
  Ev e("deriv"); e.kv("sys", name).kv("x", x).kv("ps", p).kv("d", un_(d)).kv("J", um(J)).kv("ni", I.getNumInvariants()).kv("inv", inv);
  if constexpr (std::is_same_v<S, LorenzSystem>) e.kv("div", s.getDivergence());
  if constexpr (std::is_same_v<S, HenonHeilesSystem> || std::is_same_v<S, DoublePendulumSystem>) e.kv("energy", s.getEnergy(mk(x)));
  out.ev(e);
}
template <class Q, int N> static void mapev(const std::string& name, Q& m, const V& p, VS pn) {
  Rng& R = *RR; for (size_t i = 0; i < p.size(); i++) m.setParam((int)i, p[i]);
  V x = vals(N); if (name == "logistic" || name == "tent") x[0] = R.pick(V{0, 1, 0.25, 0.5, R.unit(), R.unit(), R.uni(-1, 2)}); if (name == "standard" && R.chance(1, 2)) for (auto& q : x) q = R.uni(0, 6.283);
  if (name == "henon") for (auto& q : x) q = R.uni(-1, 1);
  Vector<Real> y(N); Matrix<Real> J(N, N); IDiscreteMap<N>& I = m; I.map(mk(x), y); I.jacobian(mk(x), J); V it = un_(I.iterate(mk(x))), got; for (size_t i = 0; i < p.size(); i++) got.push_back(I.getParam((int)i));
  for (size_t i = 0; i < p.size(); i++) pn.push_back(I.getParamName((int)i));
  Ev e("map"); e.kv("m", name).kv("x", x).kv("ps", p).kv("y", un_(y)).kv("it", it).kv("J", um(J)).kv("got", got).kv("names", pn).kv("dim", I.getDim());
  if constexpr (std::is_same_v<Q, LogisticMap> || std::is_same_v<Q, HenonMap>) { int n = R.range(0, 7); auto o = m.orbit(mk(x), n); M its; Vector<Real> z = mk(x); bool fin = true; for (int k = 0; k < n; k++) { z = I.iterate(z); its.push_back(un_(z)); for (double q : un_(z)) fin = fin && std::abs(q) < 1e60; } if (fin) e.kv("n", n).kv("orbit", ul(o)).kv("its", its); }
  if constexpr (std::is_same_v<Q, HenonMap>) e.kv("det", m.jacobianDeterminant());
  out.ev(e);
}
static std::string IJ(const std::vector<VI>& m) { std::string s = "["; for (size_t i = 0; i < m.size(); i++) { s += i ? ",[" : "["; for (size_t j = 0; j < m[i].size(); j++) s += (j ? "," : "") + std::to_string(m[i][j]); s += "]"; } return s + "]"; }
// blocks, a unimodular similarity, and the matrix
struct Lin { std::vector<VI> B, S, A; };
static Lin rlin() {
  Rng& R = *RR; Lin L; int n = R.range(1, 3), k = 0; while (k < n) { if (n - k >= 2 && R.chance(1, 2)) { L.B.push_back({R.range(-2, 2), R.pick(VI{1, 2, -1, -3})}); k += 2; } else { L.B.push_back({R.range(-3, 3)}); k++; } }
  std::vector<VI> b(n, VI(n, 0)), Si(n, VI(n, 0)); L.S.assign(n, VI(n, 0)); int o = 0; for (auto& q : L.B) { for (size_t i = 0; i < q.size(); i++) b[o + i][o + i] = q[0]; if (q.size() == 2) { b[o][o + 1] = q[1]; b[o + 1][o] = -q[1]; } o += (int)q.size(); }
  for (int i = 0; i < n; i++) L.S[i][i] = Si[i][i] = 1;
  if (n > 1) for (int t = R.range(0, 3); t > 0; t--) { int i = R.range(0, n - 1), j; do j = R.range(0, n - 1); while (j == i); int c = R.range(-2, 2); for (int r = 0; r < n; r++) L.S[r][j] += c * L.S[r][i]; for (int r = 0; r < n; r++) Si[i][r] -= c * Si[j][r]; }
  auto mul = [&](const std::vector<VI>& x, const std::vector<VI>& y) { std::vector<VI> z(n, VI(n, 0)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int q = 0; q < n; q++) z[i][j] += x[i][q] * y[q][j]; return z; };
  L.A = mul(mul(L.S, b), Si); return L;
}
static std::vector<E> linf(const std::vector<VI>& A, const V& c) { int n = (int)A.size(); std::vector<E> f; for (int i = 0; i < n; i++) { E e = C(0); bool any = false; for (int j = 0; j < n; j++) { E t = C(A[i][j]) * (X(j + 1) - C(c[j])); e = any ? e + t : t; any = true; } f.push_back(e); } return f; }
static const char* stn(AlgorithmStatus s) { switch (s) { case AlgorithmStatus::Success: return "Success"; case AlgorithmStatus::MaxIterationsExceeded: return "MaxIterationsExceeded"; case AlgorithmStatus::AlgorithmSpecificFailure: return "AlgorithmSpecificFailure"; default: return "other"; } }
static bool eqd(double a, double b) { return a == b || (a != a && b != b); }
static bool samefp(const FixedPoint<Real>& a, const FixedPoint<Real>& b) { bool s = a.type == b.type && a.isStable == b.isStable && eqd(a.convergenceResidual, b.convergenceResidual) && a.iterations == b.iterations && a.location.size() == b.location.size(); for (int i = 0; s && i < a.location.size(); i++) s = eqd(a.location[i], b.location[i]); return s; }
static void fix() {
  Rng& R = *RR; Lin L = rlin(); int n = (int)L.A.size(); V c, g; for (int i = 0; i < n; i++) { c.push_back(R.chance(1, 2) ? R.range(-3, 3) : R.uni(-3, 3)); g.push_back(R.chance(1, 4) ? c.back() : R.chance(1, 2) ? R.range(-9, 9) : R.uni(-50, 50)); }
  bool an = R.chance(2, 3); double tol = R.pick(V{1e-8, 1e-10, 1e-6}); int mi = R.pick(VI{50, 50, 3, 1, 2, 0}); XS s(linf(L.A, c), {}, an);
  auto r = FixedPointFinder::Find(s, mk(g), tol, mi); DynSysConfig cfg; cfg.exception_policy = R.chance(1, 2) ? EvaluationExceptionPolicy::Propagate : EvaluationExceptionPolicy::ConvertToStatus; auto d = FindFixedPointDetailed(s, mk(g), tol, mi, cfg);
  // repeated eigenvalues of a non-diagonal matrix, and zero real parts with an approximate Jacobian, are not resolved by rounding
  bool fuzzy = false; for (size_t i = 0; i < L.B.size(); i++) { if (!an && L.B[i][0] == 0) fuzzy = true; for (size_t j = 0; j < i; j++) if (L.B[i][0] == L.B[j][0] && L.B[i].size() == 1 && L.B[j].size() == 1) { bool diag = true; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b && L.A[a][b]) diag = false; if (!diag) fuzzy = true; } }
  out.ev(Ev("fix").kv("A", Raw{IJ(L.A)}).kv("S", Raw{IJ(L.S)}).kv("B", Raw{IJ(L.B)}).kv("c", c).kv("g", g).kv("tol", tol).kv("maxit", mi).kv("an", an).kv("fuzzy", fuzzy).kv("loc", un_(r.location)).kv("resid", r.convergenceResidual).kv("iters", r.iterations).kv("kind", ToString(r.type)).kv("stable", (bool)r.isStable).kv("eig", ue(r.eigenvalues)).kv("J", um(r.jacobian)).kv("ok", d.IsSuccess()).kv("status", stn(d.status)).kv("same", samefp(r, d.fixed_point)));
}
static std::vector<E> field(const std::string& s) {
  E h = C(0.5);
  if (s == "lorenz") return {X(4) * (X(2) - X(1)), X(1) * (X(5) - X(3)) - X(2), X(1) * X(2) - X(6) * X(3)};
  if (s == "rossler") return {un("neg", X(2)) - X(3), X(1) + X(4) * X(2), X(5) + X(3) * (X(1) - X(6))};
  if (s == "vanderpol") return {X(2), X(3) * (C(1) - X(1) * X(1)) * X(2) - X(1)};
  return {X(3), X(4), un("neg", X(1)) - C(2) * X(1) * X(2), un("neg", X(2)) - X(1) * X(1) + X(2) * X(2)};
}
template <class S> static void fixb(const std::string& name) {
  Rng& R = *RR; S s; int n = s.getDim(); V p = un_(s.getParams()), g; for (auto& q : p) if (R.chance(1, 3)) { q = q * R.uni(0.5, 1.5); } s.setParams(mk(p)); for (int i = 0; i < n; i++) g.push_back(R.chance(1, 4) ? 0 : R.uni(-12, 12));
  double tol = R.pick(V{1e-8, 1e-9}); int mi = R.pick(VI{50, 50, 6, 3}); auto r = FixedPointFinder::Find(s, mk(g), tol, mi); auto d = FindFixedPointDetailed(s, mk(g), tol, mi); bool fin = true; for (double q : un_(r.location)) fin = fin && std::abs(q) < 1e9; if (!fin) return;
  out.ev(Ev("fixb").kv("f", field(name)).kv("ps", p).kv("g", g).kv("tol", tol).kv("loc", un_(r.location)).kv("resid", r.convergenceResidual).kv("kind", ToString(r.type)).kv("stable", (bool)r.isStable).kv("eig", ue(r.eigenvalues)).kv("J", um(r.jacobian)).kv("ok", d.IsSuccess()));
}
static void fixn() {   // Newton leaves the domain
  Rng& R = *RR; std::vector<E> f = {flog(X(1))}; XS s(f); V g = {R.chance(1, 2) ? R.uni(2.8, 6) : R.uni(0.2, 2.5)}; auto r = FixedPointFinder::Find(s, mk(g), 1e-9, 50); auto d = FindFixedPointDetailed(s, mk(g), 1e-9, 50);
  out.ev(Ev("fixb").kv("f", f).kv("ps", V{}).kv("g", g).kv("tol", 1e-9).kv("loc", un_(r.location)).kv("resid", r.convergenceResidual).kv("kind", ToString(r.type)).kv("stable", (bool)r.isStable).kv("eig", ue(r.eigenvalues)).kv("J", um(r.jacobian)).kv("ok", d.IsSuccess()));
}
static std::string fps(const std::vector<FixedPoint<Real>>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += Ev("p").kv("loc", un_(v[i].location)).kv("resid", v[i].convergenceResidual).str(); } return s + "]"; }
static void multi() {
  Rng& R = *RR; std::unique_ptr<IDynamicalSystem> s; int w = R.range(0, 3); if (w == 0) s.reset(new LorenzSystem()); else if (w == 1) s.reset(new RosslerSystem()); else if (w == 2) s.reset(new HenonHeilesSystem()); else s.reset(new XS({fsin(X(1))}));
  int n = s->getDim(), k = R.range(0, 6); std::vector<Vector<Real>> g; for (int i = 0; i < k; i++) { V x; for (int j = 0; j < n; j++) x.push_back(R.uni(-9, 9)); g.push_back(R.chance(1, 4) && i ? g[0] : mk(x)); }
  double tol = 1e-9, ut = w == 3 && R.chance(1, 2) ? 4.0 : 1e-6; auto r = R.chance(1, 2) ? FixedPointFinder::FindMultiple(*s, g, tol, ut) : DynamicalSystemAnalyzer<Real>(*s).FindFixedPoints(g, tol, ut); std::vector<FixedPoint<Real>> one; for (auto& x : g) one.push_back(FixedPointFinder::Find(*s, x, tol));
  for (auto& o : one) for (int j = 0; j < n; j++) if (!(std::abs(o.location[j]) < 1e9)) return;
  out.ev(Ev("multi").kv("tol", tol).kv("utol", ut).kv("res", Raw{fps(r)}).kv("one", Raw{fps(one)}));
}
static void box() {
  Rng& R = *RR; int n = R.range(1, 3), g = R.range(1, n == 3 ? 3 : 5); V lo, hi; for (int i = 0; i < n; i++) { lo.push_back(R.uni(-3, 0)); hi.push_back(lo.back() + R.uni(0.5, 4)); } XS s(std::vector<E>(n, C(0))); auto r = DynamicalSystemAnalyzer<Real>(s).FindFixedPointsInBox(mk(lo), mk(hi), g); M p; for (auto& q : r) p.push_back(un_(q.location));
  out.ev(Ev("box").kv("lo", lo).kv("hi", hi).kv("grid", g).kv("res", p));
}
static void numjac() { Rng& R = *RR; int n = R.range(1, 3); std::vector<E> f; for (int i = 0; i < n; i++) f.push_back(C(R.uni(-2, 2)) * X(R.range(1, n)) * X(R.range(1, n)) + fsin(X(R.range(1, n))) * C(R.range(-2, 2))); XS s(f, {}, false); V x; for (int i = 0; i < n; i++) x.push_back(R.uni(-3, 3)); Matrix<Real> J(1, 1); s.jacobian(0, mk(x), J); out.ev(Ev("numjac").kv("f", f).kv("x", x).kv("J", um(J))); }
struct Fam { std::string n; V p; V x; };
static Fam fam() { Rng& R = *RR; int w = R.range(0, 3); if (w == 0) return {"lorenz", {10, 28, 8.0 / 3}, {R.uni(-5, 5), R.uni(-5, 5), R.uni(0, 20)}}; if (w == 1) return {"rossler", {0.2, 0.2, 5.7}, {R.uni(-5, 5), R.uni(-5, 5), R.uni(0, 2)}}; if (w == 2) return {"vanderpol", {R.uni(0, 3)}, {R.uni(-2, 2), R.uni(-2, 2)}}; return {"hh", {0.1}, {R.uni(-0.4, 0.4), R.uni(-0.4, 0.4), R.uni(-0.3, 0.3), R.uni(-0.3, 0.3)}}; }
static std::unique_ptr<IDynamicalSystem> sysof(const Fam& f) { std::unique_ptr<IDynamicalSystem> s; if (f.n == "lorenz") s.reset(new LorenzSystem()); else if (f.n == "rossler") s.reset(new RosslerSystem()); else if (f.n == "vanderpol") s.reset(new VanDerPolSystem()); else s.reset(new HenonHeilesSystem()); s->setParams(mk(f.p)); return s; }
static void traj() {
  Rng& R = *RR; Fam f = fam(); auto s = sysof(f); double h = R.pick(V{0.0625, 0.03125, 0.015625}); int per = R.range(1, 4), nst = R.range(0, 12); double dto = per == 1 && R.chance(1, 2) ? h * 0.5 : per * h, T = nst * h - (nst && R.chance(1, 3) ? h / 2 : 0);
  auto p = R.chance(1, 2) ? PhaseSpaceAnalyzer::IntegrateTrajectory(*s, mk(f.x), T, dto, h) : DynamicalSystemAnalyzer<Real>(*s).IntegrateTrajectory(mk(f.x), T, dto, h); auto d = IntegrateTrajectoryDetailed(*s, mk(f.x), T, dto, h); bool same = d.IsSuccess() && ul(d.points) == ul(p);
  out.ev(Ev("traj").kv("f", field(f.n)).kv("ps", f.p).kv("x0", f.x).kv("T", T).kv("nst", nst).kv("dto", dto).kv("h", h).kv("pts", ul(p)).kv("same", same));
}
static void poin() {
  Rng& R = *RR; double w = R.pick(V{1, 0.5, 2}), a = R.uni(0, 6.28), r = R.uni(0.5, 2); V x0 = {r * std::cos(a), r * std::sin(a)}; int var = R.range(0, 1), dir = R.range(-1, 1), n = R.range(1, 5); double v = R.chance(1, 3) ? 0 : R.uni(-0.8, 0.8) * r; XS s({C(w) * X(2), C(-w) * X(1)}); s.limit = 200000; double h = R.pick(V{0.0625, 0.03125});
  std::vector<Vector<Real>> p; std::string ex = guarded([&] { PoincareSection<Real> sec(var, v, dir); int k = R.range(0, 2); p = k == 0 ? PhaseSpaceAnalyzer::ComputePoincareSection(s, mk(x0), sec, n, h) : k == 1 ? DynamicalSystemAnalyzer<Real>(s).ComputePoincareSection(mk(x0), sec, n, h) : ComputePoincareSectionDetailed(s, mk(x0), sec, n, h).intersections; });
  out.ev(Ev("poin").kv("w", w).kv("x0", x0).kv("var", var).kv("val", v).kv("dir", dir).kv("n", n).kv("ex", ex).kv("pts", ul(p)));
  // x' = 1: lands exactly on the section
  XS t({C(1), C(0)}); t.limit = 20000; double hh = 0.0625, x = R.range(-3, 3); int k = R.range(1, 40), dd = R.range(0, 1); double at = x + 100 + k * hh; std::vector<Vector<Real>> q; ex = guarded([&] { q = PhaseSpaceAnalyzer::ComputePoincareSection(t, mk({x, 2}), PoincareSection<Real>(0, at, dd), 1, hh); });
  out.ev(Ev("land").kv("ex", ex).kv("pts", ul(q)).kv("want", V{at, 2}));
}
static void sweep() {
  Rng& R = *RR; std::vector<E> f; V ps; int pi = 0; bool vdp = false; V x0; if (R.chance(1, 2)) { f = {X(2), un("neg", X(3)) * X(1) - X(4) * X(2)}; ps = {4, 0.125}; pi = R.range(0, 1); x0 = {R.uni(-2, 2), R.uni(-2, 2)}; } else { f = {X(2), X(3) * (C(1) - X(1) * X(1)) * X(2) - X(1)}; ps = {1}; x0 = {R.uni(-2, 2), R.uni(-2, 2)}; vdp = true; }
  XS s(f, ps); int steps = R.range(1, 3), comp = R.range(0, 1), ntr = R.range(0, 4), nrec = R.range(3, 16); double h = vdp ? R.pick(V{0.0625, 0.125}) : R.pick(V{0.125, 0.25}), a = R.uni(0.25, 1), b = R.chance(1, 5) ? a : R.uni(0.25, vdp ? 1.5 : 4);
  auto d = R.chance(1, 3) ? SweepBifurcationDetailed(s, pi, a, b, steps, mk(x0), comp, ntr * h, nrec * h, h).diagram : BifurcationAnalyzer::Sweep(s, pi, a, b, steps, mk(x0), comp, ntr * h, nrec * h, h); V par(d.parameterValues.begin(), d.parameterValues.end()); M att; for (auto& v : d.attractorValues) att.push_back(V(v.begin(), v.end()));
  out.ev(Ev("sweep").kv("f", f).kv("ps", ps).kv("pi", pi + 1).kv("after", s.p).kv("x0", x0).kv("steps", steps).kv("pmin", a).kv("pmax", b).kv("comp", comp + 1).kv("ntr", ntr).kv("nrec", nrec).kv("h", h).kv("name", d.parameterName).kv("par", par).kv("att", att));
}
static Ev lyres(const std::string& op, const LyapunovResult<Real>& r, double T) { Ev e(op); e.kv("ex", un_(r.exponents)).kv("max", r.maxExponent).kv("sum", r.sum).kv("ky", r.kaplanYorkeDimension).kv("chaotic", r.isChaotic).kv("north", r.numOrthonormalizations).kv("time", r.totalTime).kv("T", T); return e; }
static void lyap() {
  Rng& R = *RR; int n = R.range(1, 3); std::vector<VI> A(n, VI(n, 0)); bool tri = R.chance(2, 3); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!tri || j >= i) A[i][j] = R.range(-2, 2);
  XS s(linf(A, V(n, 0))); double h = R.pick(V{0.0625, 0.125}), dto = R.pick(V{0.25, 0.5, 1}), T = R.range(1, 6) * (tri && R.chance(1, 3) ? 0.25 : 0.5); V x0; for (int i = 0; i < n; i++) x0.push_back(R.uni(-1, 1)); bool D = R.chance(1, 3); LyapunovResult<Real> r = D ? ComputeLyapunovDetailed(s, mk(x0), T, dto, h).lyapunov : R.chance(1, 2) ? LyapunovAnalyzer::Compute(s, mk(x0), T, dto, h) : DynamicalSystemAnalyzer<Real>(s).ComputeLyapunov(mk(x0), T, dto, h);
  out.ev(lyres(tri ? "lylin" : "lysum", r, T).kv("A", Raw{IJ(A)}).kv("h", h).kv("wnorth", (int)std::ceil(T / dto)));
  Fam f = fam(); auto b = sysof(f); double TT = R.range(1, 5); out.ev(lyres("lyany", LyapunovAnalyzer::Compute(*b, mk(f.x), TT, 0.5, 0.01), TT));
}
static void scan() {
  Rng& R = *RR; XS s({X(2) * X(1)}, {0.5}); int steps = R.range(1, 4); double a = R.uni(-1, 0.5), b = a + R.uni(0, 1); auto r = DynamicalSystemAnalyzer<Real>(s).ScanChaosVsParameter(0, a, b, steps, mk({1e-3}), 2); V par, ly; for (auto& q : r) { par.push_back(q.first); ly.push_back(q.second); }
  out.ev(Ev("scan").kv("steps", steps).kv("pmin", a).kv("pmax", b).kv("par", par).kv("ly", ly).kv("before", 0.5).kv("after", s.p[0]));
}
struct LinMap : IDiscreteMap<2> { VI a; LinMap(const VI& q) : a(q) {} void map(const Vector<Real>& x, Vector<Real>& y) const override { double u = a[0] * x[0] + a[1] * x[1], v = a[2] * x[0] + a[3] * x[1]; y[0] = u; y[1] = v; } void jacobian(const Vector<Real>&, Matrix<Real>& J) const override { J.Resize(2, 2); J(0, 0) = a[0]; J(0, 1) = a[1]; J(1, 0) = a[2]; J(1, 1) = a[3]; } Real getParam(int i) const override { return a[i]; } void setParam(int i, Real v) override { a[i] = (int)v; } std::string getParamName(int) const override { return "a"; } std::string getStateName(int) const override { return "x"; } };
template <class Q, int N> static void mly(const std::string& name, Q& m, const V& p, const V& x0, Ev e = Ev("mly")) {
  Rng& R = *RR; int skip = R.range(0, 4), n = R.range(1, 8); Vector<Real> x = mk(x0), y(N); M xs; for (int k = 0; k < skip + n; k++) { if (k >= skip) xs.push_back(un_(x)); m.map(x, y); x = y; }
  auto r = DiscreteMapLyapunov<N>::Compute(m, mk(x0), n, skip); out.ev(e.kv("m", name).kv("ps", p).kv("xs", xs).kv("ex", un_(r.exponents)).kv("max", r.maxExponent).kv("chaotic", r.isChaotic));
}
static void maps() {
  Rng& R = *RR; { LogisticMap m; V p = {R.pick(V{4, 3.9, 2, R.uni(0, 4), R.uni(-1, 5)})}; mapev<LogisticMap, 1>("logistic", m, p, {}); LogisticMap q(R.pick(V{4, 3.7})); mly<LogisticMap, 1>("logistic", q, {q.getParam(0)}, {R.uni(0.05, 0.45)}); }
  { HenonMap m; V p = {R.uni(-2, 2), R.uni(-1, 1)}; mapev<HenonMap, 2>("henon", m, p, {}); double b = R.pick(V{0.3, 0.25, -0.3}); HenonMap q(1.2, b); mly<HenonMap, 2>("henon", q, {1.2, b}, {R.uni(-0.3, 0.3), R.uni(-0.1, 0.1)}); }
  { StandardMap m; V p = {R.uni(-2, 2)}; mapev<StandardMap, 2>("standard", m, p, {}); StandardMap q(p[0]); mly<StandardMap, 2>("standard", q, p, {R.uni(0, 6), R.uni(0, 6)}); }
  { TentMap m; V p = {R.pick(V{2, 1, 1.5, R.uni(-1, 3)})}; mapev<TentMap, 1>("tent", m, p, {}); }
  { VI a; bool tri = R.chance(2, 3); do { a = {R.range(-3, 3), R.range(-2, 2), tri ? 0 : R.range(-2, 2), R.range(-3, 3)}; } while (a[0] * a[3] - a[1] * a[2] == 0 || (tri && (a[0] == 0 || a[3] == 0))); LinMap m(a); mly<LinMap, 2>("lin", m, {}, {1, 0.5}, Ev("mly").kv("A", Raw{IJ({{a[0], a[1]}, {a[2], a[3]}})}).kv("tri", tri)); }
}
static void report() {
  Rng& R = *RR; std::unique_ptr<IDynamicalSystem> s; V x0; int w = R.range(0, 2); if (w == 0) { s.reset(new LorenzSystem()); x0 = {1, R.uni(0, 2), 3}; } else if (w == 1) { s.reset(new HenonHeilesSystem()); x0 = {0.1, R.uni(-0.2, 0.2), 0.1, 0}; } else { V c = {R.uni(-1, 1), R.uni(-1, 1)}; Lin L; do L = rlin(); while (L.A.size() != 2); s.reset(new XS(linf(L.A, c), {1.5, 2.5})); x0 = {R.uni(-1, 1), R.uni(-1, 1)}; }
  std::vector<Vector<Real>> g; if (R.chance(1, 2)) for (int k = 0; k < 3; k++) { V x; for (int i = 0; i < s->getDim(); i++) x.push_back(R.uni(-8, 8)); g.push_back(mk(x)); }
  DynamicalSystemAnalyzer<Real> a(*s); double T = R.range(1, 3); auto r = a.Analyze(mk(x0), g, T); VS k; for (auto& f : r.fixedPoints) k.push_back(ToString(f.type)); int n = s->getDim(); bool nm = (int)r.stateNames.size() == n && (int)r.paramNames.size() == s->getNumParam(); for (int i = 0; nm && i < n; i++) nm = r.stateNames[i] == s->getStateName(i); for (int i = 0; nm && i < s->getNumParam(); i++) nm = r.paramNames[i] == s->getParamName(i);
  bool ag = r.isChaotic == r.lyapunov.isChaotic && r.kaplanYorkeDimension == r.lyapunov.kaplanYorkeDimension && a.IsChaotic(mk(x0), T) == r.isChaotic && a.IsDissipative(mk(x0), T) == r.isDissipative && a.GetFractalDimension(mk(x0), T) == r.kaplanYorkeDimension && eqd(a.GetLyapunovTime(mk(x0), T), r.lyapunovTime) && a.ComputeMaxLyapunov(mk(x0), T) == r.lyapunov.maxExponent;
  out.ev(Ev("report").kv("kinds", k).kv("ns", r.numStableFixedPoints).kv("nu", r.numUnstableFixedPoints).kv("nsad", r.numSaddlePoints).kv("dim", r.dimension).kv("n", n).kv("np", r.numParameters).kv("ps", un_(s->getParams())).kv("cur", un_(r.currentParams)).kv("names", nm).kv("sum", r.lyapunov.sum).kv("max", r.lyapunov.maxExponent).kv("diss", r.isDissipative).kv("cons", r.isConservative).kv("lt", r.lyapunovTime).kv("agree", ag));
}
static void metas() {
  V v = vals(5); meta("lorenz", LorenzSystem(v[0], v[1], v[2]), {v[0], v[1], v[2]}); meta("rossler", RosslerSystem(v[0], v[1], v[2]), {v[0], v[1], v[2]}); meta("vanderpol", VanDerPolSystem(v[0]), {v[0]}); meta("duffing", DuffingSystem(v[0], v[1], v[2], v[3], v[4]), v);
  meta("chua", ChuaCircuit(v[0], v[1], v[2], v[3]), {v[0], v[1], v[2], v[3]}); meta("henonheiles", HenonHeilesSystem(v[0]), {v[0]}); meta("doublependulum", DoublePendulumSystem(v[0], v[1], v[2], v[3], v[4]), v);
}
int main(int ac, char** av) {
  Args a = args(ac, av); out.open(a.out.c_str()); Rng R(a.seed); RR = &R; int K = a.thorough() ? 12 : 1;
  auto go = [&](const char* id, int n, auto fn) { for (int k = 0; k < n * K; k++) { out.begin(std::string(id) + std::to_string(k)); fn(); out.end(); } };
  go("meta", 2, [] { metas(); });
  go("field", 30, [] { deriv<LorenzSystem>("lorenz"); deriv<RosslerSystem>("rossler"); deriv<VanDerPolSystem>("vanderpol"); deriv<DuffingSystem>("duffing"); deriv<ChuaCircuit>("chua"); deriv<HenonHeilesSystem>("henonheiles"); deriv<DoublePendulumSystem>("doublependulum"); numjac(); });
  go("map", 30, [] { maps(); });
  go("fix", 30, [] { for (int i = 0; i < 6; i++) fix(); fixb<LorenzSystem>("lorenz"); fixb<RosslerSystem>("rossler"); fixb<VanDerPolSystem>("vanderpol"); fixb<HenonHeilesSystem>("hh"); fixn(); multi(); });
  go("box", 8, [] { box(); });
  go("traj", 20, [] { traj(); });
  go("poin", 16, [] { poin(); });
  go("sweep", 20, [] { sweep(); });
  go("lyap", 16, [] { lyap(); scan(); });
  go("report", 8, [] { report(); });
  out.close(); return 0;
}
