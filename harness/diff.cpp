// Numerical and automatic differentiation (C22).
#include "expr.h"
#include <type_traits>
#include <vector>
#include "mml/MMLBase.h"
#include "mml/base/Function.h"
#include "mml/base/Vector/VectorN.h"
#include "mml/base/Vector/Vector.h"
#include "mml/base/Matrix/MatrixNM.h"
#include "mml/base/Tensor.h"
#include "mml/interfaces/ITensorField.h"
#include "mml/core/Derivation.h"
#include "mml/core/Derivation/Jacobians.h"
#include "mml/core/Derivation/ForwardAD.h"
using namespace vp; using namespace MML; namespace Dv = MML::Derivation;
typedef std::vector<double> V; typedef std::vector<int> VI;
static Out out;
static Rng* RR;
struct It { E e; VI is; double h, v; bool has; double est; };
static void fd(const std::string& f, const V& x, const std::vector<It>& it, bool same) {
  std::string s = "[";
  for (size_t k = 0; k < it.size(); k++) { Ev o("i"); o.kv("e", it[k].e).kv("is", it[k].is).kv("h", it[k].h).kv("v", it[k].v); if (it[k].has) o.kv("est", it[k].est); if (k) s += ","; s += o.str(); }
  out.ev(Ev("fd").kv("f", f).kv("x", x).kv("same", same).kv("it", Raw{s + "]"}));
}
static bool eq(double a, double b) { return a == b || (a != a && b != b); }
struct RF : IRealFunction {
  E e; mutable V pts; mutable int calls = 0; int fault = 0;
  RF(const E& e_, int f = 0) : e(e_), fault(f) {}
  Real operator()(Real x) const override { pts.push_back(x); calls++; if (fault == 1 && calls == 2) return std::nan(""); if (fault == 2 && calls == 2) throw std::runtime_error("x"); if (fault == 3 && calls == 1) return INFINITY; return e(x); }
};
static double coef() { Rng& R = *RR; return R.chance(1, 5) ? 0 : R.chance(1, 4) ? R.uni(-3, 3) : (double)R.range(-4, 4); }
static E mono(const VI& d) { E e = C(1); bool any = false; for (size_t i = 0; i < d.size(); i++) if (d[i]) { E t = d[i] == 1 ? X((int)i + 1) : pw(X((int)i + 1), d[i]); e = any ? e * t : t; any = true; } return e; }
// a polynomial of n variables: degree at most dg in v, small in the others
static E rpoly(int n, int v, int dg) {
  Rng& R = *RR; E s = C(coef()); int T = R.range(2, 4);
  for (int t = 0; t < T; t++) { VI d(n, 0); for (int i = 0; i < n; i++) d[i] = i == v ? (t == 0 ? dg : R.range(0, dg)) : R.range(0, 2); double c = coef(); s = s + C(t == 0 && c == 0 ? 1 : c) * mono(d); }
  return s;
}
static E mpoly(int n, int a, int b, int mx, int tot) {   // in two variables: degrees <= mx, total <= tot
  Rng& R = *RR; E s = C(coef());
  for (int t = 0; t < 4; t++) { VI d(n, 0); do { d[a] = R.range(0, mx); d[b] = R.range(t == 0 ? 1 : 0, mx); } while (d[a] + d[b] > tot); for (int i = 0; i < n; i++) if (i != a && i != b) d[i] = R.range(0, 1); double c = coef(); s = s + C(c == 0 ? 1 : c) * mono(d); }
  return s;
}
static double xval() { Rng& R = *RR; int k = R.range(0, 5); return k == 0 ? 0 : k == 1 ? R.range(-3, 3) : k == 2 ? R.range(-16, 16) / 8.0 : k == 3 ? R.uni(-2, 2) : k == 4 ? R.uni(-40, 40) : R.range(-1, 1) * 0.01; }
static double step() { Rng& R = *RR; return R.pick(V{0.5, 0.25, 0.125, 0.0625, 0.1, 0.03, 1}); }
static double sc(double h, double x) { return h * std::max(1.0, std::abs(x)); }
static int PDeg(const std::string& f) { return f == "1" ? 1 : f == "2" ? 2 : f == "4" ? 4 : f == "6" ? 6 : f == "8" ? 8 : f == "s1" ? 2 : f == "s2" ? 3 : f == "s4" ? 5 : f == "t2" ? 4 : 6; }
static double H0(const std::string& f) { return f == "1" ? Dv::NDer1_h : f == "2" || f == "s1" || f == "s2" ? Dv::NDer2_h : f == "4" || f == "s4" || f[0] == 't' ? Dv::NDer4_h : f == "6" ? Dv::NDer6_h : Dv::NDer8_h; }
static int deg(const std::string& f) { Rng& R = *RR; int p = PDeg(f); return R.chance(1, 3) ? p : R.chance(1, 2) ? R.range(0, p) : R.range(p + 1, p + 2); }
// ---- real functions
template <class A, class B, class Cc, class Dd, class Ee> static void real1(const std::string& f, A withh, B def, Cc deth, Dd detd, Ee bare) {
  Rng& R = *RR; E e = rpoly(1, 0, deg(f)); double x = xval(); bool dflt = R.chance(1, 3); double h = dflt ? sc(H0(f), x) : step();
  RF fn(e); Real est = -1; double v = dflt ? def(fn, x, &est) : withh(fn, x, h, &est), w = dflt ? bare(fn, x) : withh(fn, x, h, nullptr);
  fd(f, {x}, {It{e, {1}, h, v, true, est}}, eq(v, w));
  // detailed
  static const char* st[] = {"", "nan", "throw", "nan"};
  int fault = R.chance(1, 4) ? R.range(1, 3) : 0; double hh = R.chance(1, 6) ? R.pick(V{0, -0.5, NAN, INFINITY}) : h; bool viaCfg = R.chance(1, 3);
  DerivativeConfig cfg; cfg.estimate_error = R.chance(1, 2); cfg.check_finite = R.chance(3, 4); double want = hh; if (viaCfg) { cfg.step = hh; if (hh == 0) want = sc(H0(f), x); }
  RF f1(e, fault), f2(e, fault), f3(e, 0); Real e3 = 0;
  cfg.exception_policy = EvaluationExceptionPolicy::Propagate; DerivativeResult<Real> r; std::string pex = guarded([&] { r = viaCfg ? detd(f1, x, cfg) : deth(f1, x, hh, cfg); });
  cfg.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; std::string cex = guarded([&] { r = viaCfg ? detd(f2, x, cfg) : deth(f2, x, hh, cfg); });
  bool same = true; if (want > 0 && std::isfinite(want) && !fault) { double vv = withh(f3, x, want, cfg.estimate_error ? &e3 : nullptr); same = eq(vv, r.value) && (!cfg.estimate_error || eq(e3, r.error)); }
  const char* ss = r.status == AlgorithmStatus::Success ? "Success" : r.status == AlgorithmStatus::InvalidInput ? "InvalidInput" : r.status == AlgorithmStatus::NumericalInstability ? "NumericalInstability" : r.status == AlgorithmStatus::AlgorithmSpecificFailure ? "AlgorithmSpecificFailure" : "Other";
  out.ev(Ev("det").kv("f", f).kv("h", want).kv("fault", st[fault]).kv("cf", cfg.check_finite).kv("pex", pex).kv("cex", cex).kv("ok", r.IsSuccess() && cex.empty()).kv("status", ss).kv("named", !r.algorithm_name.empty()).kv("evals", r.function_evaluations).kv("calls", f2.calls).kv("step", r.step_used).kv("same", same));
}
#define RFORM(f, N) real1(f, [](const IRealFunction& g, double x, double h, Real* e) { return Dv::N(g, x, h, e); }, [](const IRealFunction& g, double x, Real* e) { return Dv::N(g, x, e); }, [](const IRealFunction& g, double x, double h, const DerivativeConfig& c) { return Dv::N##Detailed(g, x, h, c); }, [](const IRealFunction& g, double x, const DerivativeConfig& c) { return Dv::N##Detailed(g, x, c); }, [](const IRealFunction& g, double x) { return Dv::N(g, x); })
static void realForms() { Rng& R = *RR;
  switch (R.range(0, 8)) { case 0: RFORM("1", NDer1); break; case 1: RFORM("2", NDer2); break; case 2: RFORM("4", NDer4); break; case 3: RFORM("6", NDer6); break; case 4: RFORM("8", NDer8); break;
    case 5: RFORM("s2", NSecDer2); break; case 6: RFORM("s4", NSecDer4); break; case 7: RFORM("t2", NThirdDer2); break; default: RFORM("t4", NThirdDer4); }
}
static void defaults() {
  Rng& R = *RR; double x = xval(); E e = rpoly(1, 0, R.range(0, 4)); RF f(e); Real est, e2 = 0, e3 = 0; double v = Dv::Derive(f, x), w = Dv::DeriveErr(f, x, &est);
  fd("4", {x}, {It{e, {1}, sc(Dv::NDer4_h, x), v, false, 0}, It{e, {1}, sc(Dv::NDer4_h, x), w, true, est}}, eq(v, w));
  v = Dv::DeriveSec(f, x, &e2); w = Dv::DeriveSec(f, x, nullptr); fd("s4", {x}, {It{e, {1}, sc(Dv::NDer4_h, x), v, true, e2}}, eq(v, w));
  v = Dv::DeriveThird(f, x, &e3); w = Dv::DeriveThird(f, x, nullptr); fd("t2", {x}, {It{e, {1}, sc(Dv::NDer4_h, x), v, true, e3}}, eq(v, w));
}
template <class A, class B> static void side1(const char* nm, int s, double h0, A withh, B def) {
  Rng& R = *RR; int dg = R.range(0, 3); E e = rpoly(1, 0, dg); double x = xval(); bool d = R.chance(1, 2); double h = d ? sc(h0, x) : step() / 16; RF f(e); Real est = 0; bool er = R.chance(1, 2);
  double v = d ? def(f, x, er ? &est : nullptr) : withh(f, x, h, er ? &est : nullptr);
  out.ev(Ev("side").kv("f", nm).kv("e", e).kv("deg", dg).kv("x", V{x}).kv("h", h).kv("side", s).kv("v", v).kv("pts", f.pts));
}
#define SFORM(N, s, h0) side1(#N, s, h0, [](const IRealFunction& g, double x, double h, Real* e) { return Dv::N(g, x, h, e); }, [](const IRealFunction& g, double x, Real* e) { return Dv::N(g, x, e); })
static void sides() {
  switch (RR->range(0, 9)) { case 0: SFORM(NDer1Left, -1, Dv::NDer1_h); break; case 1: SFORM(NDer1Right, 1, Dv::NDer1_h); break; case 2: SFORM(NDer2Left, -1, Dv::NDer2_h); break; case 3: SFORM(NDer2Right, 1, Dv::NDer2_h); break;
    case 4: SFORM(NDer4Left, -1, Dv::NDer4_h); break; case 5: SFORM(NDer4Right, 1, Dv::NDer4_h); break; case 6: SFORM(NDer6Left, -1, Dv::NDer6_h); break; case 7: SFORM(NDer6Right, 1, Dv::NDer6_h); break; case 8: SFORM(NDer8Left, -1, Dv::NDer8_h); break; default: SFORM(NDer8Right, 1, Dv::NDer8_h); }
}
static void rich() {
  Rng& R = *RR; E e = rpoly(1, 0, R.range(0, 6)); double x = R.uni(-2, 2); RF f(e); Real est = -1; int m = R.range(1, 3), k = R.range(0, 2); double v = 0;
  if (m == 1) v = k == 0 ? Dv::NDerRichardson(f, x, 0.25, &est) : k == 1 ? Dv::NDerRichardson(f, x, &est) : Dv::NDerAdaptive(f, x, &est);
  if (m == 2) v = k == 0 ? Dv::NSecDerRichardson(f, x, 0.25, &est) : k == 1 ? Dv::NSecDerRichardson(f, x, &est) : Dv::NSecDerAdaptive(f, x, &est);
  if (m == 3) v = k == 0 ? Dv::NThirdDerRichardson(f, x, 0.25, &est) : k == 1 ? Dv::NThirdDerRichardson(f, x, &est) : Dv::NThirdDerAdaptive(f, x, &est);
  out.ev(Ev("rich").kv("m", m).kv("e", e).kv("x", V{x}).kv("v", v).kv("est", est));
}
// ---- fields
template <int N> static VectorN<Real, N> pt(const V& x) { VectorN<Real, N> p; for (int i = 0; i < N; i++) p[i] = x[i]; return p; }
template <int N> struct SF : IScalarFunction<N> { E e; SF(const E& a) : e(a) {} Real operator()(const VectorN<Real, N>& x) const override { double y[N]; for (int i = 0; i < N; i++) y[i] = x[i]; return e.eval<double>(y); } };
template <int N> struct VF : IVectorFunction<N> { std::vector<E> e; VF(const std::vector<E>& a) : e(a) {} VectorN<Real, N> operator()(const VectorN<Real, N>& x) const override { double y[N]; VectorN<Real, N> r; for (int i = 0; i < N; i++) y[i] = x[i]; for (int i = 0; i < N; i++) r[i] = e[i].template eval<double>(y); return r; } };
#define BYF(f, CALL) (f == "1" ? CALL(1) : f == "2" ? CALL(2) : f == "4" ? CALL(4) : f == "6" ? CALL(6) : CALL(8))
static const std::vector<std::string> FS = {"1", "2", "4", "6", "8"};
template <int N> static void scalar() {
  Rng& R = *RR; std::string f = R.pick(FS); V x; for (int i = 0; i < N; i++) x.push_back(xval()); auto p = pt<N>(x); int i = R.range(0, N - 1); bool d = R.chance(1, 3); double h = step();
  auto hh = [&](int k) { return d ? sc(H0(f), x[k]) : h; };
  { E e = rpoly(N, i, deg(f)); SF<N> s(e); Real est = -1; double v, w;
#define CA(k) (d ? Dv::NDer##k##Partial<N>(s, i, p, &est) : Dv::NDer##k##Partial<N>(s, i, p, h, &est))
#define CB(k) (d ? Dv::NDer##k##Partial<N>(s, i, p) : Dv::NDer##k##Partial<N>(s, i, p, h))
    v = BYF(f, CA); w = BYF(f, CB); fd(f, x, {It{e, {i + 1}, hh(i), v, true, est}}, eq(v, w)); }
  { E e = rpoly(N, i, R.range(0, PDeg(f))); SF<N> s(e); VectorN<Real, N> est, v, w; for (int j = 0; j < N; j++) est[j] = -1;
#define CC(k) (d ? Dv::NDer##k##PartialByAll<N>(s, p, &est) : Dv::NDer##k##PartialByAll<N>(s, p, h, &est))
#define CD(k) (d ? Dv::NDer##k##PartialByAll<N>(s, p) : Dv::NDer##k##PartialByAll<N>(s, p, h))
    v = BYF(f, CC); w = BYF(f, CD); std::vector<It> it; bool same = true; for (int j = 0; j < N; j++) { it.push_back(It{e, {j + 1}, hh(j), v[j], true, est[j]}); same = same && eq(v[j], w[j]); } fd(f, x, it, same); }
  { std::string g = R.pick(std::vector<std::string>{"s2", "s4"}); E e = rpoly(N, i, deg(g)); SF<N> s(e); Real est = -1; double v, w;
    if (g == "s2") { v = d ? Dv::NSecDer2Partial<N>(s, i, i, p, &est) : Dv::NSecDer2Partial<N>(s, i, i, p, h, &est); w = d ? Dv::NSecDer2Partial<N>(s, i, i, p) : Dv::NSecDer2Partial<N>(s, i, i, p, h); }
    else { v = d ? Dv::NSecDer4Partial<N>(s, i, i, p, &est) : Dv::NSecDer4Partial<N>(s, i, i, p, h, &est); w = d ? Dv::NSecDer4Partial<N>(s, i, i, p) : Dv::NSecDer4Partial<N>(s, i, i, p, h); }
    fd(g, x, {It{e, {i + 1}, d ? sc(H0(g), x[i]) : h, v, true, est}}, eq(v, w)); }
  if (N > 1) { bool m4 = R.chance(1, 2); int j; do j = R.range(0, N - 1); while (j == i); E e = m4 ? mpoly(N, i, j, 4, 5) : mpoly(N, i, j, 2, 4); SF<N> s(e); Real est = -1; double v, w, hd = std::max(sc(H0(m4 ? "s4" : "s2"), x[i]), sc(H0(m4 ? "s4" : "s2"), x[j]));
    if (!m4) { v = d ? Dv::NSecDer2Partial<N>(s, i, j, p, &est) : Dv::NSecDer2Partial<N>(s, i, j, p, h, &est); w = d ? Dv::NSecDer2Partial<N>(s, i, j, p) : Dv::NSecDer2Partial<N>(s, i, j, p, h); }
    else { v = d ? Dv::NSecDer4Partial<N>(s, i, j, p, &est) : Dv::NSecDer4Partial<N>(s, i, j, p, h, &est); w = d ? Dv::NSecDer4Partial<N>(s, i, j, p) : Dv::NSecDer4Partial<N>(s, i, j, p, h); }
    fd(m4 ? "m4" : "m2", x, {It{e, {i + 1, j + 1}, d ? hd : h, v, true, est}}, eq(v, w)); }
  { E e = rpoly(N, i, R.range(0, 4)); SF<N> s(e); double v = Dv::DerivePartial<N>(s, i, p, nullptr); VectorN<Real, N> g = Dv::DerivePartialAll<N>(s, p, nullptr); E q = rpoly(N, i, 3); SF<N> sq(q); double w = Dv::DeriveSecPartial<N>(sq, i, i, p, nullptr); fd("4", x, {It{e, {i + 1}, sc(Dv::NDer4_h, x[i]), v, false, 0}}, eq(v, g[i])); fd("s2", x, {It{q, {i + 1}, sc(H0("s2"), x[i]), w, false, 0}}, true); }
}
template <int N> static void vect() {
  Rng& R = *RR; std::string f = R.pick(FS); V x; for (int i = 0; i < N; i++) x.push_back(xval()); auto p = pt<N>(x); int i = R.range(0, N - 1), k0 = R.range(0, N - 1); bool d = R.chance(1, 3); double h = step();
  auto hh = [&](int k) { return d ? sc(H0(f), x[k]) : h; }; std::vector<E> es; for (int k = 0; k < N; k++) es.push_back(rpoly(N, i, k == k0 ? deg(f) : R.range(0, PDeg(f)))); VF<N> s(es);
  { Real est = -1; double v, w;
#define VA(k) (d ? Dv::NDer##k##Partial<N>(s, k0, i, p, &est) : Dv::NDer##k##Partial<N>(s, k0, i, p, h, &est))
#define VB(k) (d ? Dv::NDer##k##Partial<N>(s, k0, i, p) : Dv::NDer##k##Partial<N>(s, k0, i, p, h))
    v = BYF(f, VA); w = BYF(f, VB); fd(f, x, {It{es[k0], {i + 1}, hh(i), v, true, est}}, eq(v, w)); }
  { VectorN<Real, N> est, v, w; for (int j = 0; j < N; j++) est[j] = -1;
#define VC(k) (d ? Dv::NDer##k##PartialByAll<N>(s, k0, p, &est) : Dv::NDer##k##PartialByAll<N>(s, k0, p, h, &est))
#define VD(k) (d ? Dv::NDer##k##PartialByAll<N>(s, k0, p) : Dv::NDer##k##PartialByAll<N>(s, k0, p, h))
    v = BYF(f, VC); w = BYF(f, VD); std::vector<It> it; bool same = true; for (int j = 0; j < N; j++) { it.push_back(It{es[k0], {j + 1}, hh(j), v[j], true, est[j]}); same = same && eq(v[j], w[j]); } fd(f, x, it, same); }
  { MatrixNM<Real, N, N> est, v, w; for (int a = 0; a < N; a++) for (int j = 0; j < N; j++) est(a, j) = -1;
#define VG(k) (d ? Dv::NDer##k##PartialAllByAll<N>(s, p, &est) : Dv::NDer##k##PartialAllByAll<N>(s, p, h, &est))
#define VH(k) (d ? Dv::NDer##k##PartialAllByAll<N>(s, p) : Dv::NDer##k##PartialAllByAll<N>(s, p, h))
    v = BYF(f, VG); w = BYF(f, VH); std::vector<It> it; bool same = true; for (int a = 0; a < N; a++) for (int j = 0; j < N; j++) { it.push_back(It{es[a], {j + 1}, hh(j), v(a, j), true, est(a, j)}); same = same && eq(v(a, j), w(a, j)); } fd(f, x, it, same); }
}
template <int N, int M> struct VNM : IVectorFunctionNM<N, M> { std::vector<E> e; VNM(const std::vector<E>& a) : e(a) {} VectorN<Real, M> operator()(const VectorN<Real, N>& x) const override { double y[N]; VectorN<Real, M> r; for (int i = 0; i < N; i++) y[i] = x[i]; for (int i = 0; i < M; i++) r[i] = e[i].template eval<double>(y); return r; } };
template <int N, int M> static void jacNM() {
  Rng& R = *RR; V x; for (int i = 0; i < N; i++) x.push_back(xval()); auto p = pt<N>(x); std::vector<E> es; for (int k = 0; k < M; k++) es.push_back(rpoly(N, R.range(0, N - 1), R.range(0, 4))); VNM<N, M> s(es); MatrixNM<Real, M, N> J = Dv::calcJacobian<N, M>(s, p); std::vector<It> it; for (int a = 0; a < M; a++) for (int j = 0; j < N; j++) it.push_back(It{es[a], {j + 1}, sc(Dv::NDer4_h, x[j]), J(a, j), false, 0}); fd("4", x, it, true);
}
template <int N> static void jacob() {
  Rng& R = *RR; V x; for (int i = 0; i < N; i++) x.push_back(xval()); auto p = pt<N>(x); std::vector<E> es; for (int k = 0; k < N; k++) es.push_back(rpoly(N, R.range(0, N - 1), R.range(0, 4))); VF<N> s(es);
  { auto J = Dv::calcJacobian(s, p); std::vector<It> it; for (int a = 0; a < N; a++) for (int j = 0; j < N; j++) it.push_back(It{es[a], {j + 1}, sc(Dv::NDer4_h, x[j]), J(a, j), false, 0}); fd("4", x, it, true); }
  std::function<Vector<Real>(const Vector<Real>&)> g = [&](const Vector<Real>& y) { Vector<Real> r((int)es.size()); double z[N]; for (int i = 0; i < N; i++) z[i] = y[i]; for (size_t a = 0; a < es.size(); a++) r[(int)a] = es[a].template eval<double>(z); return r; };
  Vector<Real> px(N); for (int i = 0; i < N; i++) px[i] = x[i];
  bool d = R.chance(1, 3); double h = d ? 0 : step();
  auto mat = [&](const char* f, const Matrix<Real>& J, int rows, std::function<double(int)> hh, bool low) {
    std::vector<It> it; bool shape = J.rows() == rows && J.cols() == N;
    if (shape) for (int a = 0; a < rows; a++) for (int j = 0; j < N; j++) it.push_back(It{es[a], {j + 1}, hh(j), J(a, j), false, 0});
    fd(f, x, it, shape); (void)low; };
  double h4 = d ? std::pow(2.220446049250313e-16, 0.2) : h, h2 = d ? std::pow(2.220446049250313e-16, 1.0 / 3) : h;
  mat("4", Dv::calcJacobianDyn(g, px, Real(h)), N, [&](int) { return h4; }, false);
  { Matrix<Real> J(1, 1); Dv::calcJacobianDynInPlace(g, px, J, h); mat("4", J, N, [&](int) { return h4; }, false); }
  mat("2", Dv::calcJacobianDyn2(g, px, h), N, [&](int) { return h2; }, true);
  double hs = d ? std::sqrt(2.220446049250313e-16) : h; auto hj = [&](int j) { return hs * std::max(1.0, std::abs(x[j])); };
  { std::function<void(Real, const Vector<Real>&, Vector<Real>&)> od = [&](Real, const Vector<Real>& y, Vector<Real>& r) { r = g(y); }; Matrix<Real> J; Dv::calcJacobianODE(od, 0, px, J, h); mat("2", J, N, hj, true); mat("2", Dv::calcJacobianODE(od, 1.5, px, h), N, hj, true); }
  { Matrix<Real> J(2, 5); Dv::calcJacobianMap(g, px, J, h); mat("2", J, N, hj, true); }
  if (R.chance(1, 2)) es.push_back(rpoly(N, 0, 3)); else es.pop_back();
  mat("4", Dv::calcJacobianDyn(g, px, (int)es.size(), Real(h)), (int)es.size(), [&](int) { return h4; }, false);
}
template <int N> struct PC : IParametricCurve<N> { std::vector<E> e; PC(const std::vector<E>& a) : e(a) {} VectorN<Real, N> operator()(Real t) const override { VectorN<Real, N> r; double y = t; for (int i = 0; i < N; i++) r[i] = e[i].template eval<double>(&y); return r; } Real getMinT() const override { return -INFINITY; } Real getMaxT() const override { return INFINITY; } };
template <int N> static void curve() {
  Rng& R = *RR; std::string f = R.pick(std::vector<std::string>{"1", "2", "4", "6", "8", "s2", "s4", "t2", "t4"}); std::vector<E> es; int dg = deg(f); for (int k = 0; k < N; k++) es.push_back(rpoly(1, 0, R.range(0, dg))); PC<N> c(es); double t = xval(); bool d = R.chance(1, 3); double h = d ? sc(H0(f), t) : step(); Real est = -1; VectorN<Real, N> v, w;
#define CV(N_) { v = d ? Dv::N_(c, t, &est) : Dv::N_(c, t, h, &est); w = d ? Dv::N_(c, t) : Dv::N_(c, t, h); }
  if (f == "1") CV(template NDer1<N>) if (f == "2") CV(template NDer2<N>) if (f == "4") CV(template NDer4<N>) if (f == "6") CV(template NDer6<N>) if (f == "8") CV(template NDer8<N>)
  if (f == "s2") CV(template NSecDer2<N>) if (f == "s4") CV(template NSecDer4<N>) if (f == "t2") CV(template NThirdDer2<N>) if (f == "t4") CV(template NThirdDer4<N>)
  // one estimate for the whole vector: judged against the components only when all are within the formula's degree
  std::vector<It> it; bool same = true; for (int k = 0; k < N; k++) { it.push_back(It{es[k], {1}, h, v[k], false, 0}); same = same && eq(v[k], w[k]); }
  fd(f, {t}, it, same);
  if (dg > PDeg(f)) for (int k = 0; k < N; k++) { std::vector<It> i1; i1.push_back(It{es[k], {1}, h, v[k], true, est}); E big = es[k]; (void)big; out.ev(Ev("fdv").kv("f", f).kv("x", V{t}).kv("e", es[k]).kv("h", h).kv("v", v[k]).kv("est", est)); }
}
template <int N> struct PS : IParametricSurfaceRect<N> { std::vector<E> e; PS(const std::vector<E>& a) : e(a) {} VectorN<Real, N> operator()(Real u, Real w) const override { VectorN<Real, N> r; double y[2] = {u, w}; for (int i = 0; i < N; i++) r[i] = e[i].template eval<double>(y); return r; }
  Real getMinU() const override { return -9; } Real getMaxU() const override { return 9; } Real getMinW() const override { return -9; } Real getMaxW() const override { return 9; } };
static void surf() {
  Rng& R = *RR; const int N = 3; int q = R.range(0, 6); std::string f = q < 2 ? "1" : q < 4 ? "2" : q < 6 ? "s2" : "m2"; int var = q == 6 ? 0 : q % 2; std::vector<E> es; for (int k = 0; k < N; k++) es.push_back(q == 6 ? mpoly(2, 0, 1, 2, 4) : rpoly(2, var, R.range(0, PDeg(f)))); PS<N> c(es); double u = xval(), w = xval(); bool d = R.chance(1, 3); double z = var ? w : u, h = d ? (q == 6 ? std::max(sc(H0("s2"), u), sc(H0("s2"), w)) : sc(H0(f == "s2" ? "2" : f), z)) : step(); Real est = -1; VectorN<Real, N> a, b;
#define CS(M_) { a = d ? Dv::M_<N>(c, u, w, &est) : Dv::M_<N>(c, u, w, h, &est); b = d ? Dv::M_<N>(c, u, w) : Dv::M_<N>(c, u, w, h); }
  switch (q) { case 0: CS(NDer1_u) break; case 1: CS(NDer1_w) break; case 2: CS(NDer2_u) break; case 3: CS(NDer2_w) break; case 4: CS(NDer2_uu) break; case 5: CS(NDer2_ww) break; default: CS(NDer2_uw) }
  std::vector<It> it; bool same = true; for (int k = 0; k < N; k++) { It i{es[k], {var + 1}, h, a[k], false, 0}; if (q == 6) i.is = {1, 2}; it.push_back(i); same = same && eq(a[k], b[k]); }
  fd(f, {u, w}, it, same);
  if (q == 6) { double h2 = step(); VectorN<Real, N> v = Dv::NDer2_uw<N>(c, u, w, h, h2, nullptr); std::vector<It> i2; for (int k = 0; k < N; k++) i2.push_back(It{es[k], {1, 2}, std::min(h, h2), v[k], false, 0}); if (!d) fd("m2", {u, w}, i2, true); }
}
struct T2 : ITensorField2<3> { std::vector<E> e; T2(const std::vector<E>& a) : ITensorField2<3>(0, 2), e(a) {} Tensor2<3> operator()(const VectorN<Real, 3>&) const override { throw 1; } Real Component(int i, int j, const VectorN<Real, 3>& x) const override { double y[3] = {x[0], x[1], x[2]}; return e[3 * i + j].eval<double>(y); } };
struct T3 : ITensorField3<3> { std::vector<E> e; T3(const std::vector<E>& a) : ITensorField3<3>(0, 3), e(a) {} Tensor3<3> operator()(const VectorN<Real, 3>&) const override { throw 1; } Real Component(int i, int j, int k, const VectorN<Real, 3>& x) const override { double y[3] = {x[0], x[1], x[2]}; return (i + 2) * e[3 * j + k].eval<double>(y); } };
struct T4 : ITensorField4<3> { std::vector<E> e; T4(const std::vector<E>& a) : ITensorField4<3>(0, 4), e(a) {} Tensor4<3> operator()(const VectorN<Real, 3>&) const override { throw 1; } Real Component(int i, int j, int k, int l, const VectorN<Real, 3>& x) const override { double y[3] = {x[0], x[1], x[2]}; return (i + 2) * (2 * j - 3) * e[3 * k + l].eval<double>(y); } };
static void tens() {
  Rng& R = *RR; std::string f = R.pick(std::vector<std::string>{"1", "2", "4"}); int var = R.range(0, 2), i = R.range(0, 2), j = R.range(0, 2), k = R.range(0, 2), l = R.range(0, 2), rank = R.range(2, 4); V x = {xval(), xval(), xval()}; auto p = pt<3>(x); std::vector<E> es; for (int q = 0; q < 9; q++) es.push_back(rpoly(3, var, deg(f))); T2 t2(es); T3 t3(es); T4 t4(es); bool d = R.chance(1, 3); double h = step(), hd = d ? sc(H0(f), x[var]) : h; Real est = -1; double v, w; E e;
#define TT(n, IDX, t, er) (d ? (er ? Dv::NDer##n##Partial<3>(t, IDX, var, p, &est) : Dv::NDer##n##Partial<3>(t, IDX, var, p)) : (er ? Dv::NDer##n##Partial<3>(t, IDX, var, p, h, &est) : Dv::NDer##n##Partial<3>(t, IDX, var, p, h)))
#define CM ,
#define T2A(er) (f == "1" ? TT(1, i CM j, t2, er) : f == "2" ? TT(2, i CM j, t2, er) : TT(4, i CM j, t2, er))
#define T3A(er) (f == "1" ? TT(1, i CM j CM k, t3, er) : f == "2" ? TT(2, i CM j CM k, t3, er) : TT(4, i CM j CM k, t3, er))
#define T4A(er) (f == "1" ? TT(1, i CM j CM k CM l, t4, er) : f == "2" ? TT(2, i CM j CM k CM l, t4, er) : TT(4, i CM j CM k CM l, t4, er))
  if (rank == 2) { v = T2A(true); w = T2A(false); e = es[3 * i + j]; }
  else if (rank == 3) { v = T3A(true); w = T3A(false); e = C(i + 2) * es[3 * j + k]; }
  else { v = T4A(true); w = T4A(false); e = C((i + 2) * (2 * j - 3)) * es[3 * k + l]; }
  fd(f, x, {It{e, {var + 1}, hd, v, true, est}}, eq(v, w));
}
// ---- automatic differentiation
typedef Symbolic::DualD Dd;
struct AD { std::function<Dd(const std::vector<Dd>&)> f; E e; };
static double val(const E& e, const V& x) { return e.eval<double>(x.data()); }
static AD tree(int depth, int n, const V& x, int tries = 0) {
  Rng& R = *RR;
  if (depth == 0 || R.chance(1, 8)) { if (R.chance(1, 5)) { double c = R.pick(V{0.5, 2, -1.5, 3, 0}); return {[c](const std::vector<Dd>&) { return Dd(c); }, C(c)}; } int i = R.range(0, n - 1); return {[i](const std::vector<Dd>& v) { return v[i]; }, X(i + 1)}; }
  AD a = tree(depth - 1, n, x), b; double va = val(a.e, x), vb = 0; int o = R.range(0, 33); bool two = o < 12; if (two) { b = tree(depth - 1, n, x); vb = val(b.e, x); }
  auto A = a.f, B = b.f; E ea = a.e, eb = b.e; double s = R.pick(V{2, -3, 0.5, 1.25}); int k = R.range(0, 4); int si = R.range(1, 3);
  auto ok = [](double v) { return std::isfinite(v) && std::abs(v) < 50; };
  typedef const std::vector<Dd>& P; AD r; bool good = ok(va) && ok(vb);
#define MK(EX, ex) { r = AD{[=](P v) -> Dd { Dd p = A(v); (void)p; return EX; }, ex}; break; }
#define MK2(EX, ex) { r = AD{[=](P v) -> Dd { Dd p = A(v), q = B(v); return EX; }, ex}; break; }
  switch (o) {
    case 0: MK2(p + q, ea + eb) case 1: MK2(p - q, ea - eb) case 2: MK2(p * q, ea * eb)
    case 3: if (std::abs(vb) < 0.1) { good = false; break; } MK2(p / q, ea / eb)
    case 4: MK2((p += q), ea + eb) case 5: MK2((p -= q), ea - eb) case 6: MK2((p *= q), ea * eb)
    case 7: if (std::abs(vb) < 0.1) { good = false; break; } MK2((p /= q), ea / eb)
    case 8: if (va < 0.2 || va > 6 || std::abs(vb) > 3) { good = false; break; } MK2(pow(p, q), fexp(eb * flog(ea)))
    case 9: if (va < 0.1) { good = false; break; } MK2(atan2(q, p), fatan(eb / ea))
    case 10: MK2(fma(p, q, p), ea * eb + ea)
    case 11: if (std::abs(va - vb) < 0.01) { good = false; break; } MK2((p < q ? q : p), (va < vb ? eb : ea))
    case 12: MK(p + s, ea + C(s)) case 13: MK(s + p, C(s) + ea) case 14: MK(p - si, ea - C(si)) case 15: MK(s - p, C(s) - ea)
    case 16: MK(p * s, ea * C(s)) case 17: MK(si * p, C(si) * ea) case 18: MK(p / s, ea / C(s))
    case 19: if (std::abs(va) < 0.1) { good = false; break; } MK(s / p, C(s) / ea)
    case 20: if (va < 0.05) { good = false; break; } MK(sqrt(p), fsqrt(ea))
    case 21: if (k == 0 ? false : std::abs(va) > 6) { good = false; break; } MK(pow(p, k), pw(ea, k))
    case 22: if (std::abs(va) > 6) { good = false; break; } MK(pow(p, Dd((double)k)), pw(ea, k))
    case 23: if (va < 0.2 || va > 8) { good = false; break; } MK(pow(p, -1.5), C(1) / (ea * fsqrt(ea)))
    case 24: if (std::abs(va) > 4) { good = false; break; } MK(pow(2.5, p), fexp(ea * flog(C(2.5))))
    case 25: if (va > 3) { good = false; break; } MK(exp(p), fexp(ea))
    case 26: if (va < 0.1) { good = false; break; } if (si == 1) MK(log10(p), flog(ea) / flog(C(10))) MK(log(p), flog(ea))
    case 27: MK(sin(p), fsin(ea)) case 28: MK(cos(p), fcos(ea))
    case 29: if (std::abs(std::cos(va)) < 0.2) { good = false; break; } MK(tan(p), fsin(ea) / fcos(ea))
    case 30: if (std::abs(va) > 0.9) { good = false; break; } if (si == 1) MK(acos(p), fatan(C(1)) * C(2) - fatan(ea / fsqrt(C(1) - ea * ea))) MK(asin(p), fatan(ea / fsqrt(C(1) - ea * ea)))
    case 31: MK(atan(p), fatan(ea))
    case 32: if (std::abs(va) > 3) { good = false; break; } { E u = fexp(ea), w = fexp(un("neg", ea)); if (si == 1) MK(sinh(p), (u - w) / C(2)) if (si == 2) MK(cosh(p), (u + w) / C(2)) MK(tanh(p), (u - w) / (u + w)) }
    default: if (std::abs(va) < 0.01) { good = false; break; } if (si == 1) MK(-p, un("neg", ea)) if (si == 2) { double fr = va - std::floor(va); if (fr < 0.01 || fr > 0.99) { good = false; break; } bool up = R.chance(1, 2); MK((up ? ceil(p) : floor(p)) + p, C(up ? std::ceil(va) : std::floor(va)) + ea) } MK(abs(p), fabs_(ea))
  }
  if (good && ok(val(r.e, x))) return r;
  return tries < 6 ? tree(depth, n, x, tries + 1) : a;
}
static void ad(int depth) {
  Rng& R = *RR; int n = R.range(1, 3); V x; for (int i = 0; i < n; i++) x.push_back(R.chance(1, 4) ? R.range(-2, 2) : R.uni(-2, 2));
  AD t = tree(depth, n, x); int i = R.range(0, n - 1); double v, d;
  if (n == 1 && R.chance(1, 2)) { auto r = Symbolic::derivative([&](Dd p) { return t.f({p}); }, x[0]); v = r.first; d = r.second; }
  else if (R.chance(1, 2)) { auto g = Symbolic::gradient([&](const std::vector<Dd>& p) { return t.f(p); }, x); d = g[i]; std::vector<Dd> y; for (double q : x) y.push_back(Dd(q)); v = t.f(y).value; }
  else { std::vector<Dd> y; for (int j = 0; j < n; j++) y.push_back(Dd(x[j], j == i ? 1.0 : 0.0)); Dd r = t.f(y); v = r.value; d = r.deriv; }
  out.ev(Ev("ad").kv("e", t.e).kv("x", x).kv("i", i + 1).kv("v", v).kv("d", d));
}
int main(int ac, char** av) {
  Args a = args(ac, av); out.open(a.out.c_str()); Rng R(a.seed); RR = &R; int N = a.thorough() ? 150 : 26;
  for (int q = 0; q < N; q++) { out.begin("r" + std::to_string(q)); for (int k = 0; k < 14; k++) realForms(); defaults(); for (int k = 0; k < 5; k++) sides(); rich(); rich(); out.end(); }
  for (int q = 0; q < N; q++) { out.begin("f" + std::to_string(q)); scalar<1>(); scalar<2>(); scalar<3>(); scalar<4>(); vect<2>(); vect<3>(); out.end(); }
  for (int q = 0; q < N; q++) { out.begin("j" + std::to_string(q)); jacob<2>(); jacob<3>(); jacNM<2, 3>(); jacNM<3, 2>(); jacNM<3, 1>(); for (int k = 0; k < 3; k++) { curve<2>(); curve<3>(); surf(); tens(); } out.end(); }
  for (int q = 0; q < 2 * N; q++) { out.begin("a" + std::to_string(q)); for (int k = 0; k < 12; k++) ad(R.range(1, k < 9 ? 3 : 4)); { double u = R.range(-1, 1), w = R.range(-1, 1); Dd p(u, 2.0), s(w, R.uni(-1, 1)); std::string r = std::string("[") + (p < s ? "true" : "false") + "," + (p <= s ? "true" : "false") + "," + (p > s ? "true" : "false") + "," + (p >= s ? "true" : "false") + "," + (p == s ? "true" : "false") + "," + (p != s ? "true" : "false") + "]"; out.ev(Ev("cmp").kv("a", u).kv("b", w).kv("r", Raw{r})); } out.end(); }
  out.close();
}
