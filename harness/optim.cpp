// C17: records minimisations of known functions
#include "expr.h"
#include "algorithms/Optimization.h"
#include "algorithms/OptimizationMultidim.h"
using namespace MML; using namespace vp; namespace Mi = MML::Minimization; using namespace MML::Optimization;
typedef std::string Str; typedef std::vector<double> Ds;
static Out out; static long evals;
struct F1 : IRealFunction { E e; bool d = false; explicit F1(const E& x, bool der = false) : e(x), d(der) {} Real operator()(Real x) const override { evals++; return d ? e.partial(&x, 1, 0) : e.eval<double>(&x); } };
static Str num(double x) { return js(x); }
static void put(Ev& e, const MinimizationResult& r) { e.kv("x", r.xmin).kv("y", r.fmin).kv("it", r.iterations).kv("conv", r.converged).kv("st", (int)r.status).kv("n", evals); }
// a function with one lowest point at r (r known) or a general one
struct Pick { E e; bool uni; double r; bool smooth; Str kind; };
static Pick make(Rng& R) { double r = R.chance(1, 4) ? 0 : R.chance(1, 3) ? R.range(-4, 4) : R.uni(-5, 5); E x = X(), d = x - C(r); bool far = R.chance(1, 5); double k = far ? std::pow(10.0, R.range(-30, 30)) : R.uni(0.1, 10), c = far || R.chance(1, 2) ? 0 : R.uni(-5, 5);
  switch (R.range(0, 13)) { case 0: return {C(k) * d * d + C(c), true, r, true, "quad"}; case 1: return {C(k) * fabs_(d) + C(c), true, r, false, "abs"}; case 2: return {pw(d, 4), true, r, true, "quart"}; case 3: return {fexp(d) + fexp(C(0) - d), true, r, true, "cosh"};
    case 4: return {bi("max", C(2) * d, C(-1) * d), true, r, false, "vee"}; case 5: return {C(1) - C(1) / (C(1) + d * d), true, r, true, "well"}; case 6: return {fsqrt(C(1) + d * d), true, r, true, "hyp"}; case 7: return {fsqrt(fabs_(d)), true, r, false, "cusp"};
    case 8: return {fsin(C(R.uni(0.3, 4)) * x) + C(R.uni(0, 0.5)) * x * x, false, 0, true, "wavy"}; case 9: return {pw(d, 4) - C(R.uni(1, 6)) * d * d, false, 0, true, "two"}; case 10: return {C(c), false, 0, true, "flat"}; case 11: return {C(R.chance(1, 2) ? 1 : -1) * x, false, 0, true, "line"};
    case 12: return {bi("max", fabs_(d), C(R.uni(0.1, 2))), false, 0, false, "floor"}; default: return {d * d * C(0.5) + fabs_(d), true, r, false, "mix"}; } }
static void one(Rng& R, const Pick& p) {
  double a = R.chance(1, 4) ? p.r : R.uni(-6, 6), b = a + (R.chance(1, 2) ? 1 : -1) * R.pick(Ds{1, 0.1, 1e-3, 3, 20, 1e-6}) * R.uni(0.5, 1); if (R.chance(1, 30)) b = a;
  double tol = R.pick(Ds{3e-8, 3e-8, 1e-4, 1e-2, 1e-6, 1e-10}); if (R.chance(1, 12)) tol = R.pick(Ds{1e-14, 1e-17, 0, -1, NAN}); int lim = R.pick(std::vector<int>{100, 100, 100, 1, 2, 5, 12, 40, 500, 0});
  F1 f(p.e), g(p.e, true); E ne = C(0) - p.e; F1 nf(ne);
  auto ev = [&](const char* op, const char* m, const E& q) { Ev e(op); e.kv("m", m).kv("k", p.kind).kv("f", q).kv("uni", p.uni).kv("r", p.r).kv("a", a).kv("b", b).kv("tol", tol); return e; };
  MinimumBracket br; { evals = 0; out.at("bracket " + p.e.json()); Str err = guarded([&] { br = Mi::BracketMinimum(f, a, b); }); Ev e = ev("bracket", "bracket", p.e); e.kv("err", err).kv("ok", br.valid).kv("x", Ds{br.ax, br.bx, br.cx}).kv("y", Ds{br.fa, br.fb, br.fc}); out.ev(e); }
  auto run = [&](const char* m, const E& q, int limit, bool cfg, std::function<MinimizationResult()> call) { evals = 0; MinimizationResult r; out.at(Str(m) + " " + q.json()); Str err = guarded([&] { r = call(); }); Ev e = ev("min", m, q); e.kv("lim", limit).kv("cfg", cfg).kv("ok", br.valid).kv("br", Ds{br.ax, br.cx}).kv("err", err); put(e, r); out.ev(e); };
  Minimization1DConfig c; c.tolerance = tol; c.max_iterations = lim;
  if (lim > 0) { run("golden", p.e, 5000, false, [&] { return Mi::GoldenSectionSearch(f, a, b, tol); }); run("goldenmax", ne, 5000, false, [&] { return Mi::GoldenSectionMaximize(nf, a, b, tol); }); }
  if (lim > 0) run("golden", p.e, lim, true, [&] { return Mi::GoldenSectionSearch(f, a, b, c); });
  run("brent", p.e, lim, false, [&] { return Mi::BrentMinimize(f, a, b, tol, lim); }); run("brent", p.e, lim, true, [&] { return Mi::BrentMinimize(f, a, b, c); });
  run("brentmax", ne, lim, false, [&] { return Mi::BrentMaximize(nf, a, b, tol, lim); }); run("brentmax", ne, lim, true, [&] { return Mi::BrentMaximize(nf, a, b, c); });
  if (p.smooth) { run("brentd", p.e, lim, false, [&] { return Mi::BrentMinimizeWithDeriv(f, g, a, b, tol, lim); }); run("brentd", p.e, lim, true, [&] { return Mi::BrentMinimizeWithDeriv(f, g, a, b, c); }); }
  { MinimumBracket bad = br; bad.valid = false; Str e1 = guarded([&] { Mi::GoldenSectionSearch(f, bad, 1e-8); }), e2 = guarded([&] { Mi::BrentMinimize(f, bad, 1e-8); }), e3 = guarded([&] { Mi::BrentMinimizeWithDeriv(f, g, bad, 1e-8); }), e4 = guarded([&] { Mi::BracketMinimum(f, NAN, 1); }), e5 = guarded([&] { Mi::BracketMinimum(f, 0, INFINITY); }); Ev e("refuse"); e.kv("e", std::vector<Str>{e1, e2, e3, e4, e5}); out.ev(e); } }
template <int N> struct FN : IDifferentiableScalarFunction<N> { E e; explicit FN(const E& x) : e(x) {} Real operator()(const VectorN<Real, N>& x) const override { evals++; double y[N]; for (int i = 0; i < N; i++) y[i] = x[i]; return e.eval<double>(y); }
  void Gradient(const VectorN<Real, N>& x, VectorN<Real, N>& g) const override { double y[N]; for (int i = 0; i < N; i++) y[i] = x[i]; for (int i = 0; i < N; i++) g[i] = e.partial(y, N, i); } };
template <int N> void many(Rng& R, int) {
  Ds r(N), s(N); for (int i = 0; i < N; i++) { r[i] = R.chance(1, 4) ? 0 : R.chance(1, 2) ? R.range(-3, 3) : R.uni(-3, 3); s[i] = R.chance(1, 6) ? r[i] : R.chance(1, 3) ? R.range(-5, 5) : R.uni(-5, 5); }
  std::vector<E> d; for (int i = 0; i < N; i++) d.push_back(X(i + 1) - C(r[i])); E f = C(0); bool smooth = true, quad = false; Str kind; int t = R.range(0, 9);
  switch (t) {
    case 0: case 1: { kind = "quad"; quad = true; for (int i = 0; i < N; i++) { E q = d[i]; for (int j = 0; j < i; j++) q = q + C(R.uni(-1, 1)) * d[j]; f = f + C(R.uni(1, 10)) * q * q; } f = f + C(R.chance(1, 2) ? 0 : R.uni(-3, 3)); break; }
    case 2: { kind = "sep"; quad = true; for (int i = 0; i < N; i++) f = f + C(R.uni(1, 30)) * d[i] * d[i]; break; }
    case 3: { kind = "abs"; smooth = false; for (int i = 0; i < N; i++) f = f + C(R.uni(0.5, 3)) * fabs_(d[i]); break; }
    case 4: { kind = "rosen"; for (int i = 0; i + 1 < N; i++) f = f + C(100) * pw(X(i + 2) - X(i + 1) * X(i + 1), 2) + pw(C(1) - X(i + 1), 2); if (N == 1) f = pw(C(1) - X(1), 2); break; }
    case 5: { kind = "quart"; for (int i = 0; i < N; i++) f = f + pw(d[i], 4); break; } case 6: { kind = "flat"; f = C(R.range(-1, 1)); break; }
    case 7: { kind = "exp"; for (int i = 0; i < N; i++) f = f + fexp(C(0.5) * d[i]) + fexp(C(-0.7) * d[i]); break; } case 8: { kind = "wavy"; for (int i = 0; i < N; i++) f = f + fsin(C(3) * d[i]) + C(0.2) * d[i] * d[i]; break; }
    default: { kind = "max"; smooth = false; f = fabs_(d[0]); for (int i = 1; i < N; i++) f = bi("max", f, C(R.uni(0.5, 2)) * fabs_(d[i])); } }
  FN<N> F(f); VectorN<Real, N> x0; for (int i = 0; i < N; i++) x0[i] = s[i]; E ne = C(0) - f; FN<N> NF(ne); Ds opt = r; if (kind == "rosen") opt = Ds(N, 1.0);
  double tol = R.pick(Ds{1e-8, 3e-8, 1e-4, 1e-6, 1e-10}); if (R.chance(1, 15)) tol = R.pick(Ds{0, -1, NAN}); int lim = R.pick(std::vector<int>{200, 200, 200, 5000, 1, 2, 3, 7, 20, 0}); double del = R.pick(Ds{1, 0.1, -1, 3}); if (R.chance(1, 30)) del = 0; bool cfg = R.chance(1, 2); int mem = R.pick(std::vector<int>{10, 1, 2, 0});
  MultidimOptimizationConfig c(tol, lim); c.initial_delta = del; c.lbfgs_memory_size = mem; Ds deltas; Vector<Real> dv(N);  for (int i = 0; i < N; i++) { dv[i] = del * R.uni(0.5, 2); }
  auto run = [&](const char* m, const E& q, int limit, bool cf, const std::vector<Ds>& ss, std::function<MultidimMinimizationResult(Ds&)> call) { evals = 0; MultidimMinimizationResult z; Ds sv; out.at(Str(m) + " " + q.json() + " from " + js(s)); Str err = guarded([&] { z = call(sv); }); Ds x; for (int i = 0; i < z.xmin.size(); i++) x.push_back(z.xmin[i]);
    Ev e("nd"); e.kv("m", m).kv("k", kind).kv("f", q).kv("n", N).kv("quad", quad).kv("opt", opt).kv("s", s).kv("ss", ss).kv("tol", tol).kv("lim", limit).kv("del", del).kv("mem", mem).kv("cfg", cf).kv("err", err).kv("x", x).kv("y", z.fmin).kv("it", z.iterations).kv("conv", z.converged).kv("st", (int)z.status).kv("ev", evals).kv("sv", sv); out.ev(e); };
  auto corner = [&](bool each) { std::vector<Ds> ss{s}; for (int i = 0; i < N; i++) { Ds t = s; t[i] += each ? dv[i] : del; ss.push_back(t); } return ss; };
  auto vals = [](const NelderMead& nm) { Ds v; for (int i = 0; i < nm.getSimplexValues().size(); i++) v.push_back(nm.getSimplexValues()[i]); return v; };
  int nl = lim == 200 ? 5000 : lim;
  run("nm", f, nl, false, corner(false), [&](Ds& sv) { NelderMead nm(tol, nl); auto z = nm.Minimize(F, x0, del); sv = vals(nm); return z; });
  run("nm", f, nl, false, corner(true), [&](Ds& sv) { NelderMead nm(tol, nl); auto z = nm.Minimize(F, x0, dv); sv = vals(nm); return z; });
  { std::vector<Ds> ss; Matrix<Real> S(N + 1, N); for (int i = 0; i <= N; i++) { Ds t; for (int j = 0; j < N; j++) { S(i, j) = s[j] + R.uni(-2, 2); t.push_back(S(i, j)); } ss.push_back(t); } double dd = del; del = 1; run("nm", f, nl, false, ss, [&](Ds& sv) { NelderMead nm(tol, nl); auto z = nm.Minimize(F, S); sv = vals(nm); return z; }); del = dd; }
  if (cfg) { run("nm", f, lim, true, corner(false), [&](Ds&) { return NelderMeadMinimize(F, x0, c); }); run("nmmax", ne, lim, true, corner(false), [&](Ds&) { return NelderMeadMaximize(NF, x0, c); }); run("powell", f, lim, true, {s}, [&](Ds&) { return PowellMinimize(F, x0, c); }); }
  else { run("nm", f, 5000, false, corner(false), [&](Ds&) { return NelderMeadMinimize(F, x0, del, tol); }); run("nmmax", ne, 5000, false, corner(false), [&](Ds&) { return NelderMeadMaximize(NF, x0, del, tol); }); run("powell", f, lim, false, {s}, [&](Ds&) { Powell p(tol, lim); return p.Minimize(F, x0); }); }
  if (smooth) for (int fr = 0; fr < 2; fr++) { auto me = fr ? ConjugateGradient::Method::FletcherReeves : ConjugateGradient::Method::PolakRibiere; run("cg", f, lim, cfg, {s}, [&](Ds&) { if (cfg) return ConjugateGradientMinimize(F, x0, c, me); ConjugateGradient g(tol, 1e-8, lim, me); return g.Minimize(F, x0); }); }
  run("bfgs", f, lim, cfg, {s}, [&](Ds&) { if (cfg) return BFGSMinimize(F, x0, c); BFGS g(tol, 1e-8, lim); return g.Minimize(F, x0); });
  run("lbfgs", f, lim, cfg, {s}, [&](Ds&) { if (cfg) return LBFGSMinimize(F, x0, c); LBFGS g(tol, 1e-8, lim, mem); return g.Minimize(F, x0); });
}
int main(int ac, char** av) {
  Args a = args(ac, av); out.open(a.out.c_str()); Rng R(a.seed);
  for (int i = 0; i < (a.thorough() ? 1500 : 120); i++) { out.begin("one" + std::to_string(i)); one(R, make(R)); out.end(); }
  for (int i = 0; i < (a.thorough() ? 1200 : 100); i++) { out.begin("many" + std::to_string(i)); switch (i % 4) { case 0: many<1>(R, 0); break; case 1: many<2>(R, 0); break; case 2: many<3>(R, 0); break; default: many<4>(R, 0); } out.end(); }
  out.close(); return 0;
}
