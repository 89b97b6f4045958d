// C16: records scalar root finding on known functions
#include "expr.h"
#include "algorithms/RootFinding.h"
using namespace MML; using namespace vp; using namespace MML::RootFinding;
typedef std::string Str; typedef std::vector<double> Ds;
static Out out; static long evals;
struct Fn : IRealFunction { E e; explicit Fn(const E& x) : e(x) {} Real operator()(Real x) const override { evals++; return e.eval<double>(&x); } };
struct Pick { E e; double r; bool jump; Str kind; };
// a function with a zero or a jump at r
static Pick make(Rng& R) {
  double r = R.chance(1, 3) ? R.range(-4, 4) : R.chance(1, 2) ? R.range(-8, 8) * 0.25 : R.uni(-5, 5), s = R.chance(1, 2) ? 1 : -1; E x = X(), d = x - C(r), S = C(s * R.uni(0.2, 3));
  switch (R.range(0, 15)) {
    case 0: return {S * d, r, false, "lin"}; case 1: return {S * pw(d, 3), r, false, "cub"}; case 2: return {S * pw(d, 5), r, false, "quin"}; case 3: return {S * d * (x - C(r + R.uni(1, 3))), r, false, "quad"};
    case 4: return {fsin(C(R.uni(0.5, 3)) * d), r, false, "sin"}; case 5: return {fexp(d) - C(1), r, false, "exp"}; case 6: return {fatan(C(R.pick(Ds{1, 5, 50})) * d), r, false, "atan"};
    case 7: return {S * d * d, r, false, "double"}; case 8: return {C(s * std::pow(10.0, R.range(-250, -60))) * d, r, false, "tiny"}; case 9: return {C(s * std::pow(10.0, R.range(60, 250))) * d, r, false, "huge"};
    case 10: return {S * fsgn(d) * (C(1) + d * d), r, true, "jump"}; case 11: return {d + C(0.5) * fabs_(d), r, false, "kink"}; case 12: return {d / (C(1) + d * d), r, false, "decay"};
    case 13: return {S * (pw(d, 3) + C(R.uni(0.01, 2)) * d), r, false, "cubl"}; case 14: return {flog(x + C(1 - r)), r, false, "log"}; default: return {S * d * (x - C(r - R.uni(0.5, 2))) * (x - C(r + R.uni(0.5, 2))), r, false, "three"}; } }
static void span(Rng& R, double r, double& a, double& b) {
  switch (R.range(0, 9)) { case 0: a = r; b = r + R.uni(0.5, 4); break; case 1: b = r; a = r - R.uni(0.5, 4); break; case 2: { double h = R.range(1, 4); a = r - h; b = r + h; break; } case 3: a = r + R.uni(0.1, 1); b = a + R.uni(0.1, 3); break;
    case 4: a = r - R.uni(0, 1) * 1e-6; b = r + R.uni(0.1, 5); break; case 5: a = r - R.range(1, 3) * 100; b = r + R.uni(1, 1000); break; case 6: a = r - 1; b = r + 3; break; default: a = r - R.uni(0.05, 3); b = r + R.uni(0.05, 3); }
  if (R.chance(1, 3)) std::swap(a, b); }
typedef RootFindingResult (*Full)(const IRealFunction&, Real, Real, const RootFindingConfig&); typedef Real (*Simple)(const IRealFunction&, Real, Real, Real);
static const struct { const char* n; Full f; Simple s; } M[] = {{"bisect", FindRootBisection, FindRootBisection}, {"false", FindRootFalsePosition, FindRootFalsePosition}, {"newton", FindRootNewton, FindRootNewton}, {"secant", FindRootSecant, FindRootSecant}, {"ridders", FindRootRidders, FindRootRidders}, {"brent", FindRootBrent, FindRootBrent}};
static void root(Rng& R, const Pick& p, double a, double b) {
  double tol = R.chance(1, 8) ? 0.0 : R.pick(Ds{1e-2, 1e-4, 1e-6, 1e-8, 1e-10, 1e-12, 0.5}); int lim = R.chance(1, 2) ? 0 : R.pick(std::vector<int>{1, 2, 3, 5, 8, 15, 30, 60, 200});
  for (auto& m : M) { Fn f(p.e); RootFindingConfig c; c.tolerance = tol; c.max_iterations = lim; out.at(Str(m.n) + " " + p.e.json() + " " + hex(a) + " " + hex(b)); RootFindingResult r; Str err = guarded([&] { r = m.f(f, a, b, c); });
    Ev e("root"); e.kv("m", m.n).kv("k", p.kind).kv("f", p.e).kv("a", a).kv("b", b).kv("tol", tol).kv("lim", lim).kv("err", err).kv("x", r.root).kv("y", r.function_value).kv("it", r.iterations_used).kv("conv", r.converged).kv("st", (int)r.status).kv("msg", !r.error_message.empty());
    if (lim == 0) { double x = 0; Str es = guarded([&] { x = m.s(f, a, b, tol); }); e.kv("sx", x).kv("se", es); }
    out.ev(e); } }
static void brackets(Rng& R, const Pick& p, double a, double b) {
  { Fn f(p.e); double x = a, y = b; int lim = R.pick(std::vector<int>{50, 50, 0, 1, 3}); evals = 0; bool ok = false; out.at("bracket"); Str err = guarded([&] { ok = lim == 50 ? BracketRoot(f, x, y) : BracketRoot(f, x, y, lim); }); Ev e("bracket"); e.kv("k", p.kind).kv("f", p.e).kv("a", a).kv("b", b).kv("lim", lim).kv("err", err).kv("ok", ok).kv("x", x).kv("y", y).kv("n", evals); out.ev(e); }
  { Fn f(p.e); int n = R.chance(1, 6) ? R.range(30, 90) : R.range(1, 12); Vector<Real> u, v; if (R.chance(1, 2)) u.Resize(3); int k = 0; E g = p.e; if (R.chance(1, 5)) { g = fsin(C(R.uni(2, 30)) * X()); } Fn h(g); evals = 0; if (a > b) std::swap(a, b); Str err = guarded([&] { k = FindRootBrackets(h, a, b, n, u, v); }); Ds U, W; for (int i = 0; i < u.size(); i++) U.push_back(u[i]); for (int i = 0; i < v.size(); i++) W.push_back(v[i]);
    Ev e("scan"); e.kv("f", g).kv("a", a).kv("b", b).kv("n", n).kv("err", err).kv("c", k).kv("u", U).kv("v", W).kv("ev", evals); out.ev(e); } }
int main(int ac, char** av) {
  Args a = args(ac, av); out.open(a.out.c_str()); Rng R(a.seed);
  for (int i = 0; i < (a.thorough() ? 3000 : 260); i++) { out.begin("root" + std::to_string(i)); Pick p = make(R); double x, y; span(R, p.r, x, y); root(R, p, x, y); brackets(R, p, x, y); { Fn f(p.e); double u = x, v = x; Str err = guarded([&] { BracketRoot(f, u, v); }); Ev e("same"); e.kv("err", err); out.ev(e); } out.end(); }
  out.close(); return 0;
}
