// C21: records quadrature of functions with known integrals
#include "expr.h"
#include "core/Integration.h"
#include "core/Integration/GaussianQuadrature.h"
#include "core/Integration/GaussKronrod.h"
#include "core/Integration/Integration2DAdaptive.h"
#include "core/Integration/Integration3DAdaptive.h"
#include "core/Integration/IntegrationImproper.h"
#include "core/Integration/PathIntegration.h"
using namespace MML; using namespace vp;
typedef std::string Str; typedef std::vector<double> Ds;
static Out out; static long evals;
struct Fn : IRealFunction { E e; explicit Fn(const E& x) : e(x) {} Real operator()(Real x) const override { evals++; return e.eval<double>(&x); } };
// the derivative of F
struct Df : IRealFunction { E e; explicit Df(const E& x) : e(x) {} Real operator()(Real x) const override { evals++; Du u(x, 1); return e.eval<Du>(&u).d; } };
struct Pol : IRealFunction { Ds c; double m, s; Real operator()(Real x) const override { evals++; double u = (x - m) / s, r = 0; for (int i = (int)c.size() - 1; i >= 0; i--) r = r * u + c[i]; return r; } };
static void kv(Ev& e, const IntegrationResult& r) { e.kv("v", r.value).kv("ee", r.error_estimate).kv("it", r.iterations).kv("conv", r.converged).kv("ev", evals); }
static Str det(const IntegrationDetailedResult& r) { Ev e("d"); e.kv("v", r.value).kv("ee", r.error_estimate).kv("it", r.iterations).kv("conv", r.converged).kv("st", (int)r.status).kv("n", r.function_evaluations).kv("msg", !r.error_message.empty()); return e.str(); }
static double top(const IRealFunction& f, double a, double b) { double m = 0; for (int i = 0; i <= 32; i++) m = std::max(m, std::fabs(f(a + (b - a) * i / 32))); return m; }
// fixed rules, by name
static const char* FIX[] = {"gauss10", "gk15", "gk21", "gk31", "gl"};
static double fixedRule(const Str& m, const IRealFunction& f, double a, double b, int n, double& ee, bool& conv) {
  auto g = [&](Real x) { return f(x); }; Integration::GKResult k; ee = 0; conv = true;
  if (m == "gauss10") { auto r = IntegrateGauss10(f, a, b); ee = r.error_estimate; conv = r.converged; return r.value; }
  if (m == "gl") { auto r = IntegrateGaussLegendre(f, a, b, n); conv = r.converged; return r.value; }
  if (m == "gk15") k = Integration::IntegrateGK15(g, a, b); else if (m == "gk21") k = Integration::IntegrateGK21(g, a, b); else k = Integration::IntegrateGK31(g, a, b);
  ee = k.error_estimate; conv = k.converged; return k.value; }
static void span(Rng& R, double& a, double& b) { switch (R.range(0, 5)) { case 0: a = -1; b = 1; break; case 1: a = 0; b = 1; break; case 2: a = R.uni(-3, 3); b = a + R.uni(0.1, 5); break; case 3: a = R.range(-5, 5); b = a + R.range(1, 8); break; case 4: { double s = std::ldexp(1.0, R.range(-20, 20)); a = s * R.uni(-2, 2); b = s * R.uni(-2, 2); break; } default: a = 100 + R.uni(0, 1); b = a + R.uni(0.5, 3); } if (R.chance(1, 3)) std::swap(a, b); }
// exactness on polynomials, linearity, reversal, empty intervals
static void exact(Rng& R) {
  double a, b; span(R, a, b); static const int D[] = {19, 23, 31, 47, 0};
  for (int k = 0; k < 5; k++) { int n = R.range(1, 24); int d = k == 4 ? 2 * n - 1 : D[k]; if (R.chance(1, 3)) d = R.range(0, d); Pol p; p.m = (a + b) / 2; p.s = std::ldexp(1.0, std::ilogb(std::max(1e-9, std::fabs(b - a) / 2)) + (R.chance(1, 3) ? 0 : 1)); p.c.resize(d + 1); for (auto& c : p.c) c = R.chance(1, 4) ? 0 : R.range(-9, 9) * std::ldexp(1.0, R.range(-2, 2)); if (R.chance(1, 4)) { p.c.assign(d + 1, 0); } if (p.c[d] == 0) p.c[d] = R.range(1, 5);
    Ev e("exact"); double ee, e2; bool c, c2; evals = 0; double v = fixedRule(FIX[k], p, a, b, n, ee, c); long nev = evals; double w = fixedRule(FIX[k], p, b, a, n, e2, c2), z = fixedRule(FIX[k], p, a, a, n, e2, c2);
    e.kv("m", FIX[k]).kv("n", n).kv("p", p.c).kv("mid", p.m).kv("s", p.s).kv("a", a).kv("b", b).kv("v", v).kv("ee", ee).kv("ev", nev).kv("rev", w).kv("zero", z); out.ev(e); }
  // refinement methods on polynomials of their degree
  for (int k = 0; k < 3; k++) { int d = k == 0 ? 1 : k == 1 ? 3 : 9; Pol p; p.m = (a + b) / 2; p.s = std::ldexp(1.0, std::ilogb(std::max(1e-9, std::fabs(b - a) / 2)) + 1); p.c.resize(d + 1); for (auto& c : p.c) c = R.range(-9, 9); if (p.c[d] == 0) p.c[d] = 1; if (R.chance(1, 3)) p.c[0] = 0;
    Ev e("refine"); double eps = R.pick(Ds{1e-4, 1e-6, 1e-8}); evals = 0; auto f = k == 0 ? IntegrateTrap : k == 1 ? IntegrateSimpson : IntegrateRomberg; auto r = f(p, a, b, eps); kv(e, r); auto w = f(p, b, a, eps); auto z = f(p, a, a, eps); e.kv("m", k == 0 ? "trap" : k == 1 ? "simpson" : "romberg").kv("eps", eps).kv("p", p.c).kv("mid", p.m).kv("s", p.s).kv("a", a).kv("b", b).kv("rev", w.value).kv("zero", z.value).kv("zc", z.converged); out.ev(e); }
}
struct Known { E F; double a, b; };
// an antiderivative with an integrand that 64 points resolve
static Known known(Rng& R) {
  E x = X(); double c = R.uni(-2, 2), a = R.uni(-3, 1), b = a + R.uni(0.2, 3); E d = x - C(c); E F = C(0);
  switch (R.range(0, 9)) { case 0: F = fsin(C(R.uni(0.5, 4)) * d); break; case 1: F = fexp(C(R.uni(-2, 2)) * d); break; case 2: F = fatan(C(R.uni(0.3, 3)) * d); break; case 3: a = R.uni(0.2, 2); b = a + R.uni(0.2, 3); F = flog(x) * x; break; case 4: F = x * fsin(x) * fexp(C(-0.5) * x); break;
    case 5: F = fsin(C(R.uni(2, 6)) * x) * fexp(C(0.3) * x); break; case 6: a = R.uni(0.3, 2); b = a + R.uni(0.2, 4); F = C(1) / x; break; case 7: F = fsqrt(C(1) + d * d) * d; break; case 8: F = d * d * d - C(R.uni(0, 2)) * d; break; default: F = fcos(C(R.range(1, 4)) * d) + C(R.uni(-1, 1)) * x; }
  if (R.chance(1, 4)) F = C(R.chance(1, 2) ? std::pow(10, R.range(-150, -3)) : std::pow(10, R.range(3, 100))) * F;
  if (R.chance(1, 3)) std::swap(a, b); return {F, a, b}; }
static void refine(Rng& R) {
  Known k = known(R); Df f(k.F); double S = top(f, k.a, k.b); static const IntegrationMethod IM[] = {TRAP, SIMPSON, ROMBERG}; static const char* N[] = {"trap", "simpson", "romberg"};
  double eps = R.chance(1, 6) ? 0.0 : R.pick(Ds{1e-2, 1e-4, 1e-5, 1e-6, 1e-8, 1e-10, 1e-12}); int steps = R.chance(1, 2) ? 14 : R.pick(std::vector<int>{1, 2, 4, 5, 6, 7, 8, 9, 10, 12});
  int t0 = Defaults::TrapezoidIntegrationMaxSteps, s0 = Defaults::SimpsonIntegrationMaxSteps, r0 = Defaults::RombergIntegrationMaxSteps; Defaults::TrapezoidIntegrationMaxSteps = Defaults::SimpsonIntegrationMaxSteps = Defaults::RombergIntegrationMaxSteps = steps;
  for (int i = 0; i < 3; i++) { Ev e("conv"); out.at(Str(N[i]) + k.F.json() + " " + hex(k.a) + " " + hex(k.b)); evals = 0; IntegrationResult r; int form = R.range(0, 2); Str err = guarded([&] { r = form == 0 ? Integrate(f, k.a, k.b, IM[i], eps) : form == 1 ? (i == 0 ? Integrate<TRAP>(f, k.a, k.b, eps) : i == 1 ? Integrate<SIMPSON>(f, k.a, k.b, eps) : Integrate<ROMBERG>(f, k.a, k.b, eps)) : (i == 0 ? IntegrateTrap(f, k.a, k.b, eps) : i == 1 ? IntegrateSimpson(f, k.a, k.b, eps) : IntegrateRomberg(f, k.a, k.b, eps)); }); kv(e, r);
    auto dr = R.chance(1, 2) ? IntegrateDetailed(f, k.a, k.b, IM[i], {}, eps) : i == 0 ? IntegrateDetailed<TRAP>(f, k.a, k.b, {}, eps) : i == 1 ? IntegrateDetailed<SIMPSON>(f, k.a, k.b, {}, eps) : IntegrateDetailed<ROMBERG>(f, k.a, k.b, {}, eps);
    e.kv("m", N[i]).kv("F", k.F).kv("a", k.a).kv("b", k.b).kv("eps", eps).kv("lim", steps).kv("err", err).kv("S", S).kv("d", Raw{det(dr)}); out.ev(e); }
  Defaults::TrapezoidIntegrationMaxSteps = t0; Defaults::SimpsonIntegrationMaxSteps = s0; Defaults::RombergIntegrationMaxSteps = r0;
  { Ev e("single"); evals = 0; auto r = Integrate(f, k.a, k.b, GAUSS10, 1e-4); kv(e, r); auto q = Integrate<GAUSS10KRONROD21>(f, k.a, k.b); auto d1 = IntegrateDetailed(f, k.a, k.b, GAUSS10), d2 = IntegrateDetailed<GAUSS10KRONROD21>(f, k.a, k.b), d3 = Integration::IntegrateGK15Detailed([&](Real x) { return f(x); }, k.a, k.b), d4 = Integration::IntegrateGK31Detailed([&](Real x) { return f(x); }, k.a, k.b); e.kv("F", k.F).kv("a", k.a).kv("b", k.b).kv("S", S).kv("v2", q.value).kv("ee2", q.error_estimate).kv("d", Raw{"[" + det(d1) + "," + det(d2) + "," + det(d3) + "," + det(d4) + "]"}); out.ev(e); }
}
static void adaptive(Rng& R) {
  E x = X(); Known k = known(R); bool kink = false; switch (R.range(0, 4)) { case 0: { double c = R.uni(-1, 1); k = {fatan(C(R.uni(5, 60)) * (x - C(c))), c - R.uni(0.2, 3), c + R.uni(0.2, 3)}; break; } case 1: k = {fsin(C(R.uni(10, 60)) * x), R.uni(-1, 0), R.uni(0.5, 2)}; break; case 2: { double c = R.range(-3, 3) * 0.25; k = {(x - C(c)) * fabs_(x - C(c)), -1, 1}; kink = true; break; } default:; }
  Df f(k.F); double S = top(f, k.a, k.b), ta = R.chance(1, 5) ? 0.0 : std::pow(10, R.range(-13, -2)), tr = R.chance(1, 5) ? 0.0 : std::pow(10, R.range(-13, -2)); int depth = R.pick(std::vector<int>{0, 1, 2, 3, 5, 8, 10}); if (ta > 1e-8 || tr > 1e-8) depth = R.pick(std::vector<int>{0, 1, 3, 12, 25}); auto g = [&](Real t) { return f(t); };
  if (tr < 1e-9 && ta < 1e-9 * S) depth = std::min(depth, 8);
  static const Integration::GKRule RU[] = {Integration::GKRule::GK15, Integration::GKRule::GK21, Integration::GKRule::GK31}; int ru = R.range(0, 2); Ev e("adapt"); out.at("adapt" + k.F.json()); evals = 0; auto r = Integration::IntegrateGKAdaptive(g, k.a, k.b, ta, tr, depth, RU[ru]); long n = evals; auto d = Integration::IntegrateGKAdaptiveDetailed(g, k.a, k.b, {}, ta, tr, depth, RU[ru]); double ee = -1, v2 = 0; v2 = Integration::IntegrateGaussKronrod(g, k.a, k.b, &ee, 1e-6);
  e.kv("F", k.F).kv("a", k.a).kv("b", k.b).kv("S", S).kv("ta", ta).kv("tr", tr).kv("depth", depth).kv("v", r.value).kv("ee", r.error_estimate).kv("conv", r.converged).kv("ne", r.function_evals).kv("ev", n).kv("kink", kink).kv("pts", ru == 0 ? 15 : ru == 1 ? 21 : 31).kv("d", Raw{det(d)}).kv("v2", v2).kv("ee2", ee); out.ev(e); }
static void rules(Rng& R, bool thorough) {
  Str k = R.pick(std::vector<Str>{"legendre", "legendre", "laguerre", "hermite", "jacobi", "jacobi", "cheb1", "cheb2"}); int n = R.chance(1, 3) ? R.range(1, 5) : R.range(1, thorough ? 40 : 24); double al = 0, be = 0, a = -1, b = 1;
  if (k == "laguerre") al = R.chance(1, 2) ? 0 : R.chance(1, 2) ? R.range(0, 6) * 0.5 : R.uni(-0.9, 5); if (k == "jacobi") { al = R.chance(1, 3) ? R.range(0, 3) : R.uni(-0.9, 3); be = R.chance(1, 3) ? R.range(0, 3) : R.uni(-0.9, 3); } if (k == "legendre" && R.chance(1, 2)) span(R, a, b);
  GaussQuadratureRule r(0); out.at(k + std::to_string(n)); Str err = guarded([&] { r = k == "legendre" ? GaussLegendreRule(n, a, b) : k == "laguerre" ? GaussLaguerreRule(n, al) : k == "hermite" ? GaussHermiteRule(n) : k == "jacobi" ? GaussJacobiRule(n, al, be) : k == "cheb1" ? GaussChebyshev1Rule(n) : GaussChebyshev2Rule(n); });
  Ev e("rule"); e.kv("k", k).kv("n", n).kv("al", al).kv("be", be).kv("a", a).kv("b", b).kv("err", err).kv("x", r.nodes).kv("w", r.weights); Fn f(C(R.uni(-2, 2)) * X() + fcos(X())); double v = 0; Str e2 = err.empty() ? guarded([&] { v = (k == "legendre" ? IntegrateGaussLegendre(f, a, b, n) : k == "laguerre" ? IntegrateGaussLaguerre(f, n, al) : k == "hermite" ? IntegrateGaussHermite(f, n) : k == "jacobi" ? IntegrateGaussJacobi(f, al, be, n) : k == "cheb1" ? IntegrateGaussChebyshev1(f, n) : IntegrateGaussChebyshev2(f, n)).value; }) : "";
  Ds y; for (double t : r.nodes) y.push_back(f(t)); e.kv("y", y).kv("v", v).kv("err2", e2); out.ev(e); }
// iterated integrals: f(x,y,z), y in [y1(x),y2(x)], z in [z1(x,y),z2(x,y)], all polynomials
static E Y1, Y2, Z1, Z2;
static Real fy1(Real x) { return Y1.eval<double>(&x); } static Real fy2(Real x) { return Y2.eval<double>(&x); }
static Real fz1(Real x, Real y) { double v[] = {x, y}; return Z1.eval<double>(v); } static Real fz2(Real x, Real y) { double v[] = {x, y}; return Z2.eval<double>(v); }
struct S2 : IScalarFunction<2> { E e; Real operator()(const VectorN<Real, 2>& v) const override { evals++; double x[] = {v[0], v[1]}; return e.eval<double>(x); } };
struct S3 : IScalarFunction<3> { E e; Real operator()(const VectorN<Real, 3>& v) const override { evals++; double x[] = {v[0], v[1], v[2]}; return e.eval<double>(x); } };
static double q(Rng& R) { return R.range(-6, 6) * 0.25; }
static void multi(Rng& R, bool thorough) {
  E x = X(1), y = X(2), z = X(3); double a = R.range(-4, 3) * 0.5, b = a + R.range(1, 5) * 0.5; if (R.chance(1, 4)) std::swap(a, b); static const IntegrationMethod IM[] = {GAUSS10, GAUSS10KRONROD21, SIMPSON, TRAP, ROMBERG}; static const char* N[] = {"gauss10", "gk21", "simpson", "trap", "romberg"};
  Y1 = C(q(R)) + C(q(R)) * x; Y2 = R.chance(1, 4) ? C(q(R)) * x * x : C(q(R)) + C(q(R)) * x; Z1 = C(q(R)) + C(q(R)) * x + C(q(R)) * y; Z2 = C(q(R)) + C(q(R)) * x - C(q(R)) * y; if (R.chance(1, 3)) { Y1 = C(-0.5); Y2 = C(1.25); Z1 = C(0.25); Z2 = C(1); }
  auto mx = [&](auto&& g, int n) { double m = 0; for (int i = 0; i < 400; i++) { double t = a + (b - a) * R.unit(), s = fy1(t) + (fy2(t) - fy1(t)) * R.unit(), u = n == 3 ? fz1(t, s) + (fz2(t, s) - fz1(t, s)) * R.unit() : 0; m = std::max(m, std::fabs(g(t, s, u)) * std::max(1e-3, std::fabs(fy2(t) - fy1(t))) * (n == 3 ? std::max(1e-3, std::fabs(fz2(t, s) - fz1(t, s))) : 1)); } return m; };
  { S2 f; f.e = C(q(R)) + C(q(R)) * x + C(q(R)) * y + C(q(R)) * x * y + C(q(R)) * y * y; if (R.chance(1, 3)) f.e = f.e + C(q(R)) * x * x * y; double S = mx([&](double t, double s, double) { double v[] = {t, s}; return f.e.eval<double>(v); }, 2); int m = R.range(0, 4); Ev e("two"); evals = 0; IntegrationResult r; Str err = guarded([&] { r = Integrate2D(f, IM[m], a, b, fy1, fy2); }); kv(e, r); auto d = Integrate2DDetailed(f, IM[m], a, b, fy1, fy2); e.kv("m", N[m]).kv("f", f.e).kv("a", a).kv("b", b).kv("y1", Y1).kv("y2", Y2).kv("S", S).kv("err", err).kv("d", Raw{det(d)}); out.ev(e); }
  { S3 f; f.e = C(q(R)) + C(q(R)) * x + C(q(R)) * y + C(q(R)) * z; if (R.chance(1, 2)) f.e = f.e + C(q(R)) * x * z + C(q(R)) * y * y; double S = mx([&](double t, double s, double u) { double v[] = {t, s, u}; return f.e.eval<double>(v); }, 3); int m = R.range(0, R.chance(1, 4) ? 3 : 1); if (m == 3 && !thorough) m = 2; Ev e("three"); evals = 0; IntegrationResult r; bool def = m == 0 && R.chance(1, 2); Str err = guarded([&] { r = def ? Integrate3D(f, a, b, fy1, fy2, fz1, fz2) : Integrate3D(f, IM[m], a, b, fy1, fy2, fz1, fz2); }); kv(e, r); IntegrationDetailedResult d = def ? Integrate3DDetailed(f, a, b, fy1, fy2, fz1, fz2) : m < 2 ? Integrate3DDetailed(f, IM[m], a, b, fy1, fy2, fz1, fz2) : IntegrationDetailedResult(); e.kv("m", N[m]).kv("f", f.e).kv("a", a).kv("b", b).kv("y1", Y1).kv("y2", Y2).kv("z1", Z1).kv("z2", Z2).kv("S", S).kv("err", err); if (m < 2) e.kv("d", Raw{det(d)}); out.ev(e); } }
// boxes: the integrand is F'(x) G'(y) H'(z)
static void boxes(Rng& R, bool thorough) {
  E x = X(); auto pick = [&](double& a, double& b, bool peak) { a = R.uni(-2, 0.5); b = a + R.uni(0.3, 2.5); double c = R.uni(a, b); switch (R.range(0, peak ? 3 : 2)) { case 0: return fsin(C(R.uni(0.5, 3)) * x); case 1: return fexp(C(R.uni(-1.5, 1.5)) * x); case 2: return x * x * x - C(R.uni(-2, 2)) * x; default: return fatan(C(R.uni(2, 12)) * (x - C(c))); } };
  auto d1 = [](const E& e, double t) { Du u(t, 1); return e.eval<Du>(&u).d; }; auto tp = [&](const E& e, double a, double b) { double m = 0; for (int i = 0; i <= 32; i++) m = std::max(m, std::fabs(d1(e, a + (b - a) * i / 32))); return m; };
  double a, b, c, d, p, q; E F = pick(a, b, true), G = pick(c, d, true), H = pick(p, q, false); double ta = std::pow(10, R.range(-12, -3)), tr = R.chance(1, 4) ? 0.0 : std::pow(10, R.range(-12, -3)); int depth = R.pick(std::vector<int>{0, 1, 2, 4, 20}), me = R.chance(1, 4) ? R.pick(std::vector<int>{1, 300, 2000}) : 60000; bool cfg = R.chance(1, 2); if (!cfg) tr = ta;
  if (R.chance(1, 8)) std::swap(a, b); if (R.chance(1, 8)) std::swap(c, d); if (R.chance(1, 12)) b = a;
  { Ev e("box2"); out.at("box2"); evals = 0; auto f = [&](Real u, Real v) { evals++; return d1(F, u) * d1(G, v); }; Integration::AdaptiveConfig2D k; k.absoluteTolerance(ta).relativeTolerance(tr).maxDepth(depth).maxEvaluations(me); auto r = cfg ? Integration::IntegrateAdaptive2D(f, a, b, c, d, k) : Integration::IntegrateAdaptive2D(f, a, b, c, d, ta, depth, me); long n = evals; auto dd = cfg ? Integration::IntegrateAdaptive2DDetailed(f, a, b, c, d, k) : Integration::IntegrateAdaptive2DDetailed(f, a, b, c, d, IntegrationConfig{}, ta, depth, me);
    e.kv("F", std::vector<E>{F, G}).kv("lo", Ds{a, c}).kv("hi", Ds{b, d}).kv("S", tp(F, a, b) * tp(G, c, d)).kv("ta", ta).kv("tr", tr).kv("depth", depth).kv("me", me).kv("v", r.value).kv("ee", r.error_estimate).kv("conv", r.converged).kv("ne", r.function_evaluations).kv("ev", n).kv("cells", r.cells_subdivided).kv("dep", r.max_depth_reached).kv("d", Raw{det(dd)}); out.ev(e); }
  if (R.chance(1, 3)) { Ev e("box3"); if (me == 60000) me = thorough ? 200000 : 60000; ta = std::max(ta, 1e-7); if (!cfg) tr = ta; evals = 0; auto f = [&](Real u, Real v, Real w) { evals++; return d1(F, u) * d1(G, v) * d1(H, w); }; Integration::AdaptiveConfig3D k; k.absoluteTolerance(ta).relativeTolerance(tr).maxDepth(depth).maxEvaluations(me); auto r = cfg ? Integration::IntegrateAdaptive3D(f, a, b, c, d, p, q, k) : Integration::IntegrateAdaptive3D(f, a, b, c, d, p, q, ta, depth, me); long n = evals; auto dd = cfg ? Integration::IntegrateAdaptive3DDetailed(f, a, b, c, d, p, q, k) : Integration::IntegrateAdaptive3DDetailed(f, a, b, c, d, p, q, IntegrationConfig{}, ta, depth, me);
    e.kv("F", std::vector<E>{F, G, H}).kv("lo", Ds{a, c, p}).kv("hi", Ds{b, d, q}).kv("S", tp(F, a, b) * tp(G, c, d) * tp(H, p, q)).kv("ta", ta).kv("tr", tr).kv("depth", depth).kv("me", me).kv("v", r.value).kv("ee", r.error_estimate).kv("conv", r.converged).kv("ne", r.function_evaluations).kv("ev", n).kv("cells", r.cells_subdivided).kv("dep", r.max_depth_reached).kv("d", Raw{det(dd)}); out.ev(e); } }
// improper: lo / hi are the values of the antiderivative at the ends
static void improper(Rng& R) {
  E x = X(); double eps = R.pick(Ds{1e-4, 1e-6, 1e-8}), a = R.uni(-1, 2), s = R.uni(0.5, 2); int m = Defaults::RombergIntegrationMaxSteps; Defaults::RombergIntegrationMaxSteps = R.chance(1, 4) ? R.range(3, 7) : 12; const double INF = 9; (void)INF;
  auto put = [&](const Str& k, const E& F, const Str& lo, const Str& hi, double A, double B, const IntegrationResult& r, const IntegrationDetailedResult& d) { Ev e("improper"); kv(e, r); e.kv("k", k).kv("F", F).kv("lo", lo).kv("hi", hi).kv("a", A).kv("b", B).kv("eps", eps).kv("lim", Defaults::RombergIntegrationMaxSteps).kv("d", Raw{det(d)}); out.ev(e); };
  switch (R.range(0, 7)) {
    case 0: { E F = R.chance(1, 2) ? C(-1) * fexp(C(-s) * x) : C(-1) / (x * x + C(1)); Df f(F); evals = 0; auto r = IntegrateUpperInf(f, a, eps); put("upper", F, "at", "0", a, 0, r, IntegrateUpperInfDetailed(f, a, {}, eps)); break; }
    case 1: { E F = R.chance(1, 2) ? fexp(C(s) * x) : C(1) / (x * x + C(1)); Df f(F); evals = 0; auto r = IntegrateLowerInf(f, a, eps); put("lower", F, "0", "at", 0, a, r, IntegrateLowerInfDetailed(f, a, {}, eps)); break; }
    case 2: { E F = fatan(C(s) * x); Df f(F); evals = 0; auto r = IntegrateUpperInf(f, a, eps); put("upper", F, "at", "pi/2", a, 0, r, IntegrateUpperInfDetailed(f, a, {}, eps)); break; }
    case 3: { E F = fatan(C(s) * x); Df f(F); evals = 0; bool sp = R.chance(1, 2); auto r = sp ? IntegrateInfSplit(f, a, eps) : IntegrateInf(f, eps); put(sp ? "split" : "inf", F, "-pi/2", "pi/2", 0, 0, r, sp ? IntegrateInfSplitDetailed(f, a, {}, eps) : IntegrateInfDetailed(f, {}, eps)); break; }
    case 4: { double b = a + R.uni(0.3, 3); E F = fsqrt(x - C(a)) * (C(s) + x - C(a)); Df f(F); evals = 0; auto r = IntegrateLowerSingular(f, a, b, eps); put("lows", F, "at", "at", a, b, r, IntegrateLowerSingularDetailed(f, a, b, {}, eps)); break; }
    case 5: { double b = a + R.uni(0.3, 3); E F = fsqrt(C(b) - x) * (C(s) + x); Df f(F); evals = 0; auto r = IntegrateUpperSingular(f, a, b, eps); put("upps", F, "at", "at", a, b, r, IntegrateUpperSingularDetailed(f, a, b, {}, eps)); break; }
    case 6: { double b = a + R.uni(0.3, 3), c = R.uni(a + 0.1, b - 0.1); E F = (x - C(c)) / fsqrt(fabs_(x - C(c))); Df f(F); evals = 0; auto r = IntegrateInteriorSingular(f, a, b, c, eps); put("inner", F, "at", "at", a, b, r, IntegrateInteriorSingularDetailed(f, a, b, c, {}, eps)); break; }
    default: { E F; double A = a, B = a + R.uni(0.3, 3); if (R.chance(1, 2)) { Known k = known(R); F = k.F; A = k.a; B = k.b; Df f(F); evals = 0; auto r = IntegrateOpen(f, A, B, eps); put("open", F, "at", "at", A, B, r, IntegrateOpenDetailed(f, A, B, {}, eps)); } else { F = fsqrt(x - C(A)) - fsqrt(C(B) - x); Df f(F); evals = 0; auto r = IntegrateBothSingular(f, A, B, eps); put("both", F, "at", "at", A, B, r, IntegrateBothSingularDetailed(f, A, B, {}, eps)); } } }
  Defaults::RombergIntegrationMaxSteps = m; }
// curves r(t) and fields with polynomial components
struct Cv : IParametricCurve<3> { std::vector<E> r; Real getMinT() const override { return -10; } Real getMaxT() const override { return 10; } VectorN<Real, 3> operator()(Real t) const override { return {r[0].eval<double>(&t), r[1].eval<double>(&t), r[2].eval<double>(&t)}; } };
struct Vf : IVectorFunction<3> { std::vector<E> f; VectorN<Real, 3> operator()(const VectorN<Real, 3>& v) const override { double x[] = {v[0], v[1], v[2]}; return {f[0].eval<double>(x), f[1].eval<double>(x), f[2].eval<double>(x)}; } };
static void path(Rng& R) {
  E t = X(); Cv c; bool line = R.chance(1, 2); double dx = R.range(-3, 3), dy = R.range(-3, 3), dz = R.range(1, 3); c.r = line ? std::vector<E>{C(q(R)) + C(dx) * t, C(q(R)) + C(dy) * t, C(q(R)) + C(dz) * t} : std::vector<E>{C(q(R)) + C(q(R)) * t, C(q(R)) * t * t, C(q(R)) - C(q(R)) * t};
  double a = R.uni(-1, 1), b = a + R.uni(0.2, 2); if (R.chance(1, 3)) std::swap(a, b); E x = X(1), y = X(2), z = X(3); Vf f; f.f = {C(q(R)) + C(q(R)) * y, C(q(R)) * x + C(q(R)) * z, C(q(R)) * x * y + C(q(R))}; double eps = R.pick(Ds{1e-3, 1e-5, 1e-7});
  auto S = [&] { double m = 0; for (int i = 0; i <= 16; i++) { double u = a + (b - a) * i / 16; auto p = c(u); auto v = f(p); for (int k = 0; k < 3; k++) { Du d(u, 1); m += std::fabs(v[k] * c.r[k].eval<Du>(&d).d); } } return m; }();
  { Ev e("work"); evals = 0; auto r = PathIntegration::LineIntegral(f, c, a, b, eps); kv(e, r); e.kv("r", c.r).kv("f", f.f).kv("a", a).kv("b", b).kv("eps", eps).kv("S", S); out.ev(e); }
  if (line) { S3 g; g.e = C(q(R)) + C(q(R)) * x + C(q(R)) * y * z; Ev e("along"); auto r = PathIntegration::LineIntegral(g, c, a, b, eps); kv(e, r); auto len = PathIntegration::ParametricCurveLength<3>(c, a, b); Fn den(C(2) + X() * X()); auto ms = PathIntegration::ParametricCurveMass<3>(c, den, a, b); e.kv("r", c.r).kv("g", g.e).kv("den", den.e).kv("dir", Ds{dx, dy, dz}).kv("a", a).kv("b", b).kv("eps", eps).kv("S", 60.0).kv("len", len.value).kv("lc", len.converged).kv("mass", ms.value).kv("mc", ms.converged); out.ev(e); } }
int main(int ac, char** av) {
  Args a = args(ac, av); out.open(a.out.c_str()); Rng R(a.seed); bool th = a.thorough(); int n = th ? 1500 : 120;
  for (int i = 0; i < n; i++) { out.begin("q" + std::to_string(i)); exact(R); refine(R); adaptive(R); adaptive(R); rules(R, th); rules(R, th); multi(R, th); boxes(R, th); improper(R); path(R); out.end(); }
  out.close(); return 0;
}
