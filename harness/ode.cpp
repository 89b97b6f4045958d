// C18: explicit ODE integrators: single steps of the step calculators and of the adaptive steppers, whole integrations
#include "vp.h"
#include "expr.h"
#include "algorithms/ODESolvers.h"
#include "algorithms/ODESolvers/ODEStepCalculators.h"
#include "algorithms/ODESolvers/ODESolverFixedStep.h"
#include "algorithms/ODESolvers/ODESolverAdaptive.h"
using namespace MML; using namespace vp;
static Out out;
typedef std::string Str; typedef std::vector<double> Vd;
struct Sys : public IODESystem {
  std::vector<E> fs; mutable long cnt = 0; explicit Sys(std::vector<E> f) : fs(f) {}
  int getDim() const override { return (int)fs.size(); }
  void derivs(const Real t, const Vector<Real>& x, Vector<Real>& d) const override { cnt++; Vd v(1, t); for (int i = 0; i < x.size(); i++) v.push_back(x[i]); for (size_t i = 0; i < fs.size(); i++) d[i] = fs[i].eval<double>(v.data()); }
};
static Vd vec(const Vector<Real>& x) { Vd v; for (int i = 0; i < x.size(); i++) v.push_back(x[i]); return v; }
static Vector<Real> mk(const Vd& v) { Vector<Real> x((int)v.size()); for (size_t i = 0; i < v.size(); i++) x[i] = v[i]; return x; }
static double cf(Rng& R) { return R.range(-8, 8) / 4.0; }
// a mild right-hand side in (t, x_1..x_n)
static E rhs(Rng& R, int n, bool trig) {
  E e = C(cf(R)); for (int k = 1; k <= n + 1; k++) if (R.chance(2, 3)) e = e + C(cf(R)) * X(k);
  if (R.chance(1, 2)) e = e + C(cf(R) / 2) * X(R.range(1, n + 1)) * X(R.range(1, n + 1));
  if (trig && R.chance(1, 2)) e = e + C(cf(R)) * (R.chance(1, 2) ? fsin(X(R.range(1, n + 1))) : fcos(X(1) + X(R.range(1, n + 1))));
  return e; }
static std::vector<E> system(Rng& R, int n, bool trig) { std::vector<E> f; for (int i = 0; i < n; i++) f.push_back(rhs(R, n, trig)); return f; }
// x' = v, v' = a(t, x)
static std::vector<E> newton(Rng& R, int n) { std::vector<E> f; for (int i = 0; i < n; i++) f.push_back(X(2 + n + i)); for (int i = 0; i < n; i++) f.push_back(rhs(R, n, true)); return f; }
static Vd point(Rng& R, int n) { Vd v; for (int i = 0; i < n; i++) v.push_back(R.chance(1, 6) ? 0.0 : R.chance(1, 2) ? R.range(-8, 8) / 4.0 : R.uni(-2, 2)); return v; }
static const char* MN[] = {"euler", "heun", "mid", "rk4", "ck", "dp5", "dp8", "vv", "lf"};
static const IODESystemStepCalculator* calc(int m) { switch (m) { case 0: return &StepCalculators::EulerStepCalc; case 1: return &StepCalculators::EulerCromerStepCalc; case 2: return &StepCalculators::MidpointStepCalc; case 3: return &StepCalculators::RK4_Basic; case 4: return &StepCalculators::RK5_CashKarp; case 5: return &StepCalculators::DormandPrince5StepCalc; case 6: return &StepCalculators::DormandPrince8StepCalc; case 7: return &StepCalculators::VelocityVerletStepCalc; default: return &StepCalculators::LeapfrogStepCalc; } }
static void step(Rng& R, int m) {
  int n = R.range(1, 3); auto fs = m >= 7 ? newton(R, n) : system(R, n, true); if (m >= 7) n *= 2; Sys s(fs); double t = R.chance(1, 3) ? 0 : R.uni(-2, 2), h = R.pick(Vd{0.5, 0.1, 0.01, -0.1, 0.3}); Vd x = point(R, n);
  Vector<Real> d(n), o(n), er(n); s.derivs(t, mk(x), d); calc(m)->calcStep(s, t, mk(x), d, h, o, er);
  out.ev(Ev("step").kv("m", MN[m]).kv("fs", Raw{js(fs)}).kv("t", t).kv("x", x).kv("h", h).kv("out", vec(o)).kv("err", vec(er))); }
static Str mat(const ODESystemSolution& s) { Str o = "["; for (int k = 0; k < s.size(); k++) { o += k ? ",[" : "["; for (int i = 0; i < s.getSysDim(); i++) o += (i ? "," : "") + js((double)s.getXValue(k, i)); o += "]"; } return o + "]"; }
static Vd times(const ODESystemSolution& s) { Vd v; for (int k = 0; k < s.size(); k++) v.push_back(s.getTValue(k)); return v; }
static void fixed(Rng& R, int m) {
  int n = R.range(1, 2); auto fs = m >= 7 ? newton(R, n) : system(R, n, m < 4); if (m >= 7) n *= 2; Sys s(fs); double t1 = R.chance(1, 2) ? 0 : R.uni(-2, 2), t2 = t1 + R.pick(Vd{0.1, 0.5, 1.0 / 3, 0.7}); int N = m >= 4 && m < 7 ? R.range(1, 4) : R.range(1, 12); Vd x = point(R, n);
  ODESystemFixedStepSolver sol(s, *calc(m)); auto r = sol.integrate(mk(x), t1, t2, N);
  out.ev(Ev("fixed").kv("m", MN[m]).kv("fs", Raw{js(fs)}).kv("t1", t1).kv("t2", t2).kv("n", N).kv("x", x).kv("ts", times(r)).kv("xs", Raw{mat(r)})); }
template <class S> static void dosteps(Rng& R, const Str& m) {
  int n = R.range(1, 2); auto fs = system(R, n, R.chance(1, 2)); Sys s(fs); S st(s); double t = R.chance(1, 2) ? 0 : R.uni(-2, 2); Vector<Real> x = mk(point(R, n)), d(n); s.derivs(t, x, d); double h = R.pick(Vd{0.5, 0.2, 0.05, 1.0});
  double eps = R.pick(Vd{1e-3, 1e-5, 1e-8, 1e-11}); int N = R.range(1, 3);
  for (int k = 0; k < N; k++) {
    if (k && R.chance(1, 6)) { x = mk(point(R, n)); s.derivs(t, x, d); st.resetFSAL(); }    // another place
    Vd x0 = vec(x); double fsize = 0; for (int i = 0; i < n; i++) fsize = std::max(fsize, std::fabs(d[i])); long c0 = s.cnt; StepResult r; Str er = guarded([&] { r = st.doStep(t, x, d, h, eps); }); if (!er.empty()) break;
    long c = s.cnt - c0; Ev v("do"); v.kv("m", m).kv("fs", Raw{js(fs)}).kv("t", t).kv("x", x0).kv("htry", h).kv("eps", eps).kv("acc", r.accepted).kv("hd", (double)r.hDone).kv("hnext", (double)r.hNext).kv("errmax", (double)r.errMax).kv("rej", r.rejections).kv("ev", r.funcEvals).kv("cnt", (int)c).kv("out", vec(x)).kv("dout", vec(d)).kv("fsize", fsize);
    Vd th; Str mid = "["; if (r.accepted) for (double q : {0.0, 1.0, R.unit()}) { double tt = q == 1.0 ? t + r.hDone : t + q * r.hDone; Vd y = vec(st.interpolate(tt)); mid += (th.empty() ? "" : ",") + js(y); th.push_back(tt); }
    bool big = false; for (double y : vec(x)) if (!(std::fabs(y) < 1e3)) big = true; if (big) break;   // leaves the region of interest
    out.ev(v.kv("th", th).kv("mid", Raw{mid + "]"})); if (r.accepted) t += r.hDone; h = std::min((double)r.hNext, 1.0); } }
// right-hand sides with a known solution through x(t0)
struct Known { std::vector<E> fs, sol; double grow; };
static Known known(Rng& R, double t0, double T) {
  Known k; k.grow = 1; E tau = X(1) - C(t0); auto pos = [&] { return R.range(1, 8) / 4.0; };
  switch (R.range(0, 5)) {
    case 0: { int n = R.range(1, 3), dg = R.range(0, 2); for (int i = 0; i < n; i++) { E f = C(0), s = C(cf(R)); for (int j = 0; j <= dg; j++) { double c = R.range(-6, 6); f = f + C(c) * pw(tau, j); s = s + C(c / (j + 1)) * pw(tau, j + 1); if (j == 2 && std::fmod(c, 3) != 0) { s = s - C(c / 3) * pw(tau, 3) + C(c) * pw(tau, 3) / C(3); } } k.fs.push_back(f); k.sol.push_back(s); } break; }
    case 1: { int n = R.range(1, 2); for (int i = 0; i < n; i++) { double l = -pos(), y = cf(R) + 0.125; k.fs.push_back(C(l) * X(2 + i)); k.sol.push_back(C(y) * fexp(C(l) * tau)); } break; }
    case 2: { double w = pos(), a = pos(), b = cf(R); k.fs = {X(3), C(-w * w) * X(2)}; k.sol = {C(a) * fcos(C(w) * tau) + C(b) * fsin(C(w) * tau), C(b * w) * fcos(C(w) * tau) - C(a * w) * fsin(C(w) * tau)}; break; }
    case 3: { double q = R.pick(Vd{1, 3, 0.5}); k.fs = {X(2) * (C(1) - X(2))}; k.sol = {C(1) / (C(1) + C(q) * fexp(C(0) - tau))}; k.grow = 2; break; }
    case 4: { double l = R.pick(Vd{0.5, 1, 0.25}), y = pos(); k.fs = {C(l) * X(2)}; k.sol = {C(y) * fexp(C(l) * tau)}; break; }
    default: { double y = pos(); k.fs = {C(-2) * tau * X(2) + C(0)}; k.sol = {C(y) * fexp(C(0) - tau * tau)}; k.grow = 2; } }
  (void)T; return k; }
template <class S> static void whole(Rng& R, const Str& m) {
  double t0 = R.chance(1, 3) ? 0 : R.chance(1, 4) ? R.range(-40, 40) * 25 : R.uni(-3, 3), T = R.pick(Vd{0.3, 1, 1.1, 2, 0.7, 3.3}), te = t0 + T; auto k = known(R, t0, T); int n = (int)k.fs.size(); Sys s(k.fs);
  Vd x0; for (auto& f : k.sol) x0.push_back(f.template eval<double>(&t0)); double eps = R.pick(Vd{1e-4, 1e-6, 1e-8, 1e-10}), h0 = R.pick(Vd{0, 0, 0.1, 1e-3, 10});
  double dt = R.pick(Vd{0.1, 0.01 * std::ceil(T * 5), T / 7, T, 2 * T, T / 11, 0.3, 0.07}); int mode = R.range(0, 3); Vd want; ODESystemSolution sol(t0, te, n, 1); SolutionStatistics q; Str mh = "\"none\"", er; s.cnt = 0;
  ODEAdaptiveIntegrator<S> I(s);
  if (R.chance(1, 4)) { guarded([&] { I.integrate(mk(x0), t0, te, T / 3, 1e-4); }); s.cnt = 0; }   // used before
  if (mode == 0) er = guarded([&] { sol = I.integrate(mk(x0), t0, te, dt, eps, h0); });
  else if (mode == 1) { int N = R.range(2, 8); Vd u(1, t0); for (int i = 1; i < N - 1; i++) u.push_back(R.uni(t0 + 1e-9, te)); u.push_back(te); std::sort(u.begin(), u.end()); want = u; er = guarded([&] { sol = I.integrateAt(mk(x0), mk(u), eps, h0); }); }
  else { ODEIntegratorConfig c; c.tolerance = eps; c.initial_step_size = h0; c.output_interval = R.chance(1, 5) ? 0 : dt; if (R.chance(1, 3)) { c.max_step_size = R.pick(Vd{0.05, 0.2}); mh = js((double)c.max_step_size); }
    if (c.output_interval == 0) dt = (te - t0) / 100.0;
    if (mode == 2) er = guarded([&] { sol = I.integrate(mk(x0), t0, te, c); });
    else { ODEAdaptiveConfig a; a.integrator = c; ODEAdaptiveResult r; er = guarded([&] { r = ODEAdaptiveIntegrateDetailed<S>(s, mk(x0), t0, te, a); }); if (er.empty()) { sol = *r.solution; q.acceptedSteps = r.accepted_steps; q.rejectedSteps = r.rejected_steps; q.totalFuncEvals = r.total_func_evals; q.minStepSize = r.min_step_size; q.maxStepSize = r.max_step_size; if (r.function_evaluations != r.total_func_evals) er = "evaluations"; } } }
  if (mode != 3) q = I.getStatistics();
  out.ev(Ev("int").kv("m", m).kv("mode", mode == 1 ? "at" : "grid").kv("fs", Raw{js(k.fs)}).kv("sol", Raw{js(k.sol)}).kv("grow", k.grow).kv("t0", t0).kv("te", te).kv("dt", dt).kv("x0", x0).kv("eps", eps).kv("want", want).kv("maxh", Raw{mh}).kv("throw", er).kv("ts", times(sol)).kv("xs", Raw{mat(sol)})
    .kv("acc", q.acceptedSteps).kv("rej", q.rejectedSteps).kv("total", q.totalSteps()).kv("rate", (double)q.acceptanceRate()).kv("ev", q.totalFuncEvals).kv("cnt", (int)s.cnt).kv("hmin", (double)q.minStepSize).kv("hmax", (double)q.maxStepSize)); }
int main(int ac, char** av) {
  Args a = args(ac, av); out.open(a.out.c_str()); Rng R(a.seed); int N = a.thorough() ? 400 : 40;
  for (int i = 0; i < N; i++) {
    out.begin("c" + std::to_string(i)); for (int m = 0; m < 9; m++) step(R, m); out.end();
    out.begin("f" + std::to_string(i)); fixed(R, i % 9); fixed(R, R.range(0, 8)); out.end();
    out.begin("d" + std::to_string(i)); dosteps<DormandPrince5_Stepper>(R, "dp5"); dosteps<CashKarp_Stepper>(R, "ck"); dosteps<DormandPrince8_Stepper>(R, "dp8"); dosteps<BulirschStoer_Stepper>(R, "bs"); dosteps<BulirschStoerRational_Stepper>(R, "bsr"); out.end();
    out.begin("i" + std::to_string(i)); whole<DormandPrince5_Stepper>(R, "dp5"); whole<CashKarp_Stepper>(R, "ck"); whole<DormandPrince8_Stepper>(R, "dp8"); whole<BulirschStoer_Stepper>(R, "bs"); whole<BulirschStoerRational_Stepper>(R, "bsr"); out.end(); }
  out.close(); return 0; }
