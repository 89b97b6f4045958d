// Least-squares fits (C31).
#include "expr.h"
#include "mml/MMLBase.h"
#include "mml/base/Vector/Vector.h"
#include "mml/base/Function.h"
#include "mml/algorithms/CurveFitting.h"
using namespace vp; using namespace MML;
typedef std::vector<double> V;
static Out out;
static Vector<Real> mv(const V& v) { Vector<Real> r((int)v.size()); for (size_t i = 0; i < v.size(); i++) r[(int)i] = v[i]; return r; }
static V sv(const Vector<Real>& v) { V r; for (int i = 0; i < v.size(); i++) r.push_back(v[i]); return r; }
static const char* stat(AlgorithmStatus s) { switch (s) { case AlgorithmStatus::Success: return "Success"; case AlgorithmStatus::SingularMatrix: return "SingularMatrix"; case AlgorithmStatus::InvalidInput: return "InvalidInput"; default: return "Other"; } }
template <class F> static void detailed(Ev& e, F f) {
  CurveFittingConfig cap; cap.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; CurveFittingConfig prop; prop.exception_policy = EvaluationExceptionPolicy::Propagate;
  CurveFittingResult<Real> r; std::string dex = guarded([&] { r = f(cap); }), pex = guarded([&] { f(prop); });
  e.kv("dex", dex).kv("pex", pex).kv("ok", r.IsSuccess()).kv("status", stat(r.status));
  Ev d("d"); d.kv("c", sv(r.coefficients)).kv("rn", r.residual_norm).kv("r2", r.r_squared).kv("mse", r.mean_squared_error).kv("adj", r.adjusted_r_squared).kv("rank", r.effective_rank).kv("cond", r.condition_number);
  e.kv("d", Raw{d.str()});
}
static void lin(const V& xs, const V& ys, bool f) {
  Vector<Real> x = mv(xs), y = mv(ys); Ev e("lin"); e.kv("xs", xs).kv("ys", ys).kv("f", f);
  if (!f) { Real a = 7, b = 7, r = 7; std::string ex = guarded([&] { r = LinearLeastSquares(x, y, a, b); }); e.kv("ex", ex).kv("c", V{a, b}).kv("rn", r); out.ev(e); return; }
  LinearFitResult<Real> r; std::string ex = guarded([&] { r = LinearLeastSquaresDetailed(x, y); });
  e.kv("ex", ex).kv("c", V{r.a, r.b}).kv("rn", r.residual_norm).kv("r2", r.r_squared).kv("mse", r.mean_squared_error);
  detailed(e, [&](const CurveFittingConfig& c) { return LinearFitDetailed(x, y, c); });
  out.ev(e);
}
static void rec(Ev& e, const GeneralLinearFitResult<Real>& r) {
  e.kv("c", sv(r.coefficients)).kv("rn", r.residual_norm).kv("r2", r.r_squared).kv("mse", r.mean_squared_error).kv("adj", r.adjusted_r_squared).kv("rank", r.effective_rank).kv("cond", r.condition_number).kv("m", r.num_data_points).kv("n", r.num_basis_functions);
}
static E lincomb(const std::vector<E>& es, const V& c) { E s = C(0); for (size_t i = 0; i < es.size() && i < c.size(); i++) s = s + C(c[i]) * es[i]; return s; }
static void gen(const std::vector<E>& es, const V& xs, const V& ys, int form, bool crisp, Rng& R) {   // form 0 poly, 1 std::function, 2 IRealFunction*
  Vector<Real> x = mv(xs), y = mv(ys); int n = (int)es.size();
  Vector<std::function<Real(Real)>> fs(n); std::vector<RealFunctionFromStdFunc> ob; ob.reserve(n + 1); Vector<const IRealFunction*> ps(n);
  for (int i = 0; i < n; i++) { E ee = es[i]; fs[i] = [ee](Real t) { return ee(t); }; ob.emplace_back(fs[i]); ps[i] = &ob[i]; }
  GeneralLinearFitResult<Real> r; std::string ex = guarded([&] { r = form == 0 ? PolynomialFit(x, y, n - 1) : form == 1 ? GeneralLinearLeastSquares(x, y, fs) : GeneralLinearLeastSquares(x, y, ps); });
  Ev e("gen"); e.kv("es", es).kv("xs", xs).kv("ys", ys).kv("ex", ex).kv("crisp", crisp); rec(e, r);
  detailed(e, [&](const CurveFittingConfig& c) { return form == 0 ? PolynomialFitDetailed(x, y, n - 1, c) : GeneralLinearFitDetailed(x, y, fs, c); });
  out.ev(e);
  if (ex.empty()) for (int k = 0; k < 2; k++) {
    double t = R.uni(-4, 4); V c = sv(r.coefficients); Real v = 0; E f = lincomb(es, c);
    if (form == 0) { f = C(c.back()); for (int i = n - 2; i >= 0; i--) f = C(c[i]) + X() * f; v = EvaluatePolynomial(Real(t), r.coefficients); } else v = form == 1 ? r.evaluate(t, fs) : r.evaluate(t, ps);
    out.ev(Ev("eval").kv("f", f).kv("x", t).kv("v", v));
  }
}
int main(int ac, char** av) {
  Args a = args(ac, av); out.open(a.out.c_str()); Rng R(a.seed);
  int N = a.thorough() ? 220 : 40;
  auto pts = [&](int n, int kind, double sc, double off) { V v; for (int i = 0; i < n; i++) v.push_back(off + sc * (kind == 0 ? R.range(-3, 3) : kind == 1 ? R.uni(-3, 3) : i)); return v; };
  for (int q = 0; q < N; q++) {
    out.begin("l" + std::to_string(q));
    for (int k = 0; k < 6; k++) {
      int n = R.range(0, 9), kind = R.range(0, 2); double sx = R.pick(V{1, 1, 0.125, 1e-6, 1e6, 0x1p-60}), ox = R.pick(V{0, 0, 1, -3.5, 1e4, 1e8}) * (sx == 1 ? 1 : R.chance(1, 2) ? 0 : sx), sy = R.pick(V{1, 1, 0.1, 1e-10, 1e10}), oy = R.pick(V{0, 0, 1, 1e6}) * sy;
      V xs = pts(n, kind, sx, ox), ys = pts(n, R.range(0, 2), sy, oy);
      int w = R.range(0, 9);
      if (w == 0) for (auto& t : ys) t = ys[0];
      if (w == 1) { double p = R.range(-4, 4), s = R.range(-4, 4); for (int i = 0; i < n; i++) ys[i] = p * xs[i] + s; }
      if (w == 2) { double p = R.pick(V{2, 0.1, 1e9 + 0.3, -7.7e-5}); for (auto& t : xs) t = p; }
      if (w == 3 && n) ys.pop_back();
      lin(xs, ys, R.chance(2, 3));
    }
    out.end();
    out.begin("g" + std::to_string(q));
    for (int k = 0; k < 4; k++) {
      int form = R.range(0, 2), n = R.range(form ? 0 : 1, 5), m = R.range(std::max(0, n - 1), 9), kind = R.range(0, 2); double sy = R.pick(V{1, 1, 1, 1e-10, 1e10});
      std::vector<E> es; bool poly = form == 0;
      if (poly) for (int i = 0; i < n; i++) es.push_back(i == 0 ? C(1) : i == 1 ? X() : pw(X(), i));
      else { std::vector<E> pool = {C(1), X(), pw(X(), 2), pw(X(), 3), fsin(X()), fcos(X()), fexp(X()), C(1) / (C(1) + pw(X(), 2)), X() - C(1)}; bool alg = R.chance(1, 2); for (int i = 0; i < n; i++) { E e = R.pick(pool); if (alg && (e.op == "sin" || e.op == "cos" || e.op == "exp" || e.op == "/")) e = pool[R.range(0, 3)]; es.push_back(e); } }
      bool crisp = kind == 0; for (auto& e : es) if (e.op == "sin" || e.op == "cos" || e.op == "exp" || e.op == "/") crisp = false;
      V xs = pts(m, kind, kind == 2 ? 0.5 : 1, R.chance(1, 4) ? R.range(-2, 2) : 0), ys = pts(m, R.range(0, 1), sy, 0);
      if (poly && n > 4) crisp = false;
      int w = R.range(0, 9);
      if (w == 0) for (auto& t : ys) t = ys[0];
      if (w == 1 || w == 2) { V c; for (int i = 0; i < n; i++) c.push_back(R.range(-3, 3)); E f = lincomb(es, c); for (int i = 0; i < m; i++) ys[i] = f(xs[i]); }
      if (w == 3 && m) ys.pop_back();
      gen(es, xs, ys, form, crisp, R);
    }
    if (R.chance(1, 4)) { Vector<Real> x = mv({1, 2, 3}), y = mv({1, 2, 4}); int d = R.range(-3, -1); std::string ex = guarded([&] { PolynomialFit(x, y, d); }); Ev e("neg"); e.kv("ex", ex); detailed(e, [&](const CurveFittingConfig& c) { return PolynomialFitDetailed(x, y, d, c); }); out.ev(e); }
    out.end();
  }
  out.close(); return 0;
}
