// C23: records values of interpolants at, between and outside their nodes
#include "expr.h"
#include "base/InterpolatedFunctions/InterpolatedRealFunction.h"
#include "base/InterpolatedFunctions/Interpolation2DFunction.h"
#include "base/InterpolatedFunctions/InterpolationParametricCurve.h"
using namespace MML; using namespace vp;
typedef std::string Str; typedef std::vector<double> Ds; typedef std::vector<Ds> Dss;
static Out out;
static Vector<Real> vec(const Ds& d) { Vector<Real> v((int)d.size()); for (int i = 0; i < (int)d.size(); i++) v[i] = d[i]; return v; }
static Matrix<Real> mat(const Dss& d) { Matrix<Real> m((int)d.size(), (int)d[0].size()); for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m(i, j) = d[i][j]; return m; }
// strictly monotone nodes, either way
static Ds nodes(Rng& R, int n) {
  Ds x; double t = R.chance(1, 4) ? R.range(-5, 5) : R.uni(-10, 10), s = R.chance(1, 4) ? std::ldexp(1.0, R.range(-30, 30)) : 1; int kind = R.range(0, 3); if (kind == 3) t = R.uni(-1, 1) * 1e3;
  for (int i = 0; i < n; i++) { x.push_back(t * s); t += kind == 0 ? R.range(1, 3) : kind == 1 ? R.uni(0.05, 2) : kind == 2 ? 0.5 : std::pow(10.0, R.uni(-3, 1)); }
  if (R.chance(1, 3)) std::reverse(x.begin(), x.end()); return x; }
static Ds values(Rng& R, int n) { Ds y(n); int kind = R.range(0, 4); double c = R.uni(-5, 5), s = R.chance(1, 5) ? std::pow(10.0, R.range(-100, 60)) : 1; for (int i = 0; i < n; i++) y[i] = s * (kind == 0 ? R.range(-4, 4) : kind == 1 ? R.uni(-10, 10) : kind == 2 ? c : kind == 3 ? std::sin(0.7 * i) : (i == n / 2 ? 1.0 : 0.0)); return y; }
// at, next to, between, outside; sometimes again
static Ds queries(Rng& R, const Ds& x, int k, double out = 0.5) {
  Ds q; int n = (int)x.size(); double lo = std::min(x[0], x[n - 1]), hi = std::max(x[0], x[n - 1]);
  while ((int)q.size() < k) { int i = R.range(0, n - 1), j = i + 1 < n ? i + 1 : i - 1; switch (R.range(0, 9)) { case 0: case 1: q.push_back(x[i]); break; case 2: q.push_back(x[i] == 0 ? (hi - lo) * (R.chance(1, 2) ? 1e-13 : -1e-13) : std::nextafter(x[i], R.chance(1, 2) ? 1e300 : -1e300)); break; case 3: q.push_back(x[R.chance(1, 2) ? 0 : n - 1]); break; case 4: q.push_back(lo - (hi - lo) * R.uni(0, out)); break; case 5: q.push_back(hi + (hi - lo) * R.uni(0, out)); break; case 6: if (!q.empty()) q.push_back(R.pick(q)); break; case 7: q.push_back(x[i] + (x[j] - x[i]) * 0.5); break; default: q.push_back(x[i] + (x[j] - x[i]) * R.unit()); } }
  return q; }
static void real1(Rng& R) {
  int n = R.chance(1, 5) ? 2 : R.range(2, 10); Ds x = nodes(R, n), y = values(R, n); int m = R.range(2, std::min(n, 7)); Str k = R.pick(std::vector<Str>{"linear", "poly", "spline", "spline", "rational", "bary"}); bool ex = R.chance(1, 2); int d = R.range(0, std::min(n - 1, 5));
  if (k == "rational") { m = std::min(m, 5); if (R.chance(1, 2)) { double c = R.uni(0.5, 2); int deg = R.range(0, (m - 1) / 2); if (deg) m = std::min(m, 3); double sp = std::max(x[0], x[n - 1]) - std::min(x[0], x[n - 1]), x0 = std::min(x[0], x[n - 1]); for (int i = 0; i < n; i++) { double u = (x[i] - x0) / sp; y[i] = deg == 0 ? c : 1 / (u + c); } } }
  Ds s1, sn; double sl = 1e99, sr = 1e99; double rise = std::fabs(y[n - 1] - y[0]) / std::fabs(x[n - 1] - x[0]); if (k == "spline") { if (R.chance(1, 2)) { sl = R.chance(1, 4) ? 0 : R.uni(-3, 3) * (rise > 0 ? rise : 1); s1 = {sl}; } if (R.chance(1, 2)) { sr = R.chance(1, 4) ? 0 : R.uni(-3, 3) * (rise > 0 ? rise : 1); sn = {sr}; } }
  Vector<Real> X = vec(x), Y = vec(y); std::unique_ptr<LinearInterpRealFunc> L; std::unique_ptr<PolynomInterpRealFunc> P; std::unique_ptr<SplineInterpRealFunc> S; std::unique_ptr<RationalInterpRealFunc> Q; std::unique_ptr<BarycentricRationalInterp> B;
  out.at(k + " " + std::to_string(n)); Str err = guarded([&] { if (k == "linear") L.reset(new LinearInterpRealFunc(X, Y, ex)); else if (k == "poly") P.reset(new PolynomInterpRealFunc(X, Y, m)); else if (k == "spline") S.reset(new SplineInterpRealFunc(X, Y, sl, sr)); else if (k == "rational") Q.reset(new RationalInterpRealFunc(X, Y, m)); else B.reset(new BarycentricRationalInterp(X, Y, d)); });
  Ev e("make"); e.kv("k", k).kv("x", x).kv("y", y).kv("m", k == "poly" || k == "rational" ? m : 2).kv("ex", ex).kv("d", d).kv("s1", s1).kv("sn", sn).kv("err", err);
  if (S) { Ds M; for (int i = 0; i < n; i++) M.push_back(S->GetSecondDerivative(i)); e.kv("M", M); } if (B) { Ds w; for (int i = 0; i < n; i++) w.push_back(B->getWeight(i)); e.kv("w", w); }
  e.kv("lo", B ? B->MinX() : L ? L->MinX() : P ? P->MinX() : S ? S->MinX() : Q->MinX()).kv("hi", B ? B->MaxX() : L ? L->MaxX() : P ? P->MaxX() : S ? S->MaxX() : Q->MaxX()); out.ev(e);
  for (double t : queries(R, x, 8, k == "poly" || k == "rational" ? 0.2 : 0.7)) {
    Ev v("at"); double r = 0, ee = 0; out.at(k + " at " + hex(t)); Str er = guarded([&] { r = L ? (*L)(t) : P ? (*P)(t) : S ? (*S)(t) : Q ? (*Q)(t) : (*B)(t); if (P) ee = P->getLastErrorEst(); if (Q) ee = Q->getLastErrorEst(); }); v.kv("k", k).kv("t", t).kv("v", r).kv("ee", ee).kv("err", er); if (S) v.kv("d1", S->Derivative(t)).kv("d2", S->SecondDerivative(t)); out.ev(v); }
  if (S) { Ds q = queries(R, x, 4, 0.2); for (int i = 0; i + 1 < (int)q.size(); i++) { Ev v("area"); double r = 0; Str er = guarded([&] { r = S->Integrate(q[i], q[i + 1]); }); v.kv("a", q[i]).kv("b", q[i + 1]).kv("v", r).kv("err", er); out.ev(v); } }
}
static void grid(Rng& R) {
  int m = R.range(2, 6), n = R.range(2, 6); Ds x = nodes(R, m), y = nodes(R, n); Dss z(m); double c = R.uni(-2, 2); int kind = R.range(0, 3); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) z[i].push_back(kind == 0 ? R.range(-5, 5) : kind == 1 ? R.uni(-5, 5) : kind == 2 ? c : std::sin(0.9 * i) * std::cos(0.5 * j)); Matrix<Real> Z = mat(z); bool bi = R.chance(1, 2);
  BilinearInterp2D L(vec(x), vec(y), Z); BicubicSplineInterp2D S(vec(x), vec(y), Z); Ev e("grid"); e.kv("k", bi ? "bilinear" : "bicubic").kv("x", x).kv("y", y).kv("z", z).kv("dim", std::vector<int>{bi ? L.getGridDim1() : S.getGridDim1(), bi ? L.getGridDim2() : S.getGridDim2()}); out.ev(e);
  Ds q1 = queries(R, x, 5), q2 = queries(R, y, 5); for (int i = 0; i < 5; i++) { double z0, z1, z2, z3; if (bi) { z0 = L(q1[i], q2[i]); L.interpWithDerivatives(q1[i], q2[i], z1, z2, z3); } else { z0 = S(q1[i], q2[i]); S.interpWithDerivatives(q1[i], q2[i], z1, z2, z3); } Ev v("on"); v.kv("s", q1[i]).kv("t", q2[i]).kv("v", z0).kv("w", z1).kv("d1", z2).kv("d2", z3); out.ev(v); } }
template <int N> static void curve(Rng& R) {
  int n = R.range(2, 7); Dss p; bool close = R.chance(1, 2), line = R.chance(1, 2); if (!line && close) n = std::max(n, 3); for (int i = 0; i < n; i++) { Ds v; for (int j = 0; j < N; j++) v.push_back(R.chance(1, 2) ? R.range(-3, 3) : R.uni(-3, 3)); if (i && R.chance(1, 8) && line) v = p[i - 1]; if ((i && v == p[i - 1] && !line) || (!line && i == n - 1 && v == p[0])) { v[0] += 1; } p.push_back(v); }
  Matrix<Real> M = mat(p); double lo = 0, hi = 1; if (!line && R.chance(1, 2)) { lo = R.range(-3, 3) * 0.5; hi = lo + R.range(1, 7); } Ds ts; for (int i = 0; i < 7; i++) ts.push_back(R.chance(1, 5) ? lo : R.chance(1, 5) ? hi : R.chance(1, 4) && !(close && !line) ? R.uni(lo - 0.6 * (hi - lo), hi + 0.6 * (hi - lo)) : R.uni(lo, hi));
  { double s = 0; Ds a{0}; for (int i = 1; i < n + (close ? 1 : 0); i++) { double d = 0; for (int j = 0; j < N; j++) d += (p[i % n][j] - p[i - 1][j]) * (p[i % n][j] - p[i - 1][j]); a.push_back(s += std::sqrt(d)); } if (s > 0) { ts.push_back(lo + (hi - lo) * (a[R.range(0, (int)a.size() - 1)] / s)); ts.push_back(lo + (hi - lo) * (a[R.range(0, (int)a.size() - 1)] / s)); } }
  auto run = [&](auto& c) { Ev e("curve"); e.kv("k", line ? "line" : "spline").kv("p", p).kv("close", close).kv("lo", lo).kv("hi", hi).kv("min", c.getMinT()).kv("max", c.getMaxT()).kv("err", ""); out.ev(e); for (double t : ts) { if (!line && close && (t < lo || t > hi)) continue; Ev v("point"); VectorN<Real, N> r; out.at("point " + hex(t)); Str er = guarded([&] { r = c(t); }); Ds d; for (int j = 0; j < N; j++) d.push_back(r[j]); v.kv("t", t).kv("v", d).kv("err", er); out.ev(v); } };
  if (line) { LinInterpParametricCurve<N> c(M, close); run(c); } else { std::unique_ptr<SplineInterpParametricCurve<N>> c; Str err = guarded([&] { if (lo == 0 && hi == 1) c.reset(new SplineInterpParametricCurve<N>(M, close)); else c.reset(new SplineInterpParametricCurve<N>(lo, hi, M, close)); }); if (c) run(*c); else { Ev e("refused"); e.kv("p", p).kv("close", close).kv("err", err); out.ev(e); } }
}
static void refuse(Rng& R) {
  Ds x = nodes(R, R.range(2, 5)), y = values(R, (int)x.size()); int n = (int)x.size(); Ds x2 = x; int i = R.range(0, n - 1), j = R.range(0, n - 1); if (i != j) x2[i] = x2[j]; int m = R.range(0, n + 2);
  Ev e("bad"); e.kv("n", n).kv("m", m).kv("dup", i != j).kv("poly", guarded([&] { PolynomInterpRealFunc f(vec(x), vec(y), m); })).kv("rat", guarded([&] { RationalInterpRealFunc f(vec(x), vec(y), m); })).kv("bary", guarded([&] { BarycentricRationalInterp f(vec(x), vec(y), m - 1); })).kv("lin", guarded([&] { LinearInterpRealFunc f(vec(x2), vec(y)); })).kv("spl", guarded([&] { SplineInterpRealFunc f(vec(x2), vec(y)); }));
  Matrix<Real> z(n, n + 1); e.kv("bi", guarded([&] { BilinearInterp2D f(vec(x), vec(x), z); })).kv("bc", guarded([&] { BicubicSplineInterp2D f(vec(x), vec(x), z); })); out.ev(e); }
int main(int ac, char** av) {
  Args a = args(ac, av); out.open(a.out.c_str()); Rng R(a.seed); int n = a.thorough() ? 6000 : 400;
  for (int i = 0; i < n; i++) { out.begin("i" + std::to_string(i)); real1(R); out.end(); if (i % 3 == 0) { out.begin("g" + std::to_string(i)); grid(R); out.end(); out.begin("c" + std::to_string(i)); if (R.chance(1, 2)) curve<2>(R); else curve<3>(R); out.end(); } if (i % 8 == 0) { out.begin("b" + std::to_string(i)); refuse(R); out.end(); } }
  out.close(); return 0;
}
