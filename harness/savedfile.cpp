// C15: every save of an object for the visualisers: the arguments, the result and the file written
#include "expr.h"
#include "tools/Serializer.h"
#include <sstream>
#include <filesystem>
#include <unistd.h>
using namespace MML; using namespace vp;
static Out out;
typedef std::string Str; typedef std::vector<double> Ds; typedef std::vector<Str> Ss;
struct RF : IRealFunction { E e; RF(E x) : e(x) {} Real operator()(Real x) const override { return e(x); } };
template <int N> struct CF : IRealToVectorFunction<N> { std::vector<E> e; VectorN<Real, N> operator()(Real x) const override { VectorN<Real, N> r; for (int i = 0; i < N; i++) r[i] = e[i](x); return r; } };
template <int N> struct SF : IScalarFunction<N> { E e; Real operator()(const VectorN<Real, N>& x) const override { double y[N]; for (int i = 0; i < N; i++) y[i] = x[i]; return e.eval<double>(y); } };
template <int N> struct VF : IVectorFunction<N> { std::vector<E> e; VectorN<Real, N> operator()(const VectorN<Real, N>& x) const override { double y[N]; for (int i = 0; i < N; i++) y[i] = x[i]; VectorN<Real, N> r; for (int i = 0; i < N; i++) r[i] = e[i].eval<double>(y); return r; } };
struct PS : IParametricSurface<3> { std::vector<E> e; VectorN<Real, 3> operator()(Real u, Real w) const override { double y[2] = {u, w}; VectorN<Real, 3> r; for (int i = 0; i < 3; i++) r[i] = e[i].eval<double>(y); return r; } Real getMinU() const override { return 0; } Real getMaxU() const override { return 1; } Real getMinW(Real) const override { return 0; } Real getMaxW(Real) const override { return 1; } };
struct PR : IParametricSurfaceRect<3> { std::vector<E> e; double a[4]; VectorN<Real, 3> operator()(Real u, Real w) const override { double y[2] = {u, w}; VectorN<Real, 3> r; for (int i = 0; i < 3; i++) r[i] = e[i].eval<double>(y); return r; } Real getMinU() const override { return a[0]; } Real getMaxU() const override { return a[1]; } Real getMinW() const override { return a[2]; } Real getMaxW() const override { return a[3]; } };
struct Dom { double a[4]; Real xMin() const { return a[0]; } Real xMax() const { return a[1]; } Real yMin() const { return a[2]; } Real yMax() const { return a[3]; } };
struct Grd { Dom d; int n, m; const Dom& domain() const { return d; } int numNodesX() const { return n; } int numNodesY() const { return m; } Real x(int i) const { return d.a[0] + (d.a[1] - d.a[0]) * i / (n - 1); } Real y(int j) const { return d.a[2] + (d.a[3] - d.a[2]) * j / (m - 1); } };
struct GF { Grd g; E e; const Grd& grid() const { return g; } Real operator()(int i, int j) const { double y[2] = {g.x(i), g.y(j)}; return e.eval<double>(y); } };
static Str lst(const Ss& v) { Str s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i]; return s + "]"; }
static Str toks(const Str& line) { std::stringstream s(line); Str t; Ss v; while (s >> t) v.push_back(js(t)); return lst(v); }
static Str lines(const Str& txt) { std::stringstream s(txt); Str t; Ss v; while (std::getline(s, t)) v.push_back(toks(t)); return lst(v); }
static Str err(const SerializeResult& r) { Str e = r.error == SerializeError::OK ? "" : r.error == SerializeError::FILE_NOT_OPENED ? "OPEN" : r.error == SerializeError::INVALID_PARAMETERS ? "PARAM" : "WRITE"; return r.success == e.empty() ? e : "inconsistent"; }
static E lin(Rng& R, int nv, int deg) { E e = C(R.range(-5, 5)); for (int k = 1; k <= nv; k++) { e = e + C(R.range(-4, 4)) * X(k); if (deg > 1 && R.chance(1, 2)) e = e + C(R.range(-2, 2) / 2.0) * X(k) * X(R.range(1, nv)); } if (deg > 2 && R.chance(1, 4)) e = e * fsin(X(1)); if (deg > 2 && R.chance(1, 6)) e = fatan(e); return e; }
static std::vector<E> many(Rng& R, int n, int nv) { std::vector<E> v; for (int i = 0; i < n; i++) v.push_back(lin(R, nv, 3)); return v; }
static Str g_dir; static int g_n = 0;
static Ss words(Rng& R, int lo) { Ss v; int n = R.range(lo, 3); for (int i = 0; i < n; i++) v.push_back(R.pick(Ss{"plot", "of", "f(x)", "#1", "-5", "E=mc^2", "x1:"})); return v; }
static Str join(const Ss& v) { Str s; for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + v[i]; return s; }
struct Job { Str kind; Ev c{"c"}; std::function<SerializeResult(const Str&)> file; std::function<SerializeResult(std::ostream&)> stream; bool nonempty = true; };
static void run(Rng& R, Job& j) {
  Str where = R.chance(1, 12) ? "nodir" : R.chance(1, 12) ? "full" : R.chance(1, 20) ? "noname" : j.stream && R.chance(1, 4) ? R.pick(Ss{"stream", "stream", "broken"}) : Str("ok");
  Str path = g_dir + "/f" + std::to_string(g_n++), txt; SerializeResult r; Str th = guarded([&] {
    if (where == "stream" || where == "broken") { std::ostringstream o; if (where == "broken") o.setstate(std::ios::badbit); r = j.stream(o); txt = o.str(); }
    else r = j.file(where == "nodir" ? g_dir + "/none/f" : where == "full" ? Str("/dev/full") : where == "noname" ? Str("") : path); });
  if (where == "ok") { std::ifstream f(path); std::stringstream b; b << f.rdbuf(); txt = b.str(); std::filesystem::remove(path); }
  Str cs = j.c.str(); out.ev(Ev("save").kv("k", j.kind).kv("where", where).kv("throw", th).kv("err", err(r)).kv("c", Raw{cs}).kv("nl", txt.empty() || txt.back() == '\n').kv("lines", Raw{where == "ok" || where == "stream" ? lines(txt) : Str("[]")})); }
static double rnd(Rng& R) { return R.chance(1, 3) ? R.range(-10, 10) : R.chance(1, 8) ? R.uni(-1, 1) * 1e4 : R.uni(-5, 5); }
static void rangeOf(Rng& R, double& a, double& b) { a = rnd(R); b = a + (R.chance(1, 3) ? R.range(1, 8) : R.uni(0.01, 10)); if (R.chance(1, 14)) b = a; else if (R.chance(1, 14)) std::swap(a, b); else if (R.chance(1, 20)) a = NAN; else if (R.chance(1, 20)) b = NAN; }
static int cnt(Rng& R, int hi) { return R.chance(1, 14) ? R.range(-1, 1) : R.range(2, hi); }
static Vector<Real> vec(const Ds& d) { Vector<Real> v(d.size()); for (size_t i = 0; i < d.size(); i++) v[i] = d[i]; return v; }
static Ds pts(Rng& R, int lo, int hi) { int n = R.range(lo, hi); Ds d; double x = rnd(R); for (int i = 0; i < n; i++) { d.push_back(x); x += R.uni(0.01, 2); } return d; }
template <int N> static std::vector<VectorN<Real, N>> vals(Rng& R, int n, Str& j) { std::vector<VectorN<Real, N>> v; Ss js_; for (int i = 0; i < n; i++) { VectorN<Real, N> p; Ds d; for (int k = 0; k < N; k++) { p[k] = rnd(R); d.push_back(p[k]); } v.push_back(p); js_.push_back(js(d)); } j = lst(js_); return v; }
template <int N> static void curve(Rng& R, int which) {
  Job j; Ss t = words(R, 0); Str T = join(t), ty = R.pick(Ss{"PARAMETRIC_CURVE_CARTESIAN_" + std::to_string(N) + "D", "MY_CURVE"}); CF<N> f; f.e = many(R, N, 1); double a, b; rangeOf(R, a, b); int n = cnt(R, 40);
  if (which == 0) { if (R.chance(1, 2)) ty = "PARAMETRIC_CURVE_CARTESIAN_" + std::to_string(N) + "D"; bool res = ty[0] == 'P' && (N == 2 || N == 3); j.kind = "curve"; j.c.kv("title", t).kv("type", ty).kv("fs", f.e).kv("a", Ds{a}).kv("b", Ds{b}).kv("n", std::vector<int>{n});
    j.file = [=, &R](const Str& p) { if constexpr (N == 2) { if (res) return Serializer::SaveParamCurveCartesian2DResult(f, T, a, b, n, p); } if constexpr (N == 3) { if (res) return Serializer::SaveParamCurveCartesian3DResult(f, T, a, b, n, p); } return Serializer::SaveParamCurve<N>(f, ty, T, a, b, n, p); }; }
  else if (which == 1) { Ds x = pts(R, R.chance(1, 8) ? 0 : 2, 20); j.kind = "curvepts"; j.c.kv("title", t).kv("type", ty).kv("fs", f.e).kv("x", x); j.file = [=](const Str& p) { return Serializer::SaveParamCurve<N>(f, ty, T, vec(x), p); }; }
  else { Str vj; int m = (which == 2 ? std::max(n, 0) : R.range(0, 15)); int len = R.chance(1, 8) ? std::max(0, m - 1) : m + R.range(0, 2); auto v = vals<N>(R, len, vj); if (which == 2) { j.kind = "vals"; j.c.kv("title", t).kv("type", ty).kv("a", Ds{a}).kv("b", Ds{b}).kv("n", std::vector<int>{n}).kv("v", Raw{vj}); j.file = [=](const Str& p) { return Serializer::SaveAsParamCurve<N>(v, ty, T, a, b, n, p); }; }
    else { Ds x = pts(R, m, m); j.kind = "valspts"; j.c.kv("title", t).kv("type", ty).kv("x", x).kv("v", Raw{vj}); j.file = [=](const Str& p) { return Serializer::SaveAsParamCurve<N>(v, ty, T, vec(x), p); }; } }
  run(R, j); }
template <int N> static void vfield(Rng& R) {
  Job j; Ss t = words(R, 0); Str T = join(t); VF<N> f; f.e = many(R, N, N); for (auto& e : f.e) e = lin(R, N, 1); Ds a(N), b(N); std::vector<int> n(N); for (int k = 0; k < N; k++) { rangeOf(R, a[k], b[k]); n[k] = cnt(R, N == 2 ? 6 : 4); }
  double thr = R.chance(1, 10) ? R.pick(Ds{0, -1, NAN}) : R.uni(1, 40); bool th = R.chance(1, 2); int w = R.range(0, 2); Str ty = w == 0 ? Str("MY_FIELD") : N == 3 && w == 1 ? Str("VECTOR_FIELD_SPHERICAL") : "VECTOR_FIELD_" + std::to_string(N) + "D_CARTESIAN";
  j.kind = N == 2 ? "vf2" : "vf3"; j.c.kv("title", t).kv("type", ty).kv("fs", f.e).kv("a", a).kv("b", b).kv("n", n); if (th) j.c.kv("thr", thr); else j.c.kv("thr", Str("none"));
  j.file = [=](const Str& p) { using namespace Serializer; if constexpr (N == 2) { if (w == 0) return th ? SaveVectorFunc2D(f, ty, T, a[0], b[0], n[0], a[1], b[1], n[1], p, thr) : SaveVectorFunc2D(f, ty, T, a[0], b[0], n[0], a[1], b[1], n[1], p); return th ? SaveVectorFunc2DCartesian(f, T, a[0], b[0], n[0], a[1], b[1], n[1], p, thr) : SaveVectorFunc2DCartesian(f, T, a[0], b[0], n[0], a[1], b[1], n[1], p); }
    else { if (w == 0) return th ? SaveVectorFunc3D(f, ty, T, a[0], b[0], n[0], a[1], b[1], n[1], a[2], b[2], n[2], p, thr) : SaveVectorFunc3D(f, ty, T, a[0], b[0], n[0], a[1], b[1], n[1], a[2], b[2], n[2], p);
      if (w == 1) return th ? SaveVectorFuncSpherical(f, T, a[0], b[0], n[0], a[1], b[1], n[1], a[2], b[2], n[2], p, thr) : SaveVectorFuncSpherical(f, T, a[0], b[0], n[0], a[1], b[1], n[1], a[2], b[2], n[2], p);
      return th ? SaveVectorFunc3DCartesian(f, T, a[0], b[0], n[0], a[1], b[1], n[1], a[2], b[2], n[2], p, thr) : SaveVectorFunc3DCartesian(f, T, a[0], b[0], n[0], a[1], b[1], n[1], a[2], b[2], n[2], p); } };
  run(R, j); }
template <int D> static void sim(Rng& R) {
  typedef typename std::conditional<D == 2, Pnt2Cart, Pnt3Cart>::type P; Job j; j.kind = "sim"; int nb = R.chance(1, 15) ? 0 : R.range(1, 4), ns = R.chance(1, 10) ? 0 : R.range(1, 20), ev = R.chance(1, 12) ? 0 : R.pick(std::vector<int>{1, 1, 2, 3, 4, 7, 25}); double dt = R.chance(1, 15) ? 0 : R.pick(Ds{0.1, 0.5, 1, 0.003}); Ds dims; for (int k = 0; k < D; k++) dims.push_back(R.chance(1, 20) ? 0 : R.uni(1, 1000));
  std::vector<std::vector<P>> pos; Ss pj, col, bw; Ds rad; int len = nb + (R.chance(1, 15) ? 1 : 0); for (int b = 0; b < len; b++) { std::vector<P> v; Ss vj; int m = ns + (b > 0 && R.chance(1, 12) ? R.pick(std::vector<int>{-1, 1}) : 0); for (int i = 0; i < m; i++) { Ds d; for (int k = 0; k < D; k++) d.push_back(rnd(R)); if constexpr (D == 2) v.push_back(P(d[0], d[1])); else v.push_back(P(d[0], d[1], d[2])); vj.push_back(js(d)); } pos.push_back(v); pj.push_back(lst(vj)); }
  for (int b = 0; b < nb; b++) { col.push_back(R.pick(Ss{"Red", "Blue", "#00ff00"})); rad.push_back(R.uni(0.1, 5)); bw.push_back("Ball_" + std::to_string(b + 1)); } if (R.chance(1, 20)) col.push_back("Red"); if (R.chance(1, 20)) rad.push_back(1);
  j.c.kv("balls", nb).kv("dt", dt).kv("every", ev).kv("dims", dims).kv("pos", Raw{lst(pj)}).kv("colors", col).kv("radii", rad).kv("ballw", bw);
  j.file = [=](const Str& p) { if constexpr (D == 2) return Serializer::SaveParticleSimulation2D(p, nb, dims[0], dims[1], pos, col, rad, dt, ev); else return Serializer::SaveParticleSimulation3D(p, nb, dims[0], dims[1], dims[2], pos, col, rad, dt, ev); };
  run(R, j); }
template <int D> static void flines(Rng& R) {
  Job j; j.kind = "lines"; Ss t = words(R, 0); Str T = join(t); int n = R.chance(1, 10) ? 0 : R.range(1, 4); bool st = R.chance(1, 2); std::vector<FieldLine<D>> fl; std::vector<std::vector<VectorN<Real, D>>> vl; Ss lj; for (int i = 0; i < n; i++) { Str vj; auto v = vals<D>(R, R.range(0, 6), vj); lj.push_back(vj); vl.push_back(v); FieldLine<D> f; f.points = v; fl.push_back(f); }
  j.c.kv("d", D).kv("title", t).kv("ls", Raw{lst(lj)}); j.file = [=](const Str& p) { if constexpr (D == 2) return st ? Serializer::SaveFieldLines2D(fl, T, p) : Serializer::SaveFieldLines2D(vl, T, p); else return st ? Serializer::SaveFieldLines3D(fl, T, p) : Serializer::SaveFieldLines3D(vl, T, p); };
  run(R, j); }
static void ode(Rng& R) {
  Job j; Ss t = words(R, 0); Str T = join(t); int dim = R.range(1, 4), ns = R.range(2, 15), cap = R.pick(std::vector<int>{0, 1, 5, 20, 1000}); double a, b; do rangeOf(R, a, b); while (!(a < b)); ODESystemSolution sol(a, b, dim, cap); Ds ts; std::vector<Ds> xs(dim);
  for (int i = 0; i < ns; i++) { double tt = i == 0 ? a : i == ns - 1 ? b : a + (b - a) * (i + R.uni(-0.3, 0.3)) / (ns - 1); ts.push_back(tt); Vector<Real> y(dim); for (int k = 0; k < dim; k++) { y[k] = rnd(R); xs[k].push_back(y[k]); } if (R.chance(1, 2)) sol.fillValues(i, tt, y); else { sol.setTVal(i, tt); for (int k = 0; k < dim; k++) sol.setXVal(i, k, y[k]); } }
  if (R.chance(1, 2)) sol.setFinalSize(ns - 1); Ss xj; for (auto& x : xs) xj.push_back(js(x)); int w = R.range(0, 3); j.c.kv("title", t).kv("ts", ts).kv("xs", Raw{lst(xj)}).kv("a", Ds{a}).kv("b", Ds{b});
  auto ix = [&] { return R.chance(1, 10) ? R.pick(std::vector<int>{-1, dim}) : R.range(0, dim - 1); }; int i1 = ix(), i2 = ix(), i3 = ix();
  if (w == 0) { j.kind = "odef"; j.c.kv("ind", std::vector<int>{i1}); j.file = [=](const Str& p) { return Serializer::SaveODESolutionComponentAsFunc(sol, i1, T, p); }; }
  if (w == 1) { j.kind = "odem"; int nl = dim + (R.chance(1, 8) ? R.pick(std::vector<int>{-1, 1}) : 0); Ss L; Ss lj; for (int k = 0; k < nl; k++) { Ss q = words(R, 1); L.push_back(join(q)); lj.push_back(js(q)); } j.c.kv("legend", Raw{lst(lj)}); j.file = [=](const Str& p) { return Serializer::SaveODESolutionAsMultiFunc(sol, T, L, p); }; }
  if (w == 2) { j.kind = "ode2"; j.c.kv("ind", std::vector<int>{i1, i2}); j.file = [=](const Str& p) { return Serializer::SaveODESolAsParametricCurve2D(sol, p, i1, i2, T); }; }
  if (w == 3) { j.kind = "ode3"; j.c.kv("ind", std::vector<int>{i1, i2, i3}); j.file = [=](const Str& p) { return Serializer::SaveODESolAsParametricCurve3D(sol, p, i1, i2, i3, T); }; }
  run(R, j); }
static void realf(Rng& R, int which) {
  Job j; Ss t = words(R, 0); Str T = join(t); double a, b; rangeOf(R, a, b); int n = cnt(R, R.chance(1, 6) ? 120 : 30), p = R.chance(1, 2) ? 15 : R.range(2, 16); bool def = R.chance(1, 3); if (def) p = 15;
  if (which < 2) { RF f(lin(R, 1, 3)); j.kind = which ? "eq" : "real"; j.c.kv("title", t).kv("fs", std::vector<E>{f.e}).kv("a", Ds{a}).kv("b", Ds{b}).kv("n", std::vector<int>{n}).kv("p", p);
    j.file = [=](const Str& q) { using namespace Serializer; return which ? (def ? SaveRealFuncEquallySpaced(f, T, a, b, n, q) : SaveRealFuncEquallySpaced(f, T, a, b, n, q, p)) : (def ? SaveRealFunc(f, T, a, b, n, q) : SaveRealFunc(f, T, a, b, n, q, p)); };
    j.stream = [=](std::ostream& o) { return which ? Serializer::SaveRealFuncEquallySpaced(o, f, T, a, b, n, p) : Serializer::SaveRealFunc(o, f, T, a, b, n, p); }; }
  else if (which == 2) { RF f(lin(R, 1, 3)); Ds x = pts(R, R.chance(1, 8) ? 0 : 2, 20); j.kind = "realpts"; j.c.kv("title", t).kv("fs", std::vector<E>{f.e}).kv("x", x).kv("p", p); j.file = [=](const Str& q) { return Serializer::SaveRealFunc(f, T, vec(x), q, p); }; j.stream = [=](std::ostream& o) { return Serializer::SaveRealFunc(o, f, T, vec(x), p); }; }
  else { int m = R.chance(1, 12) ? 0 : R.range(1, 4); bool interp = which == 4; std::vector<E> fs = many(R, m, 1); int nl = m + (R.chance(1, 10) ? 1 : 0); Ss L, lj; for (int k = 0; k < nl; k++) { Ss q = words(R, 1); L.push_back(join(q)); lj.push_back(js(q)); }
    j.kind = "multi"; if (interp) { p = 6; for (auto& e : fs) e = C(R.range(-5, 5)) + C(R.range(-4, 4)) * X(1); }
    j.c.kv("title", t).kv("legend", Raw{lst(lj)}).kv("fs", fs).kv("a", Ds{a}).kv("b", Ds{b}).kv("n", std::vector<int>{n}).kv("p", p);
    if (!interp) { auto own = std::make_shared<std::vector<RF>>(); for (auto& e : fs) own->push_back(RF(e)); auto ptrs = [own] { std::vector<IRealFunction*> v; for (auto& f : *own) v.push_back(&f); return v; }; j.file = [=](const Str& q) { return Serializer::SaveRealMultiFunc(ptrs(), T, L, a, b, n, q, p); }; j.stream = [=](std::ostream& o) { return Serializer::SaveRealMultiFunc(o, ptrs(), T, L, a, b, n, p); }; }
    else { double lo = std::isfinite(a) ? a : 0, hi = std::isfinite(b) ? b : 1; if (lo >= hi) { lo -= 1; hi = lo + 5; } Vector<Real> x(5); for (int i = 0; i < 5; i++) x[i] = i == 4 ? hi : lo + (hi - lo) * i / 4; int w = R.range(0, 2);
      j.file = [=](const Str& q) { std::vector<LinearInterpRealFunc> l; std::vector<PolynomInterpRealFunc> po; std::vector<SplineInterpRealFunc> sp; for (auto& e : fs) { Vector<Real> y(5); for (int i = 0; i < 5; i++) y[i] = e((double)x[i]); if (w == 0) l.emplace_back(x, y); else if (w == 1) po.emplace_back(x, y, 3); else sp.emplace_back(x, y); } return w == 0 ? Serializer::SaveRealMultiFunc(l, T, L, a, b, n, q) : w == 1 ? Serializer::SaveRealMultiFunc(po, T, L, a, b, n, q) : Serializer::SaveRealMultiFunc(sp, T, L, a, b, n, q); }; } }
  run(R, j); }
static void surf(Rng& R, int which) {
  Job j; Ss t = words(R, 0); Str T = join(t); int d = which == 4 ? 3 : 2; Ds a(d), b(d); std::vector<int> n(d); for (int k = 0; k < d; k++) { do rangeOf(R, a[k], b[k]); while (which == 3 && !(a[k] < b[k])); n[k] = which == 3 ? R.range(2, 7) : cnt(R, d == 2 ? 7 : 4); }
  if (which < 2) { std::vector<E> fs = many(R, 3, 2); j.kind = "surf"; j.c.kv("fs", fs); PS s; s.e = fs; PR r; r.e = fs; r.a[0] = a[0]; r.a[1] = b[0]; r.a[2] = a[1]; r.a[3] = b[1]; int w = R.range(0, 2);
    j.file = [=](const Str& p) { return w == 0 ? Serializer::SaveParametricSurface(s, T, a[0], b[0], n[0], a[1], b[1], n[1], p) : w == 1 ? Serializer::SaveParametricSurface(r, T, n[0], n[1], p) : Serializer::SaveParametricSurface(static_cast<const IVectorFunctionNM<2, 3>&>(r), T, a[0], b[0], n[0], a[1], b[1], n[1], p); }; }
  else if (which == 2) { SF<2> f; f.e = lin(R, 2, 3); j.kind = "sf2"; j.c.kv("fs", std::vector<E>{f.e}); j.file = [=](const Str& p) { return Serializer::SaveScalarFunc2DCartesian(f, T, a[0], b[0], n[0], a[1], b[1], n[1], p); }; }
  else if (which == 4) { SF<3> f; f.e = lin(R, 3, 3); j.kind = "sf3"; j.c.kv("fs", std::vector<E>{f.e}); j.file = [=](const Str& p) { return Serializer::SaveScalarFunc3DCartesian(f, T, a[0], b[0], n[0], a[1], b[1], n[1], a[2], b[2], n[2], p); }; }
  else { double sx = R.pick(Ds{1, 2, 0.5}), sv = R.pick(Ds{1, 4, -0.5}); GF g; for (int k = 0; k < 2; k++) { g.g.d.a[2 * k] = a[k]; g.g.d.a[2 * k + 1] = b[k]; } g.g.n = n[0]; g.g.m = n[1]; g.e = lin(R, 2, 2);
    E f = g.e; std::function<void(E&)> sc = [&](E& e) { if (e.op == "x") { E x = e; e = C(1 / sx) * x; } else for (auto& q : e.a) sc(q); }; sc(f); f = C(sv) * f; j.kind = "grid"; j.c.kv("fs", std::vector<E>{f}); bool def = sx == 1 && sv == 1; j.file = [=](const Str& p) { return def ? Serializer::SaveGridFunction2D(g, T, p) : Serializer::SaveGridFunction2D(g, T, p, sx, sv); }; for (int k = 0; k < 2; k++) { a[k] *= sx; b[k] *= sx; } }
  j.c.kv("title", t).kv("a", a).kv("b", b).kv("n", n); run(R, j); }
int main(int c, char** v) {
  Args a = args(c, v); Rng R(a.seed); out.open(a.out.c_str()); int N = a.thorough() ? 250 : 26;
  g_dir = (std::filesystem::temp_directory_path() / ("vp_sf_" + std::to_string(getpid()))).string(); std::filesystem::create_directories(g_dir);
  for (int i = 0; i < N; i++) { auto one = [&](const Str& id, std::function<void()> f) { out.begin(id + std::to_string(i)); f(); out.end(); };
    one("r", [&] { for (int w = 0; w < 5; w++) realf(R, w); }); one("c", [&] { curve<2>(R, i % 4); curve<3>(R, (i + 1) % 4); curve<1>(R, i % 4); curve<4>(R, (i + 2) % 4);
      Job j; Ss t = words(R, 0); Str T = join(t); double lo, hi; rangeOf(R, lo, hi); Ds x, y; int n = R.range(0, 20); for (int k = 0; k < n; k++) { x.push_back(rnd(R)); y.push_back(rnd(R)); } if (R.chance(1, 10)) y.push_back(0); bool def = R.chance(1, 4); if (def) { lo = 0; hi = 1; } j.kind = "xy"; j.c.kv("title", t).kv("x", x).kv("y", y).kv("a", Ds{lo}).kv("b", Ds{hi}); j.file = [=](const Str& p) { return def ? Serializer::SaveAsParamCurve2D(vec(x), vec(y), T, p) : Serializer::SaveAsParamCurve2D(vec(x), vec(y), T, p, lo, hi); }; run(R, j); });
    one("s", [&] { surf(R, i % 5); surf(R, 3); vfield<2>(R); if (i % 3 == 0) vfield<3>(R); }); one("o", [&] { ode(R); ode(R); ode(R); }); one("p", [&] { sim<2>(R); sim<3>(R); sim<2>(R); flines<2>(R); flines<3>(R); }); }
  std::filesystem::remove_all(g_dir); out.close(); return 0;
}
