// C06: records polynomial operations and polynomial root solvers
#include "vp.h"
#include "mml/base/Polynom.h"
#include "mml/algorithms/RootFinding/RootFindingPolynoms.h"
#include <sstream>
using namespace MML; using namespace vp;
typedef std::string Str; typedef std::vector<double> D;
static Out out; static Polynom<Real> rg[3];
static Str regs() { Str s = "["; for (int i = 0; i < 3; i++) s += (i ? "," : "") + js(D(rg[i].begin(), rg[i].end())); return s + "]"; }
static Ev ev(const Str& op, int t, std::vector<int> x = {}, double c = 0) { Ev e(op); e.kv("t", t).kv("x", x).kv("c", c); return e; }
static void fin(Ev& e, const Str& err) { e.kv("err", err).kv("regs", Raw{regs()}); out.ev(e); }
static bool small(const Polynom<Real>& p) { if (p.degree() > 9) return false; for (double c : p) if (!(std::fabs(c) < 1e12)) return false; return true; }
static void query(Rng& R, int i) {
  auto& p = rg[i - 1]; double x = R.chance(1, 3) ? R.range(-3, 3) : R.uni(-3, 3), eps = R.pick(D{1e-12, 0, 1, 2.5, 0.5}); Vector<Real> pd(R.range(0, p.degree() + 4)); for (int k = 0; k < pd.size(); k++) pd[k] = 77; p.Derive(x, pd);
  D pv, at; for (int k = 0; k < pd.size(); k++) pv.push_back(pd[k]); for (int k = -1; k < p.degree() + 4; k++) at.push_back(p.coeff(k));
  std::vector<bool> eq, ne, et; for (int j = 0; j < 3; j++) { eq.push_back(p == rg[j] && p.IsEqual(rg[j])); ne.push_back(p != rg[j]); et.push_back(p.IsEqualTo(rg[j], eps)); }
  PolynomRealFunc f(p); Ev e("query"); e.kv("i", i).kv("x", x).kv("deg", p.degree()).kv("isnull", p.isNull()).kv("lead", p.leadingTerm()).kv("const", p.constantTerm()).kv("co", D(p.coefficients())).kv("at", at).kv("v", p(x)).kv("v2", p.eval(x)).kv("v3", f(x)).kv("pd", pv).kv("eq", eq).kv("ne", ne).kv("eqt", et).kv("eps", eps); out.ev(e);
}
static void step(Rng& R, const Str& op, const D& a) {
  auto A = [&](size_t i) { return i < a.size() ? (int)a[i] : 1; }; int t = A(0); Polynom<Real>& T = rg[t - 1]; auto g = [&](size_t i) -> Polynom<Real>& { return rg[A(i) - 1]; };
  if (op == "set") { D c(a.begin() + 1, a.end()); int w = R.range(0, 2); T = w ? Polynom<Real>(c) : Polynom<Real>(0); if (!w) { T.SetDegree((int)c.size() - 1); for (size_t i = 0; i < c.size(); i++) T[(int)i] = c[i]; } auto e = ev(op, t); e.kv("v", c); fin(e, ""); return; }
  if (op == "add" || op == "sub" || op == "mul") { Polynom<Real> r; Str er = guarded([&] { r = op == "add" ? g(1) + g(2) : op == "sub" ? g(1) - g(2) : g(1) * g(2); }); if (er.empty() && !small(r)) return; auto e = ev(op, t, {A(1), A(2)}); if (er.empty()) T = r; fin(e, er); return; }
  if (op == "div") { int q = t, rr = A(1); if (q == rr) return; Polynom<Real> sv[3] = {rg[0], rg[1], rg[2]}; Str er = guarded([&] { Polynom<Real>::poldiv(rg[A(2) - 1], rg[A(3) - 1], rg[q - 1], rg[rr - 1]); }); if (er.empty() && !(small(rg[q - 1]) && small(rg[rr - 1]))) { for (int i = 0; i < 3; i++) rg[i] = sv[i]; return; } auto e = ev(op, q, {A(2), A(3)}); e.kv("t2", rr); fin(e, er); return; }
  if (op == "reduce") { T.Reduce(); auto e = ev(op, t); fin(e, ""); return; }
  if (op == "degree") { T.SetDegree(A(1)); auto e = ev(op, t); e.kv("n", A(1)); fin(e, ""); return; }
  if (op == "put") { if (A(1) > T.degree()) return; T[A(1)] = a[2]; auto e = ev(op, t, {}, a[2]); e.kv("n", A(1)); fin(e, ""); return; }
  if (op == "eval") { query(R, t); return; }
  Polynom<Real> r; auto& a1 = g(1); double c = a.size() > 2 ? a[2] : 0;
  Str er = guarded([&] { r = op == "neg" ? -a1 : op == "copy" ? a1 : op == "deriv" ? a1.derivative() : op == "integ" ? a1.integral() : op == "smul" ? a1 * c : op == "lmul" ? c * a1 : op == "sdiv" ? a1 / c : op == "sadd" ? a1 + c : op == "ladd" ? c + a1 : op == "ssub" ? a1 - c : c - a1; });
  if (er.empty() && !small(r)) return; auto e = ev(op, t, {A(1)}, c); if (er.empty()) T = r; fin(e, er);
}
static void begin(const Str& id) { out.begin(id); for (auto& p : rg) p = Polynom<Real>(); Ev e("init"); e.kv("regs", Raw{regs()}); out.ev(e); }
static void run(Rng& R, const Str& line) { std::stringstream ls(line); Str ev; while (std::getline(ls, ev, ';')) { std::stringstream s(ev); Str op; s >> op; D a; double v; while (s >> v) a.push_back(v); step(R, op, a); if (R.chance(1, 4)) query(R, R.range(1, 3)); } }
typedef std::complex<double> C;
static D expand(double a, const std::vector<C>& z) { std::vector<std::complex<long double>> p{1}; for (auto& r : z) { p.push_back(0); for (int i = (int)p.size() - 1; i >= 0; i--) p[i] = (i ? p[i - 1] : std::complex<long double>(0)) - std::complex<long double>(r) * p[i]; } D c; for (auto& x : p) c.push_back((double)(a * x.real())); return c; }
static Str jz(const std::vector<C>& z) { return js(z); }
// a set of roots closed under conjugation; known: number of real roots when they are distinct
static std::vector<C> roots(Rng& R, int n, int& known) {
  std::vector<C> z; known = 0; int st = R.range(0, 6); double sc = st == 5 ? std::pow(10.0, R.range(-9, 9)) : 1; bool dist = true;
  while ((int)z.size() < n) { bool cx = (int)z.size() + 2 <= n && R.chance(2, 5); double x, y;
    if (st == 0 || st == 5) { x = R.range(-6, 6); y = R.range(1, 5); } else if (st == 1) { x = R.uni(-2, 2); y = R.uni(0.1, 2); } else if (st == 2 && !z.empty() && R.chance(2, 3)) { x = z[0].real(); y = z[0].imag() != 0 ? std::fabs(z[0].imag()) : 1; cx = cx && z[0].imag() != 0; } else if (st == 3) { x = R.pick(D{0, 0, 1, -1}); y = 1; } else if (st == 4) { x = R.uni(-1, 1) * std::pow(10.0, R.range(-4, 4)); y = std::fabs(x) * R.uni(0.1, 2) + 1e-5; } else { x = R.uni(-3, 3); y = R.uni(0.2, 3); }
    x *= sc; y *= sc; for (auto& w : z) if (std::abs(w - C(x, cx ? y : 0)) < 0.05 * sc) dist = false; if (cx) { z.push_back(C(x, y)); z.push_back(C(x, -y)); } else { z.push_back(x); known++; } }
  if (!dist || st == 4) known = -1; return z;
}
static void trim(D& c) { while (!c.empty() && c.back() == 0) c.pop_back(); }
static void iter(const D& c, const Str& sv, const std::vector<C>& init, double tol, bool mayfail) {
  // Bairstow stops on an absolute residual: a monomial has no scale to judge that by
  if (sv == "bairstow") { int nz = 0; for (double x : c) nz += x != 0; if (nz < 2) return; }
  out.at(sv); std::vector<C> z; Str er = guarded([&] { PolynomReal p(c); Vector<Complex> v = sv == "laguerre" ? RootFinding::LaguerreRoots(p) : sv == "eigen" ? RootFinding::EigenvalueRoots(p) : RootFinding::BairstowRoots(p, Vector<Complex>(init)); for (int i = 0; i < (int)v.size(); i++) z.push_back(v[i]); });
  Ev e("roots"); e.kv("sv", sv).kv("p", c).kv("z", Raw{jz(z)}).kv("err", er).kv("tol", tol).kv("mayfail", mayfail); out.ev(e);
}
static void solvers(Rng& R, int n) {
  int known; double a = R.pick(D{1, 1, -2, 0.5, 1e-8, 1e7, R.uni(0.5, 3)}); auto z = roots(R, n, known); D c = expand(a, z);
  if (n == 2) { Complex x1, x2; int k = SolveQuadratic(c[2], c[1], c[0], x1, x2); Ev e("quadratic"); e.kv("p", c).kv("n", k).kv("z", Raw{jz({x1, x2})}); out.ev(e); }
  if (n == 3) { Complex x[3]; int k = SolveCubic(c[3], c[2], c[1], c[0], x[0], x[1], x[2]); Ev e("closed"); e.kv("p", c).kv("n", k).kv("known", known).kv("z", Raw{jz({x[0], x[1], x[2]})}).kv("tol", 1e-12); out.ev(e); }
  if (n == 4) { Complex x[4]; SolveQuartic(c[4], c[3], c[2], c[1], c[0], x[0], x[1], x[2], x[3]); Ev e("closed"); e.kv("p", c).kv("n", 0).kv("known", -1).kv("z", Raw{jz({x[0], x[1], x[2], x[3]})}).kv("tol", 1e-11); out.ev(e); }
  D d = c; if (R.chance(1, 5)) d.push_back(0);
  // deflation-based solvers lose digits with the multiplicity of the roots
  int mult = 0; for (auto& v : z) { int k = 0; for (auto& w : z) k += std::abs(v - w) < 0.05 * std::abs(v); mult = std::max(mult, k); } double dt = mult > 2 ? 1e-3 : 1e-6;
  iter(d, "laguerre", {}, dt, true); iter(d, "eigen", {}, mult > 2 ? 1e-7 : 1e-10, true); std::vector<C> in; if (R.chance(1, 2)) in = z; if (!in.empty() && R.chance(1, 2)) for (auto& v : in) v *= 1.05; if (in.size() > 2 && R.chance(1, 2)) in.resize(2); iter(d, "bairstow", in, dt, true);
}
int main(int ac, char** av) {
  Args a = args(ac, av); Rng R(a.seed); out.open(a.out.c_str()); bool th = a.thorough();
  if (!a.script.empty()) { std::ifstream f(a.script); Str line; int k = 0; while (std::getline(f, line)) if (!line.empty()) { begin("spec" + std::to_string(k++)); run(R, line); for (int i = 1; i <= 3; i++) query(R, i); out.end(); } }
  std::vector<Str> ops = {"set", "set", "set", "add", "sub", "mul", "mul", "div", "div", "div", "neg", "deriv", "integ", "copy", "smul", "sdiv", "sadd", "ssub", "rsub", "ladd", "lmul", "reduce", "degree", "put"};
  for (int q = 0; q < (th ? 400 : 50); q++) { begin("h" + std::to_string(q)); for (int s = 0; s < 40; s++) { Str op = R.pick(ops); D v{(double)R.range(1, 3)};
      if (op == "set") { int n = R.range(0, 7), m = R.range(0, 3); for (int i = 0; i < n; i++) v.push_back(m == 0 ? R.range(-4, 4) : m == 1 ? (R.chance(1, 2) ? 0 : R.range(-9, 9)) : R.uni(-5, 5)); if (m == 2 && n > 2) v.push_back(0); }
      else if (op == "degree") v.push_back(R.range(-1, 8)); else if (op == "put") { v.push_back(R.range(0, 5)); v.push_back(R.pick(D{0, 1, -2.5, R.uni(-9, 9)})); }
      else { for (int i = 0; i < 3; i++) v.push_back(R.range(1, 3)); if (op[0] == 's' || op[0] == 'r' || op[0] == 'l') if (op != "sub") v[2] = R.pick(D{0, 1, -1, 3, R.uni(-4, 4), 1e-3}); if (op == "sdiv" && v[2] == 0) v[2] = 7; }
      step(R, op, v); if (R.chance(1, 3)) query(R, R.range(1, 3)); } out.end(); }
  for (int q = 0; q < (th ? 200 : 25); q++) { out.begin("fit" + std::to_string(q)); for (int s = 0; s < 4; s++) { int n = R.range(0, 8), m = R.chance(1, 12) ? n + 1 : n, st = R.range(0, 3); D x, y; for (int i = 0; i < n; i++) x.push_back(st == 0 ? i - n / 2 : st == 1 ? R.uni(-3, 3) : st == 2 ? R.range(-20, 20) : std::cos(3.14159265 * (i + 0.5) / n)); for (int i = 0; i < m; i++) y.push_back(R.chance(1, 6) ? 0 : st % 2 ? R.uni(-5, 5) : R.range(-9, 9)); Polynom<Real> p; Str er = guarded([&] { p = Polynom<Real>::FromValues(x, y); });
      double gap = 1e9; for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < i; j++) if (x[i] != x[j]) gap = std::min(gap, std::fabs(x[i] - x[j])); if (gap < 0.05) continue;
      Ev e("fit"); e.kv("x", x).kv("y", y).kv("err", er).kv("p", D(p.begin(), p.end())).kv("tol", 1e-9); out.ev(e); }
    auto cr = [&](int n) { std::vector<C> v; for (int i = 0; i < n; i++) v.push_back(R.chance(1, 2) ? C(R.range(-4, 4), R.range(-4, 4)) : C(R.uni(-2, 2), R.uni(-2, 2))); return v; };
    { auto p = cr(R.range(0, 6)); C z(R.uni(-2, 2), R.uni(-2, 2)); Ev e("ceval"); e.kv("p", p).kv("z", z).kv("v", PolynomComplex(p)(z)); out.ev(e); D rp; std::vector<C> cp; for (auto& v : p) { rp.push_back(v.real()); cp.push_back(v.real()); } Ev f("ceval"); f.kv("p", cp).kv("z", z).kv("v", PolynomComplexRealCoef(rp)(z)); out.ev(f);
      auto b = cr(R.range(1, 4)); b.back() = C(R.uni(1, 2), R.uni(1, 2)); PolynomComplex P(p), B(b), qt, r; Str er = guarded([&] { PolynomComplex::poldiv(P, B, qt, r); }); PolynomComplex S = P + B, M = P * B; auto v = [](const PolynomComplex& x) { return std::vector<C>(x.begin(), x.end()); }; Ev g("cop"); g.kv("p", p).kv("q", b).kv("sum", v(S)).kv("mul", v(M)).kv("err", er).kv("qt", v(qt)).kv("r", v(r)); out.ev(g); }
    { D p; int n = R.range(0, 5); for (int i = 0; i < n; i++) p.push_back(R.uni(-3, 3)); MatrixNM<Real, 2, 2> A; MatrixNM<Real, 3, 3> B; std::vector<D> ja(2, D(2)), jb(3, D(3)), va = ja, vb = jb; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) A(i, j) = ja[i][j] = R.uni(-2, 2); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) B(i, j) = jb[i][j] = R.range(-2, 2);
      auto x = Matrix2Polynom(p)(A); auto y = Matrix3Polynom(p)(B); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) va[i][j] = x(i, j); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vb[i][j] = y(i, j); Ev e("meval"); e.kv("p", p).kv("A", ja).kv("v", va); out.ev(e); Ev f("meval"); f.kv("p", p).kv("A", jb).kv("v", vb); out.ev(f); }
    out.end(); }
  for (int q = 0; q < (th ? 1500 : 130); q++) { out.begin("roots" + std::to_string(q)); int n = q % 10 < 2 ? 2 : q % 10 < 5 ? 3 : q % 10 < 8 ? 4 : R.range(1, 8); solvers(R, n);
    { std::vector<C> p; for (int i = 0; i < 3; i++) p.push_back(R.chance(1, 3) ? C(R.range(-3, 3), R.range(-3, 3)) : C(R.uni(-2, 2), R.uni(-2, 2))); if (R.chance(1, 6)) p[0] = 0; if (R.chance(1, 6)) p[1] = 0; if (p[2] == C(0) && p[1] == C(0)) p[2] = 1; Complex x1, x2; SolveQuadratic(p[2], p[1], p[0], x1, x2); Ev e("cquad"); e.kv("p", p).kv("z", Raw{jz({x1, x2})}); out.ev(e); }
    { D p; for (int i = 0; i < 3; i++) p.push_back(R.chance(1, 4) ? 0 : R.pick(D{1, -1, 2, 1e-20, 1e-9, 1e8, R.uni(-3, 3), (double)R.range(-9, 9)})); Complex x1, x2; int k = SolveQuadratic(p[2], p[1], p[0], x1, x2); Ev e("quadratic"); e.kv("p", p).kv("n", k).kv("z", Raw{jz({x1, x2})}); out.ev(e); }
    { D p; int n = R.range(3, 4); for (int i = 0; i <= n; i++) p.push_back(R.chance(1, 3) ? 0 : R.pick(D{1, -1, 2, R.uni(-3, 3), (double)R.range(-9, 9), 1e-5, 1e5})); Complex x[4]; int k = 0; if (n == 3) k = SolveCubic(p[3], p[2], p[1], p[0], x[0], x[1], x[2]); else SolveQuartic(p[4], p[3], p[2], p[1], p[0], x[0], x[1], x[2], x[3]); (void)k; std::vector<C> z(x, x + n); Ev e("closed"); e.kv("p", p).kv("n", 0).kv("known", -1).kv("z", Raw{jz(z)}).kv("tol", 1e-11); out.ev(e); }
    out.end(); }
  out.begin("edge"); for (D c : std::vector<D>{{}, {0}, {5}, {0, 0}, {3, 0, 0}, {0, 1}, {0, 0, 1}, {0, 0, 0, 1}, {0, 0, 0, 0, 1}, {1, 0, 0, 0, 1}, {-1, 0, 0, 0, 0, 1}, {1, 2, 0}, {6, -5, 1, 0, 0}}) { iter(c, "laguerre", {}, 1e-6, true); iter(c, "eigen", {}, 1e-10, true); iter(c, "bairstow", {}, 1e-6, true); } out.end();
  out.close(); return 0;
}
