// C34: one linear-system object asked many questions, against a fresh object for each
#include "vp.h"
#include "systems/LinearSystem.h"
using namespace MML; using namespace vp;
typedef std::string Str; typedef Matrix<double> Mt; typedef Vector<double> Vt; typedef Systems::LinearSystem<double> LS;
static Out out;
static Str num(double x) { return std::fabs(x) < 1e9 && x == std::floor(x) ? std::to_string((long)x) : js(x); }
static Str jv(const Vt& v) { Str s = "["; for (int i = 0; i < (int)v.size(); i++) s += (i ? "," : "") + num(v[i]); return s + "]"; }
static Str jm(const Mt& m) { Str s = "["; for (int i = 0; i < m.rows(); i++) { s += i ? ",[" : "["; for (int j = 0; j < m.cols(); j++) s += (j ? "," : "") + num(m(i, j)); s += "]"; } return s + "]"; }
struct S { Mt A; Vt b; Mt B; int kind = 1; LS make() const { return kind == 0 ? LS(A) : kind == 1 ? LS(A, b) : LS(A, B); } };   // kind: 0 no right-hand side, 1 one, 2 several
struct Q { Str q; double t = -1; Vt x; int m = 0; };
static Str f(const char* k, const Str& v) { return Str(",\"") + k + "\":" + v; }
static Str f(const char* k, double v) { return f(k, num(v)); } static Str f(const char* k, bool v) { return f(k, Str(v ? "true" : "false")); } static Str f(const char* k, int v) { return f(k, std::to_string(v)); }
static Str q_(const Str& s) { return "\"" + s + "\""; }
static Str vec(const Vt& x) { return f("x", jv(x)); }
static Str stab(Systems::MatrixStability s) { return q_(s == Systems::MatrixStability::WellConditioned ? "Well" : s == Systems::MatrixStability::ModeratelyConditioned ? "Moderate" : s == Systems::MatrixStability::IllConditioned ? "Ill" : "Singular"); }
static Str ver(const Systems::VerificationResult<double>& v) { return f("abs", v.absoluteResidual) + f("rel", v.relativeResidual) + f("back", v.backwardError) + f("fwd", v.estimatedForwardError) + f("acc", v.isAccurate); }
static Str ask(const LS& o, const Q& q, Str& err) { Str r; const Str& k = q.q; double t = q.t; bool d = t < 0;
  err = guarded([&] {
    if (k == "solve") r = vec(o.Solve()); else if (k == "gj") r = vec(o.SolveByGaussJordan()); else if (k == "lu") r = vec(o.SolveByLU()); else if (k == "chol") r = vec(o.SolveByCholesky()); else if (k == "qr") r = vec(o.SolveByQR()); else if (k == "svd") r = vec(o.SolveBySVD()); else if (k == "lsq") r = vec(o.SolveLeastSquares());
    else if (k == "iter") r = vec(o.SolveIterative((Systems::IterativeMethod)q.m, 1e-10, 5000)); else if (k == "multi") r = f("X", jm(o.SolveMultiple()));
    else if (k == "res") r = f("abs", o.ResidualNorm(q.x)) + f("rel", o.RelativeResidual(q.x)); else if (k == "verify") r = ver(d ? o.Verify(q.x) : o.Verify(q.x, t));
    else if (k == "sym") r = f("r", d ? o.isSymmetric() : o.isSymmetric(t)); else if (k == "pd") r = f("r", d ? o.isPositiveDefinite() : o.isPositiveDefinite(t)); else if (k == "upper") r = f("r", d ? o.isUpperTriangular() : o.isUpperTriangular(t)); else if (k == "lower") r = f("r", d ? o.isLowerTriangular() : o.isLowerTriangular(t)); else if (k == "diag") r = f("r", d ? o.isDiagonal() : o.isDiagonal(t));
    else if (k == "dom") r = f("r", o.isDiagonallyDominant()); else if (k == "sparse") r = f("r", d ? o.Sparsity() : o.Sparsity(t)); else if (k == "det") r = f("r", o.Determinant()); else if (k == "rank") r = f("r", d ? o.Rank() : o.Rank(t)) + f("n", d ? o.Nullity() : o.Nullity(t));
    else if (k == "cond") r = f("r", o.ConditionNumber()) + f("st", stab(o.AssessStability())) + f("dig", o.ExpectedDigitsLost()) + f("c1", o.ConditionNumber1()) + f("ci", o.ConditionNumberInf());
    else if (k == "getlu") { auto g = o.GetLU(); r = f("ok", g.valid); if (g.valid) { Str p = "["; for (size_t i = 0; i < g.permutation.size(); i++) p += (i ? "," : "") + std::to_string(g.permutation[i] + 1); r += f("L", jm(g.L)) + f("U", jm(g.U)) + f("p", p + "]") + f("det", g.determinant); } }
    else if (k == "getqr") { auto g = o.GetQR(); r = f("ok", g.valid); if (g.valid) r += f("Q", jm(g.Q)) + f("R", jm(g.R)); }
    else if (k == "getsvd") { auto g = o.GetSVD(); r = f("ok", g.valid); if (g.valid) r += f("U", jm(g.U)) + f("V", jm(g.V)) + f("w", jv(g.singularValues)) + f("rank", g.rank); }
    else if (k == "getchol") { auto g = o.GetCholesky(); r = f("ok", g.valid); if (g.valid) r += f("L", jm(g.L)); }
    else if (k == "null") { Mt N = d ? o.NullSpace() : o.NullSpace(t); r = f("N", jm(N)) + f("nc", N.cols()); } else if (k == "cols") { Mt N = d ? o.ColumnSpace() : o.ColumnSpace(t); r = f("N", jm(N)) + f("nc", N.cols()); }
    else if (k == "inv") r = f("X", jm(o.Inverse())); else if (k == "pinv") r = f("X", jm(o.PseudoInverse()));
    else if (k == "eig") { auto g = o.GetEigen(); Str z = "["; for (size_t i = 0; i < g.eigenvalues.size(); i++) z += Str(i ? "," : "") + "[" + num(g.eigenvalues[i].real) + "," + num(g.eigenvalues[i].imag) + "]"; r = f("conv", g.converged) + f("z", z + "]") + f("re", jv(o.Eigenvalues())) + f("rad", o.SpectralRadius()) + f("cx", o.HasComplexEigenvalues()); }
    else if (k == "eigs") r = f("w", jv(o.EigenvaluesSymmetric()));
    else if (k == "shape") r = f("r", o.rows()) + f("c", o.cols()) + f("sq", o.isSquare()) + f("over", o.isOverdetermined()) + f("under", o.isUnderdetermined()) + f("M", jm(o.GetMatrix()));
    else if (k == "analyze") { auto a = o.Analyze(); r = f("r", a.rows) + f("c", a.cols) + f("sq", a.isSquare) + f("over", a.isOverdetermined) + f("under", a.isUnderdetermined) + f("sym", a.isSymmetric) + f("pd", a.isPositiveDefinite) + f("dom", a.isDiagonallyDominant) + f("up", a.isUpperTriangular) + f("lo", a.isLowerTriangular) + f("dg", a.isDiagonal) + f("sp", a.sparsity) + f("det", a.determinant) + f("rank", a.rank) + f("nul", a.nullity) + f("cond", a.conditionNumber) + f("st", stab(a.stability)) + f("dig", a.expectedDigitsLost) + f("one", a.hasUniqueSolution) + f("inf", a.hasInfiniteSolutions) + f("none", a.hasNoSolution) + f("rec", q_(a.recommendedSolver)) + f("text", std::to_string(std::hash<Str>{}(a.analysisReport) % 1000000)); }
    else throw std::logic_error("no such question"); });
  if (!err.empty()) r = ""; return r; }
static Mt svw(const Mt& A) { SVDecompositionSolver<double> s(A); Vt w = s.getW(); Mt m(1, w.size()); for (int i = 0; i < (int)w.size(); i++) m(0, i) = w[i]; return m; }
static void question(const LS& o, const S& s, const Q& q) { Str e1, e2; Str r1 = ask(o, q, e1); LS fr = s.make(); Str r2 = ask(fr, q, e2);
  Ev v("q"); v.kv("q", q.q).kv("t", Raw{q.t < 0 ? Str("-1") : num(q.t)}).kv("kind", s.kind).kv("A", Raw{jm(s.A)}).kv("b", Raw{s.kind == 1 ? jv(s.b) : Str("[]")}).kv("err", e1).kv("same", r1 == r2 && e1 == e2);
  if (q.q == "res" || q.q == "verify") v.kv("y", Raw{jv(q.x)}); if (q.q == "multi") v.kv("B", Raw{s.kind == 2 ? jm(s.B) : Str("[]")}); if (q.q == "iter") v.kv("m", q.m);
  if (q.q == "rank" || q.q == "null" || q.q == "cols" || q.q == "cond" || q.q == "analyze" || q.q == "pinv" || q.q == "verify") { Mt w; Str e = guarded([&] { w = svw(s.A); }); v.kv("sv", Raw{e.empty() ? jm(w) : Str("[[]]")}); }
  v.kv("a", Raw{"{\"z\":0" + (r1.empty() ? Str() : r1) + "}"}); out.ev(v); }
static Mt gen(Rng& R, int k) { int n = R.range(1, 4), m = n; if (k % 12 == 7) m = n + R.range(1, 2); if (k % 12 == 8) m = std::max(1, n - R.range(1, 2)); Mt A(m, n);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = k % 2 ? R.range(-4, 4) : R.range(-20, 20) / 4.0; int d = std::min(m, n);
  switch (k % 12) {
    case 0: for (int i = 0; i < d; i++) for (int j = 0; j < i; j++) A(i, j) = 0; break;
    case 1: for (int i = 0; i < d; i++) for (int j = i + 1; j < d; j++) A(i, j) = 0; break;
    case 2: { Mt T = A.transpose() * A; A = T; for (int i = 0; i < n; i++) A(i, i) += R.range(0, 2); break; }
    case 3: for (int i = 0; i < d; i++) for (int j = 0; j < i; j++) A(i, j) = R.range(-3, 3) * std::pow(2.0, -30); break;   // nearly triangular
    case 4: { double s = std::pow(2.0, -R.range(28, 60)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) *= s; break; }
    case 5: { Mt T = A.transpose() * A; A = T; for (int i = 0; i < n; i++) { A(i, i) += 3; for (int j = 0; j < i; j++) A(i, j) += R.range(-2, 2) * std::pow(2.0, -R.range(28, 36)); } break; }   // nearly symmetric
    case 6: for (int i = 0; i < m; i++) { double q = 0; for (int j = 0; j < n; j++) if (j != i) q += std::fabs(A(i, j)); if (i < n) A(i, i) = (R.chance(1, 2) ? 1 : -1) * (q + R.range(R.chance(1, 4) ? 0 : 1, 3)); } break;
    case 7: if (n > 1 && R.chance(1, 2)) for (int i = 0; i < m; i++) A(i, n - 1) = A(i, 0) * R.pick(std::vector<int>{0, 1, 1}); break;
    case 9: if (m > 1) for (int j = 0; j < n; j++) A(m - 1, j) = A(0, j) * (R.chance(1, 3) ? 0 : 2); break;
    case 10: for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = R.chance(1, 3) ? 0 : (i == j ? R.range(-2, 2) : 0); break;
    case 11: for (int j = 0; j < n; j++) A(0, j) *= std::pow(2.0, R.pick(std::vector<int>{-10, -13, -14, -20, -26, -27, -28, -29, -30, -36, -39, -40})); break; }
  return A; }
static const std::vector<Str> QS = {"solve", "gj", "lu", "chol", "qr", "svd", "lsq", "iter", "multi", "res", "verify", "sym", "pd", "upper", "lower", "diag", "dom", "sparse", "det", "rank", "cond", "getlu", "getqr", "getsvd", "getchol", "null", "cols", "inv", "pinv", "eig", "eigs", "shape", "analyze"};
static S gensys(Rng& R, int k) { S s; s.A = gen(R, k); int m = s.A.rows(), n = s.A.cols(); s.b = Vt(m); for (int i = 0; i < m; i++) s.b[i] = R.range(-6, 6); if (R.chance(1, 5)) { Vt x(n); for (int i = 0; i < n; i++) x[i] = R.range(-3, 3); s.b = s.A * x; } s.B = Mt(m, 2); for (int i = 0; i < m; i++) { s.B(i, 0) = R.range(-5, 5); s.B(i, 1) = i; } s.kind = R.chance(1, 6) ? 0 : R.chance(1, 6) ? 2 : 1; return s; }
static Q genq(Rng& R, const S& s, const Str& k) { Q q; q.q = k; int n = s.A.cols(); q.t = R.chance(1, 2) ? -1 : R.pick(std::vector<double>{0, std::pow(2.0, -31), std::pow(2.0, -20), 0.125, 1, 2, 5}); q.m = R.range(0, 3); q.x = Vt(n); for (int i = 0; i < n; i++) q.x[i] = R.range(-3, 3);
  if (k == "verify" || k == "res") { if (s.kind == 1 && R.chance(2, 3)) { Str e = guarded([&] { q.x = s.make().SolveBySVD(); }); double d = R.pick(std::vector<double>{0, 1e-12, 1e-7, 1e-6, 0.01}); if (R.chance(2, 3) && (int)q.x.size() == n) q.x[R.range(0, n - 1)] += d; } if (R.chance(1, 15)) q.x = Vt(n + 1); if (k == "verify" && R.chance(1, 2)) { double r = -1; guarded([&] { r = s.make().RelativeResidual(q.x); }); if (r > 0) q.t = r * R.pick(std::vector<double>{0.5, 0.9, 1.1, 2}); } }
  return q; }
int main(int c, char** v) {
  Args a = args(c, v); Rng R(a.seed); out.open(a.out.c_str()); int N = a.thorough() ? 1500 : 150;
  if (!a.script.empty()) {   // histories of the specification: two objects over its six matrices
    std::vector<S> M(6); auto mk = [](int m, int n, std::vector<double> e) { Mt A(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = e[i * n + j]; return A; };
    M[0].A = mk(2, 2, {2, 1, 1, 3}); M[1].A = mk(2, 2, {1, 1.0 / 16, 0, 2}); M[2].A = mk(2, 2, {1, 2, 2, 4}); M[3].A = mk(2, 2, {1, 2, 1.5, 4}); M[4].A = mk(2, 3, {1, 0, 2, 0, 1, 1}); M[5].A = mk(3, 2, {1, 1, 0, 2, 1, 0}); for (S& s : M) { s.b = Vt(s.A.rows()); for (int i = 0; i < s.A.rows(); i++) s.b[i] = i + 1; }
    double T[] = {0, 0.125, 1}; std::ifstream fs(a.script); Str line; int k = 0;
    while (std::getline(fs, line)) { if (line.empty()) continue; out.begin("spec" + std::to_string(k++)); int cur[2] = {0, 1}; std::vector<LS> o = {M[0].make(), M[1].make()}; std::stringstream ls(line); Str ev; int st = 0;
      while (std::getline(ls, ev, ';')) { std::stringstream s(ev); Str op, q; int i, t; s >> op >> i; i--; if (op == "ask") { s >> q >> t; Q x; x.q = q; x.t = T[t - 1]; question(o[i], M[cur[i]], x); if (++st % 4 == 0) { Q y = genq(R, M[cur[i]], R.pick(QS)); question(o[i], M[cur[i]], y); } } else if (op == "assign") { s >> t; cur[i] = t - 1; o[i] = M[t - 1].make(); } else { s >> t; cur[i] = cur[t - 1]; o[i] = o[t - 1]; } }
      out.end(); } }
  for (int i = 0; i < N; i++) { out.begin("m" + std::to_string(i)); S s = gensys(R, i), s2 = gensys(R, i * 5 + 3); Mt src(s.A); Vt sb(s.b); LS o = s.make(), o2 = s2.make(); { S t = s; t.A = src; t.b = sb; o = t.make(); }   // the data it was made from is gone
    int n = 8 + R.range(0, 14); std::vector<Str> mine = {R.pick(QS), R.pick(QS), R.pick(QS), "rank", "sym", "pd", "getsvd", "verify"};
    for (int k = 0; k < n; k++) { if (R.chance(1, 25)) { std::swap(s, s2); std::swap(o, o2); } else if (R.chance(1, 25)) { s = s2; o = o2; } question(o, s, genq(R, s, R.chance(1, 2) ? R.pick(mine) : R.pick(QS))); }
    out.end(); }
  for (int i = 0; i < 18; i++) { out.begin("k" + std::to_string(i)); S s; s.A = Mt(2, 2); s.A(0, 0) = 1; s.A(0, 1) = s.A(1, 0) = 0; double th[] = {1e4, 1e8, 1e10, 1e12, 1e13, 1e6}; s.A(1, 1) = 1 / (th[i / 3] * (i % 3 == 0 ? 0.5 : i % 3 == 1 ? 2 : 7)); s.b = Vt(2); s.b[0] = R.range(-4, 4); s.b[1] = R.range(-4, 4); LS o = s.make();
    for (Str k : {"cond", "analyze", "solve"}) question(o, s, genq(R, s, k)); out.end(); }
  for (int i = 0; i < (a.thorough() ? 300 : 40); i++) { Ev v("bad"); Mt A = gen(R, i); int m = A.rows(); Vt b(m + R.range(-1, 1)); Mt B(m + R.range(-1, 1), 2); out.begin("bad" + std::to_string(i)); v.kv("m", m).kv("b", (int)b.size()).kv("B", B.rows()).kv("e1", guarded([&] { LS o(A, b); })).kv("e2", guarded([&] { LS o(A, B); })); out.ev(v); out.end(); }
  out.close(); return 0;
}
