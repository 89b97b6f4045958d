// C05: records spectra, singular value decompositions and what is derived from them
#include "vp.h"
#include "base/Vector/Vector.h"
#include "base/Matrix/Matrix.h"
#include "base/Matrix/MatrixSym.h"
#include "base/Polynom.h"
#include "core/MatrixUtils.h"
#include "algorithms/MatrixAlg.h"
#include "algorithms/EigenSystemSolvers.h"
using namespace MML; using namespace vp;
typedef std::string Str; typedef Matrix<double> Mt; typedef Vector<double> Vt;
static Out out;
static Str num(double x) { return std::fabs(x) < 1e9 && x == std::floor(x) ? std::to_string((long)x) : js(x); }
static Str jv(const Vt& v) { Str s = "["; for (int i = 0; i < (int)v.size(); i++) s += (i ? "," : "") + num(v[i]); return s + "]"; }
static Str jm(const Mt& m) { Str s = "["; for (int i = 0; i < m.rows(); i++) { s += i ? ",[" : "["; for (int j = 0; j < m.cols(); j++) s += (j ? "," : "") + num(m(i, j)); s += "]"; } return s + "]"; }
template <class R> void symev(const char* sv, const Mt& A, const R& r, const Str& er, bool lim) { Ev e("sym"); e.kv("sv", Str(sv)).kv("A", Raw{jm(A)}).kv("err", er).kv("conv", er.empty() && r.converged).kv("lim", lim).kv("w", Raw{jv(r.eigenvalues)}).kv("V", Raw{jm(r.eigenvectors)}); out.ev(e); }
static void symm(Rng& R, const Mt& A) {
  int n = A.rows(); bool sq = n == A.cols(); out.at("sym"); int how = R.range(0, 3); double tol = R.pick(std::vector<double>{1e-10, 1e-10, 1e-6, 1e-14});
  { SymmMatEigenSolverJacobi::Result r; EigenSolverConfig c; c.tolerance = tol; Str er = guarded([&] { if (how == 0 && sq) { MatrixSym<Real> S(n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) S(i, j) = A(i, j); r = SymmMatEigenSolverJacobi::Solve(S); } else if (how == 1) r = SymmMatEigenSolverJacobi::Solve(A, c); else r = SymmMatEigenSolverJacobi::Solve(A); }); symev("jacobi", A, r, er, false); }
  { SymmMatEigenSolverQR::Result r; EigenSolverConfig c; c.tolerance = tol; c.max_iterations = 30 * n + 30; Str er = guarded([&] { if (how == 0 && sq) { MatrixSym<Real> S(n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) S(i, j) = A(i, j); r = SymmMatEigenSolverQR::Solve(S); } else if (how == 1) r = SymmMatEigenSolverQR::Solve(A, c); else r = SymmMatEigenSolverQR::Solve(A); }); symev("qr", A, r, er, false); }
  if (R.chance(1, 6) && sq) { int it = R.range(1, 3); SymmMatEigenSolverQR::Result r = SymmMatEigenSolverQR::Solve(A, 1e-10, it); symev("qr", A, r, "", true); SymmMatEigenSolverJacobi::Result q = SymmMatEigenSolverJacobi::Solve(A, 1e-15, it); symev("jacobi", A, q, "", true); }
}
static void geneig(Rng& R, const Mt& A) {
  out.at("gen"); EigenSolver::Result r; int how = R.range(0, 5); bool lim = how == 5; EigenSolverConfig c; c.max_iterations = 1000; if (R.chance(1, 2)) c.tolerance = R.pick(std::vector<double>{1e-6, 1e-14});
  Str er = guarded([&] { r = lim ? EigenSolver::Solve(A, 1e-10, R.range(0, 4)) : how == 1 ? EigenSolver::Solve(A, c) : EigenSolver::Solve(A); });
  Str z = "["; for (size_t i = 0; i < r.eigenvalues.size(); i++) z += (i ? ",[" : "[") + num(r.eigenvalues[i].real) + "," + num(r.eigenvalues[i].imag) + "]"; z += "]"; Str p = "["; for (size_t i = 0; i < r.isComplexPair.size(); i++) p += Str(i ? "," : "") + (r.isComplexPair[i] ? "true" : "false"); p += "]";
  Ev e("gen"); e.kv("A", Raw{jm(A)}).kv("err", er).kv("conv", er.empty() && r.converged).kv("lim", lim).kv("z", Raw{z}).kv("pair", Raw{p}).kv("V", Raw{jm(r.eigenvectors)}).kv("res", r.maxResidual); out.ev(e);
  if (A.rows() == A.cols() && A.rows() > 0) { out.at("hess"); auto hq = EigenSolverHelpers::ReduceToHessenberg(A); Ev f("hess"); f.kv("A", Raw{jm(A)}).kv("err", Str()).kv("H", Raw{jm(hq.H)}).kv("Q", Raw{jm(hq.Q)}); out.ev(f); }
}
static bool eq(const Mt& a, const Mt& b) { if (a.rows() != b.rows() || a.cols() != b.cols()) return false; for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) if (a(i, j) != b(i, j)) return false; return true; }
static void subsp(const Mt& A) {
  out.at("sub"); Utils::SVDResult s; Utils::FundamentalSubspaces f; Vt w2; int r2 = 0, rg = 0, nl = 0; double c2 = 0; bool same = true; Mt P;
  Str er = guarded([&] { s = Utils::ComputeSVD(A); f = Utils::ComputeFundamentalSubspaces(A); w2 = Utils::SingularValues(A); r2 = Utils::RankSVD(A); rg = Utils::RankGaussian(A); nl = Utils::Nullity(A); c2 = Utils::ConditionNumber(A); P = Utils::PseudoInverse(A);
    same = eq(Utils::NullSpace(A), f.nullSpace) && eq(Utils::Kernel(A), f.nullSpace) && eq(Utils::ColumnSpace(A), f.columnSpace) && eq(Utils::Range(A), f.columnSpace) && eq(Utils::RowSpace(A), f.rowSpace) && eq(Utils::LeftNullSpace(A), f.leftNullSpace); });
  auto basis = [](const Mt& B) { return B.cols() == 0 ? Str("[]") : jm(B); };
  Ev e("sub"); e.kv("A", Raw{jm(A)}).kv("err", er); if (er.empty()) e.kv("w", Raw{jv(s.singularValues)}).kv("w2", Raw{jv(w2)}).kv("U", Raw{jm(s.U)}).kv("W", Raw{jm(s.V)}).kv("rank", s.rank).kv("rank2", r2).kv("rank3", f.rank).kv("rankg", rg).kv("nullity", nl).kv("c1", s.conditionNumber).kv("c2", c2).kv("same", same).kv("col", Raw{basis(f.columnSpace)}).kv("row", Raw{basis(f.rowSpace)}).kv("ker", Raw{basis(f.nullSpace)}).kv("left", Raw{basis(f.leftNullSpace)}).kv("P", Raw{jm(P)}); out.ev(e);
}
static void definite(const Mt& A, bool sym) {
  out.at("def"); using namespace MatrixAlg; Str cls; bool b[5] = {}; int n = A.rows(); const char* nm[] = {"PD", "PSD", "ND", "NSD", "IND"};
  Str er = guarded([&] { if (sym) { MatrixSym<Real> S(n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) S(i, j) = A(i, j); cls = nm[(int)ClassifyDefiniteness(S)]; b[0] = IsPositiveDefinite(S); b[1] = IsPositiveSemiDefinite(S); b[2] = IsNegativeDefinite(S); b[3] = IsNegativeSemiDefinite(S); b[4] = IsIndefinite(S); }
    else { cls = nm[(int)ClassifyDefiniteness(A)]; b[0] = IsPositiveDefinite(A); b[1] = IsPositiveSemiDefinite(A); b[2] = IsNegativeDefinite(A); b[3] = IsNegativeSemiDefinite(A); b[4] = IsIndefinite(A); } });
  Str s = "["; for (int i = 0; i < 5; i++) s += Str(i ? "," : "") + (b[i] ? "true" : "false"); Ev e("def"); e.kv("A", Raw{jm(A)}).kv("err", er).kv("cls", cls).kv("is", Raw{s + "]"}); out.ev(e);
}
static void faddeev(const Mt& A) { out.at("fad"); PolynomRealFunc p; double d = 0, d2 = 0; Mt X; Str er = guarded([&] { Utils::FaddeevAlg(A, p, d, X); d2 = Utils::Det(A); }); Str c = "["; for (int i = 0; i <= A.rows() && er.empty(); i++) c += (i ? "," : "") + num(p[i]); Ev e("fad"); e.kv("A", Raw{jm(A)}).kv("err", er).kv("c", Raw{c + "]"}).kv("det", d).kv("det2", d2).kv("X", Raw{er.empty() ? jm(X) : Str("[]")}); out.ev(e); }
static void preds(Rng& R, const Mt& A) {
  using namespace Utils; out.at("pred"); Str nil, uni; bool v[6] = {}; double nn[3] = {}, tr = 0; int n = A.rows(); Mt Q(n, n), B;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) Q(i, j) = R.range(-2, 2);
  Str er = guarded([&] { v[0] = IsUpperHessenberg(A); v[1] = IsUpperTriangular(A); v[2] = IsLowerTriangular(A); v[3] = IsDiagonal(A); v[4] = Utils::IsSymmetric(A); v[5] = Utils::IsSkewSymmetric(A); nn[0] = OneNorm(A); nn[1] = InfinityNorm(A); nn[2] = FrobeniusNorm(A); tr = Trace(A); if (n == A.cols()) B = SimilarityTransform(Q, A); });
  Str e1 = guarded([&] { nil = IsNilpotent(A) ? "T" : "F"; }), e2 = guarded([&] { uni = IsUnipotent(A) ? "T" : "F"; }); if (e1.size()) nil = e1; if (e2.size()) uni = e2;
  Ev e("pred"); e.kv("A", Raw{jm(A)}).kv("err", er).kv("hess", v[0]).kv("up", v[1]).kv("lo", v[2]).kv("dg", v[3]).kv("sym", v[4]).kv("skew", v[5]).kv("n1", nn[0]).kv("ni", nn[1]).kv("nf", nn[2]).kv("tr", tr).kv("nil", nil).kv("uni", uni).kv("Q", Raw{jm(Q)}).kv("QAQ", Raw{jm(B)}); out.ev(e);
}
static void two(double a, double b, double c, double d) { auto r = EigenSolverHelpers::Eigenvalues2x2(a, b, c, d); Ev e("two"); e.kv("m", std::vector<double>{a, b, c, d}).kv("cx", r.isComplex).kv("z", std::vector<double>{r.real1, r.imag1, r.real2, r.imag2}); out.ev(e); }
// structured square matrices: repeated, zero, complex, defective, permuted, block, graded
static Mt ints(Rng& R, int m, int n, int b) { Mt A(m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = R.range(-b, b); return A; }
static void similar(Rng& R, Mt& A) { int n = A.rows(); for (int t = 0; t < n && n > 1; t++) { int i = R.range(0, n - 1), j = (i + R.range(1, n - 1)) % n; double c = R.pick(std::vector<double>{-1, 1, 1}); for (int k = 0; k < n; k++) A(i, k) += c * A(j, k); for (int k = 0; k < n; k++) A(k, j) -= c * A(k, i); } }
static Mt square(Rng& R, int n, int kind) { Mt A(n, n);
  switch (kind % 14) {
    case 0: A = ints(R, n, n, 3); break;
    case 1: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = R.uni(-1, 1); break;
    case 2: for (int i = 0; i < n; i++) { A(i, i) = R.range(-1, 1); if (i + 1 < n && R.chance(1, 2)) { A(i + 1, i + 1) = A(i, i); A(i, i + 1) = 1; } } similar(R, A); break;   // repeated, defective
    case 3: { std::vector<int> p; for (int i = 0; i < n; i++) p.push_back(i); for (int i = n - 1; i > 0; i--) std::swap(p[i], p[R.range(0, i)]); for (int i = 0; i < n; i++) A(i, p[i]) = R.chance(1, 4) ? -1 : 1; break; }
    case 4: for (int i = 0; i < n; i++) A(i, (i + 1) % n) = 1; break;                       // cycle
    case 5: for (int i = 0; i < n; i++) for (int j = i; j < n; j++) A(i, j) = R.range(-2, 2); break;
    case 6: for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { A(i, j) = R.range(-3, 3); A(j, i) = -A(i, j); } break;   // skew
    case 7: for (int i = 0; i + 1 < n; i += 2) { double a = R.range(-2, 2), b = R.range(1, 2); A(i, i) = A(i + 1, i + 1) = a; A(i, i + 1) = -b; A(i + 1, i) = b; } if (n % 2) A(n - 1, n - 1) = R.range(-1, 1); if (R.chance(2, 3)) similar(R, A); break;   // repeated complex pairs
    case 8: A = ints(R, n, n, 2); for (int i = 0; i < n; i++) for (int j = 0; j < i - 1; j++) A(i, j) = 0; if (n > 2) A(R.range(1, n - 1), 0) = 0; break;    // reduced Hessenberg
    case 9: { auto u = ints(R, n, 1, 2), v = ints(R, 1, n, 2); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = u(i, 0) * v(0, j); break; }
    case 10: break;
    case 11: for (int i = 0; i + 1 < n; i++) A(i + 1, i) = 1; if (n) for (int i = 0; i < n; i++) A(i, n - 1) = R.range(-3, 3); break;          // companion
    case 12: for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A(i, j) = R.range(-3, 3) * std::pow(10.0, -2 * (i + j)); break;           // graded
    default: for (int i = 0; i < n; i++) A(i, i) = R.range(-2, 2); if (n > 1 && R.chance(1, 2)) A(R.range(0, n - 1), R.range(0, n - 1)) = 1; break;
  } return A; }
static void scale(Rng& R, Mt& A) { double s = R.pick(std::vector<double>{1, 1, 1, 1e-9, 1e12, std::ldexp(1.0, -300), std::ldexp(1.0, 200), 1e-30}); for (int i = 0; i < A.rows(); i++) for (int j = 0; j < A.cols(); j++) A(i, j) *= s; }
static Mt symof(Rng& R, int n, int kind) { Mt B = square(R, n, kind), A(n, n); if (kind % 3 == 0) { for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = B(i, j); } else if (kind % 3 == 1) { int s = R.chance(1, 2) ? 1 : -1; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double t = 0; for (int k = 0; k < n; k++) t += B(i, k) * B(j, k); A(i, j) = A(j, i) = s * t; } } else { for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = (B(i, j) + B(j, i)) / 2; if (R.chance(1, 3)) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (std::abs(i - j) > 1) A(i, j) = 0; } return A; }
int main(int ac, char** av) {
  Args c = args(ac, av); out.open(c.out.c_str()); Rng R(c.seed); bool th = c.thorough();
  out.begin("edge");
  for (int n = 0; n <= 1; n++) { Mt A(n, n); if (n) { A(0, 0) = 3; symm(R, A); } geneig(R, A); }
  { Mt A = ints(R, 2, 3, 2), B = ints(R, 3, 2, 2); symm(R, A); geneig(R, A); symm(R, B); geneig(R, B); faddeev(B); faddeev(A); definite(A, false); }
  out.end();
  int nh = th ? 260 : 60;
  for (int h = 0; h < nh; h++) {
    out.begin("m" + std::to_string(h)); int n = h < 14 ? R.range(2, 4) : R.range(1, h % 5 == 0 ? 8 : 5);
    Mt A = square(R, n, h); if (R.chance(1, 3)) scale(R, A); geneig(R, A);
    if (h % 4 == 0) { int big = R.range(6, th ? 12 : 9); Mt B = square(R, big, R.range(0, 13)); geneig(R, B); }
    Mt S = symof(R, R.range(1, 6), R.range(0, 41)); if (R.chance(1, 3)) scale(R, S); symm(R, S);
    int m = R.range(1, 5), k = R.range(1, 5); Mt G = ints(R, m, k, 3); if (R.chance(1, 2)) { int q = R.range(1, 2); Mt X = ints(R, m, q, 2), Y = ints(R, q, k, 2); G = X * Y; } if (R.chance(1, 12)) G = Mt(m, k); subsp(G);
    for (int t = 0; t < 2; t++) { Mt D = symof(R, R.range(1, 4), R.pick(std::vector<int>{0, 5, 9, 10, 13, 24, 28, 37, 4, 6, 30, 16, 22, 40})); bool ok = true; for (int i = 0; i < D.rows(); i++) for (int j = 0; j < D.cols(); j++) ok = ok && D(i, j) * 2 == std::floor(D(i, j) * 2) && std::fabs(D(i, j)) < 100; if (ok) definite(D, R.chance(1, 2)); }
    faddeev(square(R, R.range(1, 5), R.pick(std::vector<int>{0, 2, 3, 5, 9, 13})));
    Mt P = R.chance(1, 2) ? square(R, R.range(1, 4), R.pick(std::vector<int>{0, 3, 5, 6, 8, 10, 13})) : ints(R, R.range(1, 4), R.range(1, 4), 1); if (R.chance(1, 3)) for (int i = 0; i < P.rows(); i++) for (int j = 0; j < P.cols(); j++) if (i >= j) P(i, j) = R.chance(1, 8); if (R.chance(1, 4)) for (int i = 0; i < P.rows(); i++) for (int j = 0; j <= i && j < P.cols(); j++) P(i, j) = i == j; if (R.chance(1, 6)) similar(R, P = square(R, R.range(1, 4), 10)); if (R.chance(1, 5)) { Mt T(P.cols(), P.rows()); for (int i = 0; i < P.rows(); i++) for (int j = 0; j < P.cols(); j++) T(j, i) = P(i, j); P = T; } preds(R, P);
    for (int t = 0; t < 4; t++) { if (t < 2) two(R.range(-3, 3), R.range(-3, 3), R.range(-3, 3), R.range(-3, 3)); else two(R.uni(-1, 1), R.uni(-1, 1) * std::pow(10.0, R.range(-8, 0)), R.uni(-1, 1), R.uni(-1, 1)); }
    out.end();
  }
  out.close(); return 0;
}
