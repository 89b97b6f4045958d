// C03: records the answers of the direct linear solvers
#include "vp.h"
#include "base/Vector/Vector.h"
#include "base/Matrix/Matrix.h"
#include "base/Matrix/MatrixNM.h"
#include "base/Matrix/MatrixSym.h"
#include "base/Matrix/MatrixBandDiag.h"
#include "core/LinAlgEqSolvers/LinAlgDirect.h"
#include "core/LinAlgEqSolvers/LinAlgQR.h"
#include "core/LinAlgEqSolvers/LinAlgSVD.h"
using namespace MML; using namespace vp;
typedef std::string Str; typedef Complex Cd; typedef Matrix<double> Mt; typedef Vector<double> Vt; typedef Matrix<Cd> CM; typedef Vector<Cd> CV;
static Out out;
static Str num(double x) { return std::fabs(x) < 1e9 && x == std::floor(x) ? std::to_string((long)x) : js(x); }
static Str jv(const Vt& v) { Str s = "["; for (int i = 0; i < (int)v.size(); i++) s += (i ? "," : "") + num(v[i]); return s + "]"; }
template <class M> Str jm_(const M& m) { Str s = "["; for (int i = 0; i < m.rows(); i++) { s += i ? ",[" : "["; for (int j = 0; j < m.cols(); j++) s += (j ? "," : "") + num(m(i, j)); s += "]"; } return s + "]"; }
static Str jm(const Mt& m) { return jm_(m); }
// complex data as the real block form
static Str jv(const CV& v) { int n = v.size(); Vt r(2 * n); for (int i = 0; i < n; i++) { r[i] = v[i].real(); r[n + i] = v[i].imag(); } return jv(r); }
static Str jm(const CM& m) { int n = m.rows(), c = m.cols(); Mt r(2 * n, 2 * c); for (int i = 0; i < n; i++) for (int j = 0; j < c; j++) { r(i, j) = r(n + i, c + j) = m(i, j).real(); r(i, c + j) = -m(i, j).imag(); r(n + i, j) = m(i, j).imag(); } return jm(r); }
static double dm(double x) { return x; } static double dm(Cd x) { return std::norm(x); }
struct E : Ev { E(const char* op, const char* sv) : Ev(op) { kv("sv", Str(sv)); } E& raw(const char* k, const Str& s) { Ev::kv(k, Raw{s}); return *this; } };
template <class M, class V> void general(const M& A, const V& b) {   // Gauss-Jordan, LU, in-place LU
  typedef typename M::value_type T; int n = A.rows();
  { M a(A); V x; Str r = "[]"; Str e = guarded([&] { x = GaussJordanSolver<T>::Solve(a, b); }); if (e.empty()) r = jv(x); E v("solve", "gj"); v.raw("A", jm(A)).raw("b", jv(b)).kv("err", e); v.raw("x", r); out.ev(v); if (e.empty() && n == A.cols()) { E w("inv", "gjinplace"); w.raw("A", jm(A)).kv("err", Str()); w.raw("X", jm(a)); out.ev(w); } }
  { V x; Str r = "[]"; M a0(A); V b0(b); Str e = guarded([&] { x = GaussJordanSolver<T>::SolveConst(A, b); }); if (e.empty()) r = jv(x); E v("solve", "gjconst"); v.raw("A", jm(A)).raw("b", jv(b)).kv("err", e); v.raw("x", r); out.ev(v); }
  { M a(A); V x(b); Str r = "[]"; Str e = guarded([&] { GaussJordanSolver<T>::SolveInPlace(a, x); }); if (e.empty()) r = jv(x); E v("solve", "gjv"); v.raw("A", jm(A)).raw("b", jv(b)).kv("err", e); v.raw("x", r); out.ev(v); }
  if (n > 0 && b.size() == n && A.cols() == n) { M a(A), B(n, 2); for (int i = 0; i < n; i++) { B(i, 0) = b[i]; B(i, 1) = A(i, n - 1) + T(double(i)); } V b2(n); for (int i = 0; i < n; i++) b2[i] = B(i, 1); Str e = guarded([&] { GaussJordanSolver<T>::SolveInPlace(a, B); }); V x(n); for (int c = 0; c < 2; c++) { for (int i = 0; i < n; i++) x[i] = B(i, c); E v("solve", "gjm"); v.raw("A", jm(A)).raw("b", jv(c ? b2 : b)).kv("err", e); v.raw("x", e.empty() ? jv(x) : Str("[]")); out.ev(v); } }
  { V x, y(b.size()); M X; Str r = "[]"; double det = 0; bool same = true; Str e = guarded([&] { LUSolver<T> s(A); x = s.Solve(b); det = dm(s.det()); s.inverse(X); V z(b); same = s.Solve(b, y) && s.Solve(z, z); for (int i = 0; i < (int)b.size() && same; i++) same = y[i] == x[i] && z[i] == x[i]; V bad(n + 1); same = same && !s.Solve(bad, y) && !s.Solve(b, bad); }); if (e.empty()) r = jv(x); E v("solve", "lu"); v.raw("A", jm(A)).raw("b", jv(b)).kv("err", e); v.raw("x", r); v.kv("same", same); out.ev(v);
    if (e.empty()) { E w("inv", "lu"); w.raw("A", jm(A)).kv("err", Str()); w.raw("X", jm(X)); out.ev(w); E d("det", "lu"); d.raw("A", jm(A)).kv("det", det); out.ev(d);
      M B(n, 3), Y(n, 3); for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) B(i, j) = T(double((i * 5 + j * 3) % 7 - 3)); LUSolver<T> s(A); s.Solve(B, Y); for (int j = 0; j < 3; j++) { V bj(n), xj(n); for (int i = 0; i < n; i++) { bj[i] = B(i, j); xj[i] = Y(i, j); } E q("solve", "lum"); q.raw("A", jm(A)).raw("b", jv(bj)).kv("err", Str()); q.raw("x", jv(xj)); out.ev(q); } } }
  { V x; M a(A), keep(A); Str r = "[]"; M X; Str e = guarded([&] { LUSolverInPlace<T> s(a); x = s.Solve(b); M I(n, n); for (int i = 0; i < n; i++) I(i, i) = T(1.0); X = s.Solve(I); }); if (e.empty()) r = jv(x); E v("solve", "luip"); v.raw("A", jm(A)).raw("b", jv(b)).kv("err", e); v.raw("x", r); out.ev(v); if (e.empty()) { E w("inv", "luip"); w.raw("A", jm(A)).kv("err", Str()); w.raw("X", jm(X)); out.ev(w); } }
  { M X; Str e = guarded([&] { X = A.inverse(); }); if (n > 0) { E w("inv", "matrix"); w.raw("A", jm(A)).kv("err", e); w.raw("X", e.empty() ? jm(X) : Str("[]")); out.ev(w); } }
}
template <class R> void detailed(const char* sv, const Mt& A, const Vt& b, const R& r, const Str& e) { E v("detailed", sv); v.raw("A", jm(A)).raw("b", jv(b)).kv("err", e); v.raw("x", jv(r.solution)); v.kv("ok", r.status == AlgorithmStatus::Success).kv("st", (int)r.status).kv("rn", r.residual_norm); out.ev(v); }
static void details(const Mt& A, const Vt& b) { LinearSolverConfig c; c.estimate_error = true; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; LinearSolverResult<double> r; Str e = guarded([&] { r = GaussJordanSolveDetailed(A, b, c); }); detailed("gj", A, b, r, e); e = guarded([&] { r = LUSolveDetailed(A, b, c); }); detailed("lu", A, b, r, e); }
static void real_only(const Mt& A, const Vt& b) { int m = A.rows(), n = A.cols();
  { Vt x, y, qb, qtb, rs; Mt X, Q, R; double det = 0; bool sing = false; Str e = guarded([&] { QRSolver<double> s(A); sing = s.isSingular(); Q = s.GetQ(); R = s.GetR(); }); E v("qr", "qr"); v.raw("A", jm(A)).kv("err", e).kv("sing", sing); v.raw("Q", e.empty() ? jm(Q) : Str("[]")).raw("R", e.empty() ? jm(R) : Str("[]")); out.ev(v);
    if (e.empty()) { QRSolver<double> s(A); Str e1 = guarded([&] { x = s.LeastSquaresSolve(b); s.LeastSquaresSolve(b, y); }); E w("lsq", "qr"); w.raw("A", jm(A)).raw("b", jv(b)).kv("err", e1).kv("sing", sing); w.raw("x", e1.empty() ? jv(x) : Str("[]")).raw("y", e1.empty() ? jv(y) : Str("[]")); out.ev(w);
      e1 = guarded([&] { x = s.Solve(b); }); E z(m == n ? "solve" : "solvebad", "qr"); z.raw("A", jm(A)).raw("b", jv(b)).kv("err", e1).kv("sing", sing); z.raw("x", e1.empty() ? jv(x) : Str("[]")); out.ev(z);
      if ((int)b.size() == m) { s.QtMultiply(b, qtb); s.QMultiply(qtb, qb); E q("qmul", "qr"); q.raw("A", jm(A)).raw("b", jv(b)); q.raw("Q", jm(Q)).raw("qtb", jv(qtb)).raw("qqtb", jv(qb)); out.ev(q); }
      if (!sing) { Vt rb(n); for (int i = 0; i < n; i++) rb[i] = (i * 3) % 5 - 2; s.RSolve(rb, rs); E q("rsolve", "qr"); q.raw("R", jm(R)).raw("b", jv(rb)).raw("x", jv(rs)); out.ev(q); }
      if (m == n) { det = s.det(); E d("det", "qr"); d.raw("A", jm(A)).kv("det", det); out.ev(d); e1 = guarded([&] { s.inverse(X); }); E q("inv", "qr"); q.raw("A", jm(A)).kv("err", e1); q.raw("X", e1.empty() ? jm(X) : Str("[]")); out.ev(q); } } }
  { Mt U, W, Rg, Ns; Vt w, x; int rank = 0, nul = 0; double ic = 0; Str e = guarded([&] { SVDecompositionSolver<double> s(A); U = s.getU(); W = s.getV(); w = s.getW(); rank = s.Rank(); nul = s.Nullity(); Rg = s.Range(); Ns = s.Nullspace(); ic = s.inv_condition(); }); E v("svd", "svd"); v.raw("A", jm(A)).kv("err", e); if (e.empty()) { v.raw("U", jm(U)).raw("w", jv(w)).raw("V", jm(W)).raw("range", jm(Rg)).raw("null", jm(Ns)).kv("rank", rank).kv("nullity", nul).kv("ic", ic).kv("rc", Rg.cols()).kv("nc", Ns.cols()); } out.ev(v);
    if (e.empty()) { SVDecompositionSolver<double> s(A); Str e1 = guarded([&] { x = s.Solve(b); }); E q("svdsolve", "svd"); q.raw("A", jm(A)).raw("b", jv(b)).kv("err", e1); q.raw("x", e1.empty() ? jv(x) : Str("[]")).raw("null", jm(Ns)).kv("nc", Ns.cols()); out.ev(q);
      Mt B(m, 2), Y(n, 2); if ((int)b.size() == m) { for (int i = 0; i < m; i++) { B(i, 0) = b[i]; B(i, 1) = i * 2 - 1; } s.Solve(B, Y); for (int c = 0; c < 2; c++) { Vt bc(m), xc(n); for (int i = 0; i < m; i++) bc[i] = B(i, c); for (int i = 0; i < n; i++) xc[i] = Y(i, c); E q2("svdsolve", "svdm"); q2.raw("A", jm(A)).raw("b", jv(bc)).kv("err", Str()); q2.raw("x", jv(xc)).raw("null", jm(Ns)).kv("nc", Ns.cols()); out.ev(q2); } } } }
}
static void chol(const Mt& A, const Vt& b) { Vt x; Mt L, X; double ld = 0; Str e1, e = guarded([&] { CholeskySolver<double> s(A); L = s.L(); ld = s.logdet(); s.inverse(X); e1 = guarded([&] { x = s.Solve(b); }); }); E v("chol", "chol"); v.raw("A", jm(A)).raw("b", jv(b)).kv("err", e).kv("e1", e1); v.raw("x", e.empty() && e1.empty() ? jv(x) : Str("[]")).raw("L", e.empty() ? jm(L) : Str("[]")).raw("X", e.empty() ? jm(X) : Str("[]")).kv("ld", ld); out.ev(v); LinearSolverConfig c; c.estimate_error = true; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; LinearSolverResult<double> r; e = guarded([&] { r = CholeskySolveDetailed(A, b, c); }); detailed("chol", A, b, r, e); }
static void band(int n, int m1, int m2, const Mt& D, const Vt& b) { BandDiagonalMatrix A(n, m1, m2, D); Mt F = A.ToFullMatrix(); Vt x; double det = 0; bool same = true; Str e = guarded([&] { BandDiagonalSolver s(A); x = s.Solve(b); det = s.Det(); Vt y(b), z(n + 1); same = s.Solve(y, y) && !s.Solve(z, y) && s.GetDimension() == n && s.GetLowerBandwidth() == m1 && s.GetUpperBandwidth() == m2; Mt B(n, 2); for (int i = 0; i < n; i++) { B(i, 0) = b[i]; B(i, 1) = b[n - 1 - i]; } Mt Y = s.Solve(B); Vt y2(n); for (int i = 0; i < n; i++) y2[i] = b[n - 1 - i]; y2 = s.Solve(y2); for (int i = 0; i < n; i++) same = same && Y(i, 0) == x[i] && Y(i, 1) == y2[i]; });
  E v("solve", "band"); v.raw("A", jm(F)).raw("b", jv(b)).kv("err", e); v.raw("x", e.empty() ? jv(x) : Str("[]")).kv("same", same); out.ev(v); if (e.empty()) { E d("det", "band"); d.raw("A", jm(F)).kv("det", det); out.ev(d); } LinearSolverConfig c; c.estimate_error = true; c.exception_policy = EvaluationExceptionPolicy::ConvertToStatus; LinearSolverResult<double> r; e = guarded([&] { r = BandDiagonalSolveDetailed(A, b, c); }); detailed("band", F, b, r, e); }
template <int N> void nm(const Mt& A) { MatrixNM<double, N, N> M; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) M(i, j) = A(i, j); MatrixNM<double, N, N> X; Str e = guarded([&] { X = M; X.Invert(); }); E v("inv", "nm"); v.raw("A", jm(A)).kv("err", e); v.raw("X", e.empty() ? jm_(X) : Str("[]")); out.ev(v); }
static Mt gen(Rng& R, int m, int n, int kind) { Mt A(m, n);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = kind % 3 == 0 ? R.range(-3, 3) : kind % 3 == 1 ? R.range(-20, 20) : R.uni(-1, 1);
  if (m == 0 || n == 0) return A;
  switch (kind % 14) {
    case 13: for (int i = 0; i < std::min(m, n); i++) A(i, i) *= 1e-8; break;
    case 3: { int r = R.range(0, m - 1); for (int j = 0; j < n; j++) A(r, j) = 0; break; }
    case 4: { int c = R.range(0, n - 1); for (int i = 0; i < m; i++) A(i, c) = 0; break; }
    case 5: if (m > 1) { int r = R.range(0, m - 1), q = (r + 1) % m; for (int j = 0; j < n; j++) A(r, j) = A(q, j); } break;
    case 6: { double s = std::pow(2.0, R.pick(std::vector<int>{-80, -40, 30, 90})); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) *= s; break; }
    case 7: for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (R.chance(1, 2)) A(i, j) = 0; break;
    case 8: for (int i = 0; i < m; i++) { double s = std::pow(10.0, R.range(-4, 4)); for (int j = 0; j < n; j++) A(i, j) *= s; } break;
    case 9: for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = (i + 1 == j || (i == m - 1 && j == 0)) ? R.range(1, 4) : 0; break;   // zero diagonal
    case 10: for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = (i + 1.0) * (j + 1); break;   // rank one
    case 11: if (R.chance(1, 2)) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = 0; break;
    case 12: for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A(i, j) = 1.0 / (i + j + 1); break; }
  return A; }
static Vt genb(Rng& R, int m, int k) { Vt b(m); for (int i = 0; i < m; i++) b[i] = k % 4 == 0 ? 0 : k % 4 == 1 ? R.range(-9, 9) : k % 4 == 2 ? (i == m - 1 ? 1 : 0) : R.uni(-5, 5); if (R.chance(1, 4)) { double sc = std::pow(2.0, R.pick(std::vector<int>{-90, -50, 40})); for (int i = 0; i < m; i++) b[i] *= sc; } return b; }
int main(int c, char** v) {
  Args a = args(c, v); Rng R(a.seed); out.open(a.out.c_str()); bool th = a.thorough(); int N = th ? 3000 : 400;
  for (int i = 0; i < N; i++) { Str s = std::to_string(i); int n = i % 17 == 16 ? 0 : R.range(1, i % 5 == 0 ? 6 : 4);
    out.begin("g" + s); { Mt A = gen(R, n, R.chance(1, 12) ? n + 1 : n, i); Vt b = genb(R, R.chance(1, 14) ? n + 1 : n, R.range(0, 7)); general(A, b); if (i % 3 == 0) details(A, b); } out.end();
    if (i % 2 == 0) { out.begin("c" + s); int k = std::min(n, 3); CM A(k, k); CV b(k); Mt P = gen(R, k, k, i), Q = gen(R, k, k, (i % 13 >= 3 && i % 13 <= 6) ? i : i + 1); for (int p = 0; p < k; p++) { b[p] = Cd(R.range(-5, 5), R.range(-5, 5)); for (int q = 0; q < k; q++) A(p, q) = Cd(P(p, q), (i % 13 == 3 || i % 13 == 4 || i % 13 == 5) ? P(p, q) : Q(p, q)); } general(A, b); out.end(); }
    out.begin("r" + s); { int m = R.range(1, 5), k = R.range(1, 4); if (i % 3 == 0) k = m; if (i % 17 == 0) { m = k = 0; } if (i % 19 == 0) k = 0; Mt A = gen(R, m, k, i + 7); real_only(A, genb(R, R.chance(1, 14) ? A.rows() + 1 : A.rows(), R.range(0, 7))); } out.end();
    if (i % 2) { out.begin("h" + s); int k = i % 21 == 1 ? 0 : R.range(1, 4); Mt A(k, k); Mt B = gen(R, k + R.range(-1, 1) + (k < 2), k, (i / 2) % 3 + (i % 8 == 1 ? 6 : 0)); A = k ? B.transpose() * B : A; if (i % 5 == 0 && k) A(R.range(0, k - 1), R.range(0, k - 1)) += R.pick(std::vector<double>{-1, -30, 0.5}); if (i % 7 == 0 && k > 1) { A(0, k - 1) -= 40; A(k - 1, 0) = A(0, k - 1); } if (i % 9 == 0) for (int p = 0; p < k; p++) A(p, p) += 1; Vt b = genb(R, R.chance(1, 14) ? k + 1 : k, R.range(0, 7)); if (i % 6) for (int p = 0; p < k; p++) for (int q = 0; q < p; q++) if (R.chance(9, 10)) A(p, q) = A(q, p); chol(A, b); out.end(); }
    { out.begin("b" + s); const bool td = i % 7 == 2; int k = R.range(1, 6), m1 = R.range(0, 3 + (i % 6 == 0 ? 4 : 0)), m2 = R.range(0, 3 + (i % 6 == 3 ? 4 : 0)); Mt D = gen(R, k, m1 + m2 + 1, i % 5 == 0 ? i : i % 3 + (i % 4 ? 0 : 6)); if (td) for (int p = 0; p < k; p++) D(p, m1) *= 1e-8; band(k, m1, m2, D, genb(R, k, R.range(0, 7))); out.end(); }
    out.begin("n" + s); { int k = i % 4 + 1; Mt A = gen(R, k, k, i + 3); k == 1 ? nm<1>(A) : k == 2 ? nm<2>(A) : k == 3 ? nm<3>(A) : nm<4>(A); } out.end(); }
  out.close(); return 0;
}
