// C04: records the reports of the stationary iterative solvers
#include "vp.h"
#include "base/Vector/Vector.h"
#include "base/Matrix/Matrix.h"
#include "core/LinAlgEqSolvers/LinAlgEqSolvers_iterative.h"
using namespace MML; using namespace vp;
typedef std::string Str; typedef Matrix<Real> Mt; typedef Vector<Real> Vt; typedef IterativeSolverResult Res;
static Out out;
static Str num(double x) { return std::fabs(x) < 1e9 && x == std::floor(x) ? std::to_string((long)x) : js(x); }
static Str jv(const Vt& v) { Str s = "["; for (int i = 0; i < (int)v.size(); i++) s += (i ? "," : "") + num(v[i]); return s + "]"; }
static Str jm(const Mt& m) { Str s = "["; for (int i = 0; i < m.rows(); i++) { s += i ? ",[" : "["; for (int j = 0; j < m.cols(); j++) s += (j ? "," : "") + num(m(i, j)); s += "]"; } return s + "]"; }
static Str rep(const Res& r) { return Ev("r").kv("x", Raw{jv(r.solution)}).kv("it", r.iterations).kv("res", r.residual).kv("init", r.initial_residual).kv("conv", r.converged).str(); }
static void run(int m, int api, const Mt& A, const Vt& b, const Vt& x0, double w, double tol, int mx) {
  static const char* M[] = {"jacobi", "gs", "sor"}; static const char* P[] = {"args", "config", "optimal"};
  Res r; IterativeSolverConfig c(tol, mx); c.omega = w;
  Str e = guarded([&] { r = api == 2 ? SORSolver::SolveOptimal(A, b, x0, tol, mx) : api == 1 ? (m == 0 ? JacobiSolver::Solve(A, b, c, x0) : m == 1 ? GaussSeidelSolver::Solve(A, b, c, x0) : SORSolver::Solve(A, b, c, x0)) : m == 0 ? JacobiSolver::Solve(A, b, x0, tol, mx) : m == 1 ? GaussSeidelSolver::Solve(A, b, x0, tol, mx) : SORSolver::Solve(A, b, w, x0, tol, mx); });
  Str nm = r.algorithm_name == "Jacobi" ? "jacobi" : r.algorithm_name == "GaussSeidel" ? "gs" : r.algorithm_name == "SOR" ? "sor" : r.algorithm_name;
  Ev v("run"); v.kv("m", Str(M[m])).kv("api", Str(P[api])).kv("A", Raw{jm(A)}).kv("b", Raw{jv(b)}).kv("x0", Raw{jv(x0)}).kv("w", w).kv("tol", tol).kv("max", mx).kv("err", e).kv("r", Raw{rep(r)}).kv("status", (int)r.status).kv("msg", r.error_message).kv("name", nm).kv("wu", api == 2 ? 1.0 : r.omega_used); out.ev(v);
  if (api) return;
  Res f; Str ef = guarded([&] { f = m == 0 ? JacobiSolver::Solve(A, b, Vt(), tol, mx) : m == 1 ? GaussSeidelSolver::Solve(A, b, Vt(), tol, mx) : SORSolver::Solve(A, b, w, Vt(), tol, mx); });
  Vt x; e = guarded([&] { x = m == 0 ? JacobiSolver::SolveSimple(A, b, tol, mx) : m == 1 ? GaussSeidelSolver::SolveSimple(A, b, tol, mx) : SORSolver::SolveSimple(A, b, w, tol, mx); });
  Ev q("simple"); q.kv("m", Str(M[m])).kv("err", e).kv("x", Raw{jv(x)}).kv("full", Raw{Ev("f").kv("err", ef).kv("conv", f.converged).kv("x", Raw{jv(f.solution)}).str()}); out.ev(q);
}
int main(int c, char** v) {
  Args a = args(c, v); Rng R(a.seed); out.open(a.out.c_str()); int N = a.thorough() ? 2500 : 350;
  for (int i = 0; i < N; i++) { out.begin("i" + std::to_string(i)); int n = i % 29 == 28 ? 0 : R.range(1, 5), k = i % 10; Mt A(n, R.chance(1, 15) ? n + 1 : n); Vt b(R.chance(1, 15) ? n + 1 : n);
    for (int p = 0; p < A.rows(); p++) for (int q = 0; q < A.cols(); q++) A(p, q) = k < 5 ? R.range(-3, 3) : R.uni(-1, 1);
    for (int p = 0; p < (int)b.size(); p++) b[p] = R.range(-6, 6);
    if (k % 5 != 4) for (int p = 0; p < n; p++) A(p, p) = (R.chance(1, 2) ? 1 : -1) * (k < 5 ? R.range(1, 3 + 2 * n) : R.uni(0.5, 1 + n));   // k%5==4: diagonal as it falls, zeros included
    if (k == 1) for (int p = 0; p < n; p++) for (int q = 0; q < A.cols(); q++) A(p, q) = p == q ? 2 : std::abs(p - q) == 1 ? -1 : 0;   // Poisson
    if (k == 6) { double s = std::pow(2.0, R.pick(std::vector<int>{-80, -60, 30, 60})); for (int p = 0; p < n; p++) for (int q = 0; q < A.cols(); q++) A(p, q) *= s; if (R.chance(1, 2)) for (int p = 0; p < (int)b.size(); p++) b[p] *= s; }
    if (k == 7) for (int p = 0; p < (int)b.size(); p++) b[p] = 0;
    if (k == 8) for (int p = 0; p < n; p++) for (int q = 0; q < A.cols(); q++) if (p < q) A(p, q) = 0;   // triangular: Gauss-Seidel ends in one sweep
    if (k == 9 && n) A(R.range(0, n - 1), R.range(0, n - 1)) = R.pick(std::vector<double>{0, 1e-9, 1e-20});
    Vt x0; int s = R.range(0, 4); if (s == 1) { x0 = Vt(n); for (int p = 0; p < n; p++) x0[p] = R.uni(-3, 3); } if (s == 2) { x0 = Vt(n); for (int p = 0; p < n; p++) x0[p] = R.range(-2, 2); if ((int)b.size() == n && A.cols() == n) b = A * x0; } if (s == 3 && n) x0 = Vt(n + 1);
    double w = R.pick(std::vector<double>{0.25, 0.5, 1.0, 1.25, 1.5, 1.9}); if (R.chance(1, 12)) w = R.pick(std::vector<double>{0.0, 2.0, -1.0, 2.5, std::nan("")});
    double tol = R.pick(std::vector<double>{1e-10, 1e-6, 1e-3, 0.5, 1e-13, 0.0, 10.0}); int mx = R.pick(std::vector<int>{0, 1, 2, 3, 4, 6, 10, 25, 60, 1000});
    for (int m = 0; m < 3; m++) for (int p = 0; p < (m == 2 ? 3 : 2); p++) run(m, p, A, b, x0, w, tol, mx);
    // the limit on and next to the converging sweep
    if ((int)b.size() == n && A.cols() == n) { Res r; Str e = guarded([&] { r = GaussSeidelSolver::Solve(A, b, x0, tol, 500); }); if (e.empty() && r.converged) for (int d = -1; d <= 1; d++) for (int p = 0; p < 2; p++) run(1, p, A, b, x0, w, tol, r.iterations + d); e = guarded([&] { r = JacobiSolver::Solve(A, b, x0, tol, 500); }); if (e.empty() && r.converged) for (int d = -1; d <= 0; d++) run(0, 1, A, b, x0, w, tol, r.iterations + d);
      int S = R.range(1, 5), T = R.range(1, 20); double bw = 0; e = guarded([&] { bw = SORSolver::EstimateOptimalOmega(A, b, S, T); }); if (e.empty() && n) { std::vector<double> ws, rs; for (int j = 0; j <= S; j++) { ws.push_back(1.0 + 0.95 * j / S); rs.push_back(SORSolver::Solve(A, b, ws.back(), Vt(), PrecisionValues<Real>::EigenSolverZeroThreshold, T).residual); } Ev q("estimate"); q.kv("w", bw).kv("ws", ws).kv("rs", rs); out.ev(q); } }
    out.end(); }
  out.close(); return 0;
}
