// C28: records tensor calls
#include "vp.h"
#include "core/MetricTensor.h"
using namespace MML; using namespace vp;
typedef std::string Str;
static Out out; static int nh = 0;
static Str num(double x) { return std::fabs(x) < 1e9 && x == std::floor(x) ? std::to_string((long)x) : js(x); }
static Str arr(const std::vector<double>& v) { Str s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + num(v[i]); return s + "]"; }
template <int K, int N> struct TT; 
template <int N> struct TT<2, N> { typedef Tensor2<N> T; static double& at(T& t, const int* x) { return t.at(x[0], x[1]); } static double cat(const T& t, const int* x) { return t.at(x[0], x[1]); } static double& el(T& t, const int* x) { return t(x[0], x[1]); } static double cel(const T& t, const int* x) { return t(x[0], x[1]); } static double ev(const T& t, const std::vector<VectorN<Real, N>>& v) { return t(v[0], v[1]); } };
template <int N> struct TT<3, N> { typedef Tensor3<N> T; static double& at(T& t, const int* x) { return t.at(x[0], x[1], x[2]); } static double cat(const T& t, const int* x) { return t.at(x[0], x[1], x[2]); } static double& el(T& t, const int* x) { return t(x[0], x[1], x[2]); } static double cel(const T& t, const int* x) { return t(x[0], x[1], x[2]); } static double ev(const T& t, const std::vector<VectorN<Real, N>>& v) { return t(v[0], v[1], v[2]); } };
template <int N> struct TT<4, N> { typedef Tensor4<N> T; static double& at(T& t, const int* x) { return t.at(x[0], x[1], x[2], x[3]); } static double cat(const T& t, const int* x) { return t.at(x[0], x[1], x[2], x[3]); } static double& el(T& t, const int* x) { return t(x[0], x[1], x[2], x[3]); } static double cel(const T& t, const int* x) { return t(x[0], x[1], x[2], x[3]); } static double ev(const T& t, const std::vector<VectorN<Real, N>>& v) { return t(v[0], v[1], v[2], v[3]); } };
template <int N> struct TT<5, N> { typedef Tensor5<N> T; static double& at(T& t, const int* x) { return t.at(x[0], x[1], x[2], x[3], x[4]); } static double cat(const T& t, const int* x) { return t.at(x[0], x[1], x[2], x[3], x[4]); } static double& el(T& t, const int* x) { return t(x[0], x[1], x[2], x[3], x[4]); } static double cel(const T& t, const int* x) { return t(x[0], x[1], x[2], x[3], x[4]); } static double ev(const T& t, const std::vector<VectorN<Real, N>>& v) { return t(v[0], v[1], v[2], v[3], v[4]); } };
template <int K, int N> std::vector<double> comps(const typename TT<K, N>::T& t) { int n = 1; for (int i = 0; i < K; i++) n *= N; std::vector<double> c; for (int p = 0; p < n; p++) { int x[5], q = p; for (int i = K - 1; i >= 0; i--) { x[i] = q % N; q /= N; } c.push_back(TT<K, N>::cel(t, x)); } return c; }
template <int K, int N> Str jt(const typename TT<K, N>::T& t) { std::vector<bool> u; for (int i = 0; i < K; i++) u.push_back(t.IsContravar(i) && !t.IsCovar(i)); return Ev("t").kv("n", N).kv("up", u).kv("c", Raw{arr(comps<K, N>(t))}).kv("hi", t.NumContravar()).kv("lo", t.NumCovar()).str(); }
static void emit(Ev& e) { out.ev(e); }
template <int N> struct FixMetric : MetricTensorField<N> { MatrixNM<Real, N, N> g; Real Component(int i, int j, const VectorN<Real, N>&) const override { return g(i, j); } };
template <int N> static Str jg(const MatrixNM<Real, N, N>& g) { Str s = "["; for (int i = 0; i < N; i++) { std::vector<double> r; for (int j = 0; j < N; j++) r.push_back(g(i, j)); s += (i ? "," : "") + arr(r); } return s + "]"; }
template <int N> std::vector<double> vn(const VectorN<Real, N>& v) { std::vector<double> r; for (int i = 0; i < N; i++) r.push_back(v[i]); return r; }
template <int K, int N> struct Con { static void put(Ev& e, const typename TT<K, N>::T& t, int i, int j) { typename TT<K - 2, N>::T r(K - 2, 0); Str x = guarded([&] { r = t.Contract(i, j); }); e.kv("err", x).kv("r", Raw{jt<K - 2, N>(r)}); } };
template <int N> struct Con<2, N> { static void put(Ev& e, const Tensor2<N>& t, int, int) { double r = 0; Str x = guarded([&] { r = t.Contract(); }); e.kv("err", x).kv("r", Raw{"{\"c\":[" + num(r) + "]}"}); } };
template <int N> struct Con<3, N> { static void put(Ev& e, const Tensor3<N>& t, int i, int j) { VectorN<Real, N> r; Str x = guarded([&] { r = t.Contract(i, j); }); e.kv("err", x).kv("r", Raw{"{\"c\":" + arr(vn<N>(r)) + "}"}); } };
template <int K, int N> static void fill(Rng& R, typename TT<K, N>::T& t, bool real) { int n = 1; for (int i = 0; i < K; i++) n *= N; for (int p = 0; p < n; p++) { int x[5], q = p; for (int i = K - 1; i >= 0; i--) { x[i] = q % N; q /= N; } TT<K, N>::el(t, x) = real ? R.uni(-3, 3) : R.range(-9, 9); } }
template <int K, int N> static void flags(Rng& R, typename TT<K, N>::T& t) { for (int i = 0; i < K; i++) if (R.chance(1, 3)) t.setContravar(i, R.chance(1, 2)); }
template <int K, int N> struct Arith { static void go(Rng&, const typename TT<K, N>::T&, const typename TT<K, N>::T&) {} };
#define OPS(...) kv("ops", Raw{"[" + __VA_ARGS__ + "]"})
template <int K, int N> static void ctor(int lo, int hi) { typename TT<K, N>::T r(K, 0); Str x = guarded([&] { r = typename TT<K, N>::T(lo, hi); }); Ev e("new"); e.kv("k", K).kv("n", N).kv("lo", lo).kv("hi", hi).kv("vals", Raw{"[]"}).kv("err", x).kv("r", Raw{jt<K, N>(r)}); emit(e); }
template <int K, int N> struct Lst { static void go(int, int) {} };
template <int N> struct Lst<2, N> { static void go(int lo, int hi) { Tensor2<N> r(2, 0); { Str x = guarded([&] { r = Tensor2<N>(lo, hi, {1, 2, 3}); }); Ev e("new"); e.kv("k", 2).kv("n", N).kv("lo", lo).kv("hi", hi).kv("vals", Raw{"[1,2,3]"}).kv("err", x).kv("r", Raw{jt<2, N>(r)}); emit(e); } { Str x = guarded([&] { r = Tensor2<N>(lo, hi, {1, 2, 3, 4, 5, 6, 7, 8, 9}); }); Ev e("new"); e.kv("k", 2).kv("n", N).kv("lo", lo).kv("hi", hi).kv("vals", Raw{"[1,2,3,4,5,6,7,8,9]"}).kv("err", x).kv("r", Raw{jt<2, N>(r)}); emit(e); } } };
template <int N> struct Lst<3, N> { static void go(int lo, int hi) { Tensor3<N> r(3, 0); { Str x = guarded([&] { r = Tensor3<N>(lo, hi, {1, 2, 3, 4, 5, 6, 7}); }); Ev e("new"); e.kv("k", 3).kv("n", N).kv("lo", lo).kv("hi", hi).kv("vals", Raw{"[1,2,3,4,5,6,7]"}).kv("err", x).kv("r", Raw{jt<3, N>(r)}); emit(e); } { Str x = guarded([&] { r = Tensor3<N>(lo, hi, {1, 2, 3, 4, 5, 6, 7, 8, 9}); }); Ev e("new"); e.kv("k", 3).kv("n", N).kv("lo", lo).kv("hi", hi).kv("vals", Raw{"[1,2,3,4,5,6,7,8,9]"}).kv("err", x).kv("r", Raw{jt<3, N>(r)}); emit(e); } } };
template <int N> struct Arith<2, N> { static void go(Rng& R, const Tensor2<N>& a, const Tensor2<N>& b) {
  Str ops = jt<2, N>(a) + "," + jt<2, N>(b); Tensor2<N> r(2, 0);
  for (int o = 0; o < 2; o++) { Str x = guarded([&] { r = o ? a - b : a + b; }); Ev e(o ? "sub" : "add"); e.OPS(ops).kv("after", Raw{"[" + arr(comps<2, N>(a)) + "," + arr(comps<2, N>(b)) + "]"}).kv("err", x).kv("r", Raw{jt<2, N>(r)}); emit(e); }
  for (int o = 0; o < 3; o++) { int s = R.range(-4, 4); if (o == 2) s = R.chance(1, 2) ? 4 : -2; Str x = guarded([&] { r = o == 0 ? a * s : o == 1 ? Real(s) * a : a / s; }); Ev e("scale"); e.OPS(jt<2, N>(a)).kv("after", Raw{"[" + arr(comps<2, N>(a)) + "]"}).kv("v", o == 2 ? 1.0 / s : (double)s).kv("err", x).kv("r", Raw{jt<2, N>(r)}); emit(e); }
  FixMetric<N> m; for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) m.g(i, j) = m.g(j, i) = i == j ? R.range(4, 9) * (R.chance(1, 4) ? -1 : 1) : R.range(-1, 1); VectorN<Real, N> pos;
  for (int i = -1; i <= 2; i++) for (int o = 0; o < 2; o++) { Str x = guarded([&] { r = o ? m.LowerIndex(a, i, pos) : m.RaiseIndex(a, i, pos); }); Ev e("move"); e.OPS(jt<2, N>(a)).kv("after", Raw{"[" + arr(comps<2, N>(a)) + "]"}).kv("i", i).kv("dir", o ? "lower" : "raise").kv("g", Raw{jg<N>(m.g)}).kv("tol", 1e-11).kv("err", x).kv("r", Raw{jt<2, N>(r)}); emit(e);
    if (x.empty()) { Tensor2<N> q(2, 0); x = guarded([&] { q = o ? m.RaiseIndex(r, i, pos) : m.LowerIndex(r, i, pos); }); Ev f("back"); f.kv("v", Raw{arr(comps<2, N>(a))}).kv("r", Raw{x.empty() ? arr(comps<2, N>(q)) : Str("[]")}).kv("tol", 1e-11); emit(f); } }
  VectorN<Real, N> v; for (int i = 0; i < N; i++) v[i] = R.range(-5, 5); for (int o = 0; o < 2; o++) { auto w = o ? m.LowerIndex(v, pos) : m.RaiseIndex(v, pos); Ev e("movev"); e.kv("dir", o ? "lower" : "raise").kv("g", Raw{jg<N>(m.g)}).kv("v", Raw{arr(vn<N>(v))}).kv("r", Raw{arr(vn<N>(w))}).kv("tol", 1e-11); emit(e); auto g = m(pos); Ev f("read"); (void)f; }
} };
template <int K, int N> static void run(Rng& R, int reps) {
  typedef typename TT<K, N>::T T;
  for (int q = 0; q < reps; q++) { out.begin("k" + std::to_string(K) + "n" + std::to_string(N) + "-" + std::to_string(q));
    if (q == 0) for (int lo = -1; lo <= K + 1; lo++) for (int hi = -1; hi <= K + 1; hi++) { ctor<K, N>(lo, hi); Lst<K, N>::go(lo, hi); }
    int lo = R.range(0, K), lo2 = R.chance(1, 2) ? lo : R.range(0, K); T a(lo, K - lo), b(lo2, K - lo2); fill<K, N>(R, a, false); fill<K, N>(R, b, false);
    if (R.chance(1, 2)) flags<K, N>(R, a); if (R.chance(1, 2)) flags<K, N>(R, b);
    { T c = a; int i = R.range(0, K - 1); bool v = R.chance(1, 2); c.setContravar(i, v); Ev e("flag"); e.OPS(jt<K, N>(a)).kv("after", Raw{"[" + arr(comps<K, N>(a)) + "]"}).kv("i", i).kv("v", v).kv("err", "").kv("r", Raw{jt<K, N>(c)}); emit(e); }
    for (int w = 0; w < 6; w++) { int x[5]; std::vector<int> ix; for (int i = 0; i < K; i++) { x[i] = R.chance(1, 14) ? (R.chance(1, 2) ? -1 : N) : R.range(0, N - 1); ix.push_back(x[i]); } bool in = true; for (int i = 0; i < K; i++) in = in && x[i] >= 0 && x[i] < N;
      T c = a; int v = R.range(10, 99); bool un = in && w % 2; Str er = guarded([&] { (un ? TT<K, N>::el(c, x) : TT<K, N>::at(c, x)) = v; }); Ev e("write"); e.OPS(jt<K, N>(a)).kv("after", Raw{"[" + arr(comps<K, N>(a)) + "]"}).kv("ix", ix).kv("v", v).kv("err", er).kv("r", Raw{jt<K, N>(c)}); emit(e);
      double rd = 0; er = guarded([&] { rd = TT<K, N>::cat(a, x); }); Ev f("read"); f.OPS(jt<K, N>(a)).kv("after", Raw{"[" + arr(comps<K, N>(a)) + "]"}).kv("ix", ix).kv("v", Raw{num(rd)}).kv("err", er); emit(f); }
    for (int i = (q % 3 ? 0 : -1); i < K + (q % 3 ? 0 : 1); i++) for (int j = (q % 3 ? 0 : -1); j < K + (q % 3 ? 0 : 1); j++) { if (K == 2 && (i || j)) continue; if (K > 3 && q % 3 && R.chance(1, 2)) continue; Ev e("contract"); e.OPS(jt<K, N>(a)).kv("after", Raw{"[" + arr(comps<K, N>(a)) + "]"}).kv("i", i).kv("j", j); Con<K, N>::put(e, a, i, j); emit(e); }
    { std::vector<VectorN<Real, N>> vs(K); Str s = "["; bool real = R.chance(1, 2); for (int i = 0; i < K; i++) { for (int j = 0; j < N; j++) vs[i][j] = real ? R.uni(-2, 2) : R.range(-3, 3); s += (i ? "," : "") + arr(vn<N>(vs[i])); } T c = a; if (real) fill<K, N>(R, c, true); double r = 0; Str er = guarded([&] { r = TT<K, N>::ev(c, vs); }); Ev e("eval"); e.OPS(jt<K, N>(c)).kv("after", Raw{"[" + arr(comps<K, N>(c)) + "]"}).kv("vs", Raw{s + "]"}).kv("v", Raw{num(r)}).kv("err", er); emit(e); }
    Arith<K, N>::go(R, a, b);
    out.end(); }
}
int main(int c, char** v) {
  Args a = args(c, v); Rng R(a.seed); out.open(a.out.c_str()); int m = a.thorough() ? 12 : 1;
  run<2, 1>(R, 4 * m); run<2, 2>(R, 40 * m); run<2, 3>(R, 40 * m); run<2, 4>(R, 20 * m); run<3, 2>(R, 30 * m); run<3, 3>(R, 30 * m); run<4, 2>(R, 15 * m); run<4, 3>(R, 10 * m); run<5, 2>(R, 8 * m); run<5, 3>(R, 3 * m);
  out.close(); return 0;
}
