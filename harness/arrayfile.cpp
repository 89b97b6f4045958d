// C14: records saves and loads of vectors and matrices, with truncated and damaged files
#include "vp.h"
#include "base/Vector/Vector.h"
#include "base/Matrix/Matrix.h"
#include "tools/serializer/MatrixIO.h"
#include "tools/serializer/VectorIO.h"
#include <climits>
#include <cfloat>
using namespace MML; using namespace vp; namespace S = MML::Serializer;
static Out out;
typedef std::string Str; typedef std::complex<double> Cd;
static std::vector<int> slurp(const Str& f) { std::ifstream i(f, std::ios::binary); std::vector<int> v; char c; while (i.get(c)) v.push_back((unsigned char)c); return v; }
static void dump(const Str& f, const std::vector<int>& b) { std::ofstream o(f, std::ios::binary); for (int c : b) o.put((char)c); }
template <class T> std::vector<int> raw(const T* p, size_t n) { std::vector<int> v; const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n * sizeof(T); i++) v.push_back(b[i]); return v; }
template <class T> struct K; template <> struct K<double> { static const char* n() { return "double"; } }; template <> struct K<float> { static const char* n() { return "float"; } };
template <> struct K<int> { static const char* n() { return "int"; } }; template <> struct K<Cd> { static const char* n() { return "complex"; } };
static void flatv(double x, std::vector<Raw>& v, std::vector<bool>& s) { v.push_back(Raw{js(x)}); s.push_back(std::signbit(x)); }
static void flatv(float x, std::vector<Raw>& v, std::vector<bool>& s) { flatv((double)x, v, s); }
static void flatv(int x, std::vector<Raw>& v, std::vector<bool>& s) { v.push_back(Raw{js((long long)x)}); s.push_back(x < 0); }
static void flatv(Cd x, std::vector<Raw>& v, std::vector<bool>& s) { flatv(x.real(), v, s); flatv(x.imag(), v, s); }
template <class T> void vals(Ev& e, const T* p, size_t n) { std::vector<Raw> v; std::vector<bool> s; for (size_t i = 0; i < n; i++) flatv(p[i], v, s); e.kv("v", v).kv("neg", s); }
template <class T> T rnd(Rng& R);
static double dbl(Rng& R) { static const std::vector<double> P = {0.0, -0.0, 1, -1, 0.1, 1.0 / 3, 1e-300, -1e300, DBL_MAX, -DBL_MAX, DBL_MIN, 4.9406564584124654e-324, -1e-310, 123456789.123456789, 1e15 + 0.3, 2.5, M_PI, 1 + DBL_EPSILON, 1e22, 9007199254740993.0};
  return R.chance(1, 2) ? R.pick(P) : R.chance(1, 2) ? R.uni(-1, 1) : std::ldexp(R.uni(-1, 1), R.range(-200, 200)); }
template <> double rnd<double>(Rng& R) { return dbl(R); }
template <> float rnd<float>(Rng& R) { static const std::vector<float> P = {0.f, -0.f, 0.1f, FLT_MAX, FLT_MIN, 1e-45f, 1.f / 3, 16777217.f}; return R.chance(1, 2) ? R.pick(P) : (float)R.uni(-100, 100); }
template <> int rnd<int>(Rng& R) { static const std::vector<int> P = {0, 1, -1, INT_MAX, INT_MIN, 1000000}; return R.chance(1, 2) ? R.pick(P) : R.range(-99, 99); }
template <> Cd rnd<Cd>(Rng& R) { return Cd(dbl(R), dbl(R)); }
template <class F> bool quiet(F f) { bool ok = false; Str x = guarded([&] { ok = f(); }); return x.empty() && ok; }
// file faults
static std::vector<std::vector<int>> faults(Rng& R, const std::vector<int>& f, int header, bool all) {
  std::vector<std::vector<int>> o; int n = f.size();
  for (int k = 0; k < n; k++) if (all || R.chance(1, 1 + n / 10)) o.push_back(std::vector<int>(f.begin(), f.begin() + k));
  static const std::vector<int> junk = {0, 1, 2, 255, 127, 128, '\n', ' ', ',', '-', '.', 'e', 'x', '9', '0', '(', ')', '\t', 13};
  for (int k = 0; k < (all ? 40 : 12); k++) { auto g = f; if (!n) break; int at = header && R.chance(2, 3) ? R.range(0, std::min(n, header) - 1) : R.range(0, n - 1); int b = R.chance(1, 4) ? f[at] ^ (1 << R.range(0, 7)) : R.pick(junk);
    switch (R.range(0, 4)) { case 0: g.insert(g.begin() + at, b); break; case 1: g.erase(g.begin() + at); break; default: g[at] = b; } o.push_back(g); }
  { auto g = f; g.push_back(R.pick(junk)); o.push_back(g); auto q = f; q.insert(q.end(), f.begin(), f.end()); o.push_back(q); }
  if (header) for (int w = 0; w < header / 4; w++) for (int k = 0; k < 3; k++) { auto g = f; for (int b = 0; b < 4 && w * 4 + b < n; b++) g[w * 4 + b] = k == 0 ? 255 : k == 1 ? 0 : (b == 3 ? 16 : 0); o.push_back(g); }
  return o;
}
template <class T> void loadMatBin(const std::vector<int>& f) { dump("m.bin", f); Matrix<T> M; Ev e("loadbin"); bool ok = quiet([&] { return S::LoadMatrixFromBinary("m.bin", M); });
  e.kv("file_kind", "matrix").kv("es", (int)sizeof(T)).kv("file", f).kv("ok", ok).kv("dims", std::vector<int>{M.rows(), M.cols()}).kv("data", ok ? raw(M.data(), (size_t)M.rows() * M.cols()) : std::vector<int>()); out.ev(e); }
template <class T> void loadVecBin(const std::vector<int>& f) { dump("v.bin", f); Vector<T> M; Ev e("loadbin"); bool ok = quiet([&] { return Vector<T>::LoadFromBinary("v.bin", M); });
  std::vector<T> c; if (ok) for (int i = 0; i < (int)M.size(); i++) c.push_back(M[i]);
  e.kv("file_kind", "vector").kv("es", (int)sizeof(T)).kv("file", f).kv("ok", ok).kv("dims", std::vector<int>{(int)M.size()}).kv("data", raw(c.data(), c.size())); out.ev(e); }
template <class T> std::vector<int> splitc(const std::vector<std::complex<T>>& v) { std::vector<T> c; for (auto& z : v) c.push_back(z.real()); for (auto& z : v) c.push_back(z.imag()); return raw(c.data(), c.size()); }
template <class T> void loadCpx(const std::vector<int>& f) { dump("c.bin", f); std::vector<std::complex<T>> M; Ev e("loadbin"); bool ok = quiet([&] { return S::LoadComplexVector("c.bin", M); });
  e.kv("file_kind", "complex").kv("es", (int)sizeof(T)).kv("file", f).kv("ok", ok).kv("dims", std::vector<int>{(int)M.size()}).kv("data", ok ? splitc(M) : std::vector<int>()); out.ev(e);
  std::vector<T> r; bool ok2 = quiet([&] { return S::LoadComplexAsReal("c.bin", r); }); out.ev(Ev("loadreal").kv("es", (int)sizeof(T)).kv("file", f).kv("ok", ok2).kv("dims", std::vector<int>{(int)r.size()}).kv("data", raw(r.data(), ok2 ? r.size() : 0)));
  Vector<T> w; bool ok3 = quiet([&] { return S::LoadComplexAsVector("c.bin", w); }); std::vector<T> ws; for (int i = 0; i < (int)w.size(); i++) ws.push_back(w[i]);
  out.ev(Ev("loadreal").kv("es", (int)sizeof(T)).kv("file", f).kv("ok", ok3).kv("dims", std::vector<int>{(int)ws.size()}).kv("data", raw(ws.data(), ok3 ? ws.size() : 0))); }
template <class T> void loadMatText(const std::vector<int>& f, bool csv) { dump("m.txt", f); Matrix<T> M; bool ok = quiet([&] { return csv ? S::LoadMatrixFromCSV("m.txt", M) : S::LoadMatrixFromFile("m.txt", M); });
  Ev e("loadtext"); e.kv("fmt", csv ? "csv" : "text").kv("kind", K<T>::n()).kv("nd", 2).kv("file", f).kv("ok", ok).kv("dims", std::vector<int>{M.rows(), M.cols()}); vals(e, M.data(), ok ? (size_t)M.rows() * M.cols() : 0); out.ev(e); }
template <class T> void loadVecText(const std::vector<int>& f) { dump("v.txt", f); Vector<T> M; bool ok = quiet([&] { return Vector<T>::LoadFromFile("v.txt", M); });
  std::vector<T> c; if (ok) for (int i = 0; i < (int)M.size(); i++) c.push_back(M[i]);
  Ev e("loadtext"); e.kv("fmt", "text").kv("kind", K<T>::n()).kv("nd", 1).kv("file", f).kv("ok", ok).kv("dims", std::vector<int>{(int)M.size()}); vals(e, c.data(), c.size()); out.ev(e); }
template <class T> struct IsC { enum { v = 0 }; }; template <> struct IsC<Cd> { enum { v = 1 }; };
template <class T> void matrix(Rng& R, const Str& id, bool all, bool special) {
  out.begin(id); int r = R.range(1, 4), c = R.range(1, 4); Matrix<T> M(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) M(i, j) = rnd<T>(R);
  if (special) { double* d = (double*)M.data(); if (sizeof(T) >= 8) { d[0] = std::numeric_limits<double>::infinity(); if (r * c > 1) d[1] = std::nan(""); } }
  auto bits = raw(M.data(), (size_t)r * c); std::vector<int> dims = {r, c};
  bool ok = quiet([&] { return S::SaveMatrixToBinary(M, "m.bin"); }); auto f = slurp("m.bin");
  out.ev(Ev("savebin").kv("file_kind", "matrix").kv("dims", dims).kv("es", (int)sizeof(T)).kv("data", bits).kv("file", f).kv("ok", ok && (size_t)f.size() == S::EstimateMatrixBinaryFileSize<T>(r, c)));
  // into an object that already has another shape
  Matrix<T> L(R.range(1, 5), R.range(1, 5)); ok = quiet([&] { return S::LoadMatrixFromBinary("m.bin", L); });
  out.ev(Ev("roundtrip").kv("ok", ok).kv("before", bits).kv("after", ok ? raw(L.data(), (size_t)L.rows() * L.cols()) : std::vector<int>()));
  loadMatBin<T>(f); if (!special) for (auto& g : faults(R, f, 24, all)) loadMatBin<T>(g);
  if (sizeof(T) == 8) loadMatBin<float>(f); else loadMatBin<double>(f); loadVecBin<T>(f); loadCpx<double>(f);
  for (int csv = 0; csv < (IsC<T>::v ? 1 : 2); csv++) { ok = quiet([&] { return csv ? S::SaveMatrixToCSV(M, "m.txt") : S::SaveMatrixToFile(M, "m.txt"); }); auto t = slurp("m.txt");
    Ev e("savetext"); e.kv("fmt", csv ? "csv" : "text").kv("kind", K<T>::n()).kv("dims", dims).kv("file", t).kv("ok", ok); vals(e, M.data(), (size_t)r * c); out.ev(e);
    if (!special) { Matrix<T> N(R.range(1, 5), R.range(1, 5)); ok = quiet([&] { return csv ? S::LoadMatrixFromCSV("m.txt", N) : S::LoadMatrixFromFile("m.txt", N); }); out.ev(Ev("roundtrip").kv("ok", ok).kv("before", bits).kv("after", ok ? raw(N.data(), (size_t)N.rows() * N.cols()) : std::vector<int>())); }
    loadMatText<T>(t, csv); if (!special) { for (auto& g : faults(R, t, csv ? 0 : 4, false)) loadMatText<T>(g, csv); loadMatText<T>(t, !csv && !IsC<T>::v); loadMatBin<T>(t); } }
  out.end();
}
template <class T> void vect(Rng& R, const Str& id, bool all) {
  out.begin(id); int n = R.range(0, 6); Vector<T> M(n); std::vector<T> c; for (int i = 0; i < n; i++) { M[i] = rnd<T>(R); c.push_back(M[i]); } auto bits = raw(c.data(), n); std::vector<int> dims = {n};
  bool ok = quiet([&] { return Vector<T>::SaveToBinary(M, "v.bin"); }); auto f = slurp("v.bin");
  out.ev(Ev("savebin").kv("file_kind", "vector").kv("dims", dims).kv("es", (int)sizeof(T)).kv("data", bits).kv("file", f).kv("ok", ok));
  auto back = [&](const Vector<T>& L) { std::vector<T> d; for (int i = 0; i < (int)L.size(); i++) d.push_back(L[i]); return raw(d.data(), d.size()); };
  Vector<T> L(R.range(0, 9)); ok = quiet([&] { return Vector<T>::LoadFromBinary("v.bin", L); }); out.ev(Ev("roundtrip").kv("ok", ok).kv("before", bits).kv("after", back(L)));
  loadVecBin<T>(f); for (auto& g : faults(R, f, 16, all)) loadVecBin<T>(g); if (sizeof(T) == 8) loadVecBin<float>(f); else loadVecBin<double>(f); loadMatBin<T>(f); loadCpx<double>(f);
  ok = quiet([&] { return Vector<T>::SaveToFile(M, "v.txt"); }); auto t = slurp("v.txt"); Ev e("savetext"); e.kv("fmt", "text").kv("kind", K<T>::n()).kv("dims", dims).kv("file", t).kv("ok", ok); vals(e, c.data(), n); out.ev(e);
  Vector<T> N(R.range(0, 9)); ok = quiet([&] { return Vector<T>::LoadFromFile("v.txt", N); }); out.ev(Ev("roundtrip").kv("ok", ok).kv("before", bits).kv("after", back(N)));
  loadVecText<T>(t); for (auto& g : faults(R, t, 2, false)) loadVecText<T>(g); loadVecBin<T>(t); loadMatText<T>(t, false); out.end();
}
template <class T> void cpx(Rng& R, const Str& id, bool all) {
  out.begin(id); int n = R.range(0, 5); std::vector<std::complex<T>> v; for (int i = 0; i < n; i++) v.push_back({rnd<T>(R), rnd<T>(R)});
  bool ok = quiet([&] { return S::SaveComplexVector(v, "c.bin"); }); auto f = slurp("c.bin");
  out.ev(Ev("savebin").kv("file_kind", "complex").kv("dims", std::vector<int>{n}).kv("es", (int)sizeof(T)).kv("data", splitc(v)).kv("file", f).kv("ok", ok));
  loadCpx<T>(f); for (auto& g : faults(R, f, 16, all)) loadCpx<T>(g); loadVecBin<T>(f); loadMatBin<T>(f);
  std::vector<T> r; std::vector<std::complex<T>> z; Vector<T> w(n); for (int i = 0; i < n; i++) { r.push_back(v[i].real()); z.push_back({v[i].real(), T(0)}); w[i] = v[i].real(); }
  for (int k = 0; k < 2; k++) { ok = quiet([&] { return k ? S::SaveVectorAsComplex(w, "c.bin") : S::SaveRealAsComplex(r, "c.bin"); }); out.ev(Ev("savebin").kv("file_kind", "complex").kv("dims", std::vector<int>{n}).kv("es", (int)sizeof(T)).kv("data", splitc(z)).kv("file", slurp("c.bin")).kv("ok", ok)); }
  out.end();
}
int main(int c, char** v) {
  Args a = args(c, v); Rng R(a.seed); out.open(a.out.c_str()); int N = a.thorough() ? 40 : 5; std::cerr.rdbuf(nullptr);
  for (int i = 0; i < N; i++) { bool all = i < 2; Str s = std::to_string(i);
    matrix<double>(R, "mat-d" + s, all, false); matrix<double>(R, "mat-special" + s, all, true); matrix<float>(R, "mat-f" + s, all, false); matrix<int>(R, "mat-i" + s, all, false); matrix<Cd>(R, "mat-c" + s, all, false);
    vect<double>(R, "vec-d" + s, all); vect<float>(R, "vec-f" + s, all); vect<int>(R, "vec-i" + s, all); vect<Cd>(R, "vec-c" + s, all); cpx<double>(R, "cpx-d" + s, all); cpx<float>(R, "cpx-f" + s, all); }
  out.begin("cannot"); Matrix<double> M(2, 2); Vector<double> w(3000); std::vector<Cd> z(3); auto no = [&](const Str& w, bool ok) { out.ev(Ev("cannot").kv("what", w).kv("ok", ok)); };
  for (Str n : {"none.bin", "no/dir/x", "."}) { Matrix<double> L; Vector<double> x; std::vector<Cd> y; std::vector<double> r;
    no("lmb " + n, quiet([&] { return S::LoadMatrixFromBinary(n, L); })); no("lmf " + n, quiet([&] { return S::LoadMatrixFromFile(n, L); })); no("lmc " + n, quiet([&] { return S::LoadMatrixFromCSV(n, L); }));
    no("lvb " + n, quiet([&] { return Vector<double>::LoadFromBinary(n, x); })); no("lvf " + n, quiet([&] { return Vector<double>::LoadFromFile(n, x); })); no("lc " + n, quiet([&] { return S::LoadComplexVector(n, y); })); no("lr " + n, quiet([&] { return S::LoadComplexAsReal(n, r); })); no("lx " + n, quiet([&] { return S::LoadComplexAsVector(n, x); })); }
  for (Str n : {"no/dir/x", ".", "/dev/full"}) {
    no("smb " + n, quiet([&] { return S::SaveMatrixToBinary(M, n); })); no("smf " + n, quiet([&] { return S::SaveMatrixToFile(M, n); })); no("smc " + n, quiet([&] { return S::SaveMatrixToCSV(M, n); }));
    no("svb " + n, quiet([&] { return Vector<double>::SaveToBinary(w, n); })); no("svf " + n, quiet([&] { return Vector<double>::SaveToFile(w, n); })); no("sc " + n, quiet([&] { return S::SaveComplexVector(z, n); })); }
  out.end(); out.close(); return 0;
}
