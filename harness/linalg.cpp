// C01: records call sequences on dense vectors and matrices (dynamic and fixed size)
#include "vp.h"
#include "base/Vector/Vector.h"
#include "base/Vector/VectorN.h"
#include "base/Matrix/Matrix.h"
#include "base/Matrix/MatrixNM.h"
#include "base/BaseUtils.h"
#include <sstream>
using namespace MML; using namespace vp;
typedef std::string Str; typedef std::complex<double> Cd;
static Out out;
static std::string num(double x) { return std::fabs(x) < 1e9 && x == std::floor(x) && !(x == 0 && std::signbit(x)) ? std::to_string((long)x) : js(x); }
static Str sc(double x) { return "[" + num(x) + ",0]"; }
static Str sc(float x) { return sc((double)x); }
static Str sc(int x) { return sc((double)x); }
static Str sc(Cd x) { return "[" + num(x.real()) + "," + num(x.imag()) + "]"; }
template <class V> Str jv(const V& v) { Str s = "["; for (int i = 0; i < (int)v.size(); i++) s += (i ? "," : "") + sc(v[i]); return s + "]"; }
template <class M> Str jm(const M& m) { Str s = "{\"r\":" + std::to_string(m.rows()) + ",\"c\":" + std::to_string(m.cols()) + ",\"d\":["; for (int i = 0; i < m.rows(); i++) { s += i ? ",[" : "["; for (int j = 0; j < m.cols(); j++) s += (j ? "," : "") + sc(m(i, j)); s += "]"; } return s + "]}"; }
struct E { Str op; int t = 1, a = 1, b = 1, i = 0, j = 0, k = 0, l = 0, x = 0; };
template <class T> struct Ty { static T of(double a, double) { return (T)a; } enum { cpx = 0 }; static double mag(T x) { return std::fabs((double)x); } static double lim() { return sizeof(T) == 4 ? 1e6 : 1e9; } };
template <> struct Ty<Cd> { static Cd of(double a, double b) { return Cd(a, b); } enum { cpx = 1 }; static double mag(Cd x) { return std::max(std::fabs(x.real()), std::fabs(x.imag())); } static double lim() { return 1e9; } };
template <class T> T fillv(int k, int x) { return Ty<T>::of(((k * 7 + x * 3) % 11 + 11) % 11 - 5, ((k * 5 + x) % 7 + 7) % 7 - 3); }
template <class T> T scal(int x) { return Ty<T>::of(x, (x * x) % 3 - 1); }
static Ev base(const E& e) { Ev v(e.op); v.kv("t", e.t).kv("a", e.a).kv("b", e.b).kv("i", e.i).kv("j", e.j).kv("k", e.k).kv("l", e.l).kv("x", e.x); return v; }
template <class T> struct Ul { static void unit(Vector<T>& v, int n, int i) { v = Vector<T>::UnitVector(n, i); } enum { ok = 1 }; };
template <> struct Ul<Cd> { static void unit(Vector<Cd>&, int, int) {} enum { ok = 0 }; };
template <class T> struct Run {
  typedef Matrix<T> Mt; typedef Vector<T> Vt;
  Mt M[4]; Vt V[4];
  double big(const Mt& m) { double b = 0; for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) b = std::max(b, Ty<T>::mag(m(i, j))); return b; }
  double big(const Vt& m) { double b = 0; for (int i = 0; i < m.size(); i++) b = std::max(b, Ty<T>::mag(m[i])); return b; }
  static bool pow2(T x) { double m = Ty<T>::mag(x); int e; return m > 0 && std::frexp(m, &e) == 0.5 && (Ty<T>::cpx ? x == T(Ty<T>::mag(x)) || x == T(-Ty<T>::mag(x)) : true); }
  bool apply(const E& e) {   // false: not applicable (kept out of the record)
    Mt &A = M[e.a], &B = M[e.b], &Q = M[e.t]; Vt &va = V[e.a], &vb = V[e.b], &vt = V[e.t]; T x = scal<T>(e.x); int i = e.i, j = e.j, k = e.k, n = e.l; const Str& o = e.op;
    auto inM = [&](const Mt& m, int p, int q) { return p >= 0 && p < m.rows() && q >= 0 && q < m.cols(); };
    double L = Ty<T>::lim(), mul = std::sqrt(L / 8);
    if ((o == "mul" || o == "comm" || o == "acomm") && (big(A) > mul / 2 || big(B) > mul / 2)) return false;
    if ((o == "mv" || o == "vm") && (big(A) > mul || big(vb) > mul)) return false;
    if (o == "outer" && (big(va) > mul || big(vb) > mul)) return false;
    if ((o == "add" || o == "subt") && (big(A) > L / 4 || big(B) > L / 4)) return false;
    if ((o == "addeq" || o == "subeq") && (big(A) > L / 4 || big(Q) > L / 4)) return false;
    if ((o == "scale" || o == "lscale") && big(A) > L / 16) return false; if (o == "scaleeq" && big(Q) > L / 16) return false; if ((o == "scaleeqel" || o == "scaleel") && (big(Q) > mul || !inM(Q, i, j))) return false;
    if (o == "vadd" || o == "vsub") if (big(va) > L / 4 || big(vb) > L / 4) return false; if (o == "vaddeq" || o == "vsubeq") if (big(va) > L / 4 || big(vt) > L / 4) return false;
    if ((o == "vscale" || o == "vlscale") && big(va) > L / 16) return false; if (o == "vscaleeq" && big(vt) > L / 16) return false; if (o == "vscaleeqel" && (big(vt) > mul || i < 0 || i >= vt.size())) return false;
    if (o == "diveqel" && !(inM(Q, i, j) && pow2(Q(i, j)) && big(Q) < 4096)) return false; if (o == "vdiveqel" && !(i >= 0 && i < vt.size() && pow2(vt[i]))) return false;
    if ((o == "div" || o == "diveq" || o == "vdiv" || o == "vdiveq") && !(e.x == 2 || e.x == -2 || e.x == 4 || e.x == 1)) return false;
    if ((o == "vset" || o == "vinsel" || o == "vpushel" || o == "veraseel" || o == "verase") && (i < 0 || i >= vt.size() || (o == "vinsel" && (j < 0 || j >= vt.size())))) return false;
    if (o == "vins" && (i < 0 || i > vt.size())) return false; if (o == "verase2" && (i < 0 || j < i || j > vt.size())) return false;
    if (o == "vresize" && n < 0) return false; if (o == "vunit" && !Ul<T>::ok) return false; if (o == "vfill" && n < 0) return false; if (vt.size() > 8 && o[0] == 'v' && (o == "vpush" || o == "vpushel" || o == "vins" || o == "vinsel")) return false;
    if (o == "set" && !inM(Q, i, j)) return false; if (o == "elset" && !(inM(Q, i, j) && inM(A, k, n))) return false; if (o == "newlist" && n > 6) return false;
    std::vector<Str> pm, pv; for (int p = 1; p <= 3; p++) { pm.push_back(jm(M[p])); pv.push_back(jv(V[p])); }
    Str err = guarded([&] {
      if (o == "new") Q = Mt(i, j); else if (o == "newval") Q = Mt(i, j, x);
      else if (o == "newptr") { std::vector<T> d; for (int z = 0; z < std::max(0, i) * std::max(0, j); z++) d.push_back(fillv<T>(z, e.x)); d.push_back(T(0)); Q = Mt(i, j, d.data(), k == 1); }
      else if (o == "newlist") { T f[6]; for (int z = 0; z < 6; z++) f[z] = fillv<T>(z, e.x); bool st = k == 1;
        switch (n) { case 0: Q = Mt(i, j, std::initializer_list<T>{}, st); break; case 1: Q = Mt(i, j, {f[0]}, st); break; case 2: Q = Mt(i, j, {f[0], f[1]}, st); break; case 3: Q = Mt(i, j, {f[0], f[1], f[2]}, st); break; case 4: Q = Mt(i, j, {f[0], f[1], f[2], f[3]}, st); break; case 5: Q = Mt(i, j, {f[0], f[1], f[2], f[3], f[4]}, st); break; default: Q = Mt(i, j, {f[0], f[1], f[2], f[3], f[4], f[5]}, st); } }
      else if (o == "newvv") { if (i < 0 || j < 0) Q = Mt(i, j); else { std::vector<std::vector<T>> d; for (int p = 0; p < i; p++) { d.push_back({}); for (int q = 0; q < j - (k == 1 && p == i - 1 ? 1 : 0); q++) d[p].push_back(fillv<T>(p * j + q, e.x)); } Q = Mt(d); } }
      else if (o == "ident") Q = Mt::Identity(i); else if (o == "diag") Q = e.x % 2 && va.size() ? Utils::DiagonalMatrixFromVector(va) : Mt::Diagonal(va);
      else if (o == "copy") { if (k) { Mt c(A); Q = c; } else Q = A; } else if (o == "move") { if (k && e.t != e.a) { Mt c(std::move(A)); Q = std::move(c); } else Q = std::move(A); } else if (o == "swap") std::swap(Q, A);
      else if (o == "set") { if (k) Q[i][j] = x; else Q(i, j) = x; } else if (o == "atset") Q.at(i, j) = x; else if (o == "elset") Q(i, j) = A(k, n);
      else if (o == "resize") Q.Resize(i, j, k == 1); else if (o == "sub") Q = e.x % 2 ? Mt(A, i, j, k, n) : A.GetSubmatrix(i, j, k, n);
      else if (o == "blockset") { auto w = Q.block(i, j, k, n); for (int p = 0; p < w.rows(); p++) for (int q = 0; q < w.cols(); q++) w(p, q) = x; }
      else if (o == "rowset") Q.InitRowWithVector(i, va); else if (o == "colset") Q.InitColWithVector(i, va);
      else if (o == "rowfill") { for (auto& z : Q.row(i)) z = x; } else if (o == "colfill") { for (auto& z : Q.col(i)) z = x; }
      else if (o == "swaprows") Q.SwapRows(i, j); else if (o == "swapcols") Q.SwapCols(i, j);
      else if (o == "add") Q = A + B; else if (o == "subt") Q = A - B; else if (o == "addeq") Q += A; else if (o == "subeq") Q -= A; else if (o == "mul") Q = A * B;
      else if (o == "scale") Q = A * x; else if (o == "lscale") Q = x * A; else if (o == "scaleeq") Q *= x; else if (o == "scaleeqel") Q *= Q(i, j); else if (o == "scaleel") Q = Q * Q(i, j); else if (o == "diveqel") Q /= Q(i, j);
      else if (o == "div") Q = A / T(e.x); else if (o == "diveq") Q /= T(e.x); else if (o == "neg") Q = -A; else if (o == "trans") Q = A.transpose(); else if (o == "transeq") Q.Transpose(); else if (o == "unit") Q.MakeUnitMatrix();
      else if (o == "lower") Q = A.GetLower(k == 1); else if (o == "upper") Q = A.GetUpper(k == 1); else if (o == "comm") Q = Utils::Commutator(A, B); else if (o == "acomm") Q = Utils::AntiCommutator(A, B);
      else if (o == "rowm") Q = Utils::RowMatrixFromVector(va); else if (o == "colm") Q = Utils::ColumnMatrixFromVector(va); else if (o == "outer") Q = Utils::OuterProduct(va, vb);
      else if (o == "vnew") vt = Vt(n); else if (o == "vnewval") vt = Vt(n, x); else if (o == "vfill") { std::vector<T> d; for (int z = 0; z < n; z++) d.push_back(fillv<T>(j == 1 ? z % 2 : z, e.x)); if (k == 0) vt = Vt(d); else { d.push_back(T(0)); vt = Vt(n, d.data()); } }
      else if (o == "vunit") Ul<T>::unit(vt, n, i); else if (o == "vcopy") { if (k) { Vt c(va); vt = c; } else vt = va; } else if (o == "vmove") { if (e.t != e.a) vt = std::move(va); }
      else if (o == "vset") vt[i] = x; else if (o == "vatset") vt.at(i) = x; else if (o == "vpush") vt.push_back(x); else if (o == "vpushel") vt.push_back(vt[i]); else if (o == "vins") vt.insert(i, x); else if (o == "vinsel") vt.insert(i, vt[j]);
      else if (o == "verase") vt.erase(i); else if (o == "verase2") vt.erase(i, j); else if (o == "veraseval") { const T& c = x; vt.erase(c); } else if (o == "veraseel") { const T& c = vt[i]; vt.erase(c); }
      else if (o == "vclear") vt.Clear(); else if (o == "vresize") vt.Resize(n); else if (o == "vadd") vt = va + vb; else if (o == "vsub") vt = va - vb; else if (o == "vaddeq") vt += va; else if (o == "vsubeq") vt -= va;
      else if (o == "vneg") vt = -va; else if (o == "vscale") vt = va * x; else if (o == "vlscale") vt = x * va; else if (o == "vscaleeq") vt *= x; else if (o == "vscaleeqel") vt *= vt[i]; else if (o == "vdiveqel") vt /= vt[i]; else if (o == "vdiv") vt = va / T(e.x); else if (o == "vdiveq") vt /= T(e.x);
      else if (o == "mv") vt = A * vb; else if (o == "vm") vt = vb * A; else if (o == "rowv") vt = A.VectorFromRow(i); else if (o == "colv") vt = A.VectorFromColumn(i); else if (o == "diagv") vt = A.diagonal();
      else { fprintf(stderr, "unknown op %s\n", o.c_str()); exit(3); }
    });
    Ev v = base(e); v.kv("err", err); Str cm = "[", cv = "[";
    for (int p = 1; p <= 3; p++) { Str q = jm(M[p]); if (q != pm[p - 1]) cm += (cm.size() > 1 ? "," : "") + Str("[") + std::to_string(p) + "," + q + "]"; q = jv(V[p]); if (q != pv[p - 1]) cv += (cv.size() > 1 ? "," : "") + Str("[") + std::to_string(p) + "," + q + "]"; }
    v.kv("M", Raw{cm + "]"}).kv("V", Raw{cv + "]"}); out.ev(v);
    if (o == "vmove" || o == "move") out.ev(full()); return true;
  }
  Ev full() { Ev v("all"); Str a = "[", b = "["; for (int p = 1; p <= 3; p++) { a += (p > 1 ? "," : "") + jm(M[p]); b += (p > 1 ? "," : "") + jv(V[p]); } v.kv("M", Raw{a + "]"}).kv("V", Raw{b + "]"}); return v; }
  template <class F> Str val(F f) { Str r; Str e = guarded([&] { r = f(); }); return e.empty() ? r : "\"" + e + "\""; }
  static Str jr(double x) { return num(x); }
  void query(int a, int b, int va, int vb, int i, int j) { const Mt &A = M[a], &B = M[b]; const Vt &u = V[va], &w = V[vb]; Ev v("q"); v.kv("a", a).kv("b", b).kv("va", va).kv("vb", vb).kv("i", i).kv("j", j);
    auto bo = [&](const char* n, bool x) { v.kv(n, x); }; auto q = [&](const char* n, Str s) { bool e = s[0] == '"' && (s[1] == 'M' || s[1] == 'V' || s[1] == 'n' && s[2] == 'o'); v.kv(n, Raw{e ? "0" : s}); v.kv((Str(n) + "E").c_str(), Raw{e ? s : "\"\""}); };
    bo("eq", A == B); bo("ne", A != B); bo("iseq", A.IsEqualTo(B)); bo("areeq", Mt::AreEqual(A, B)); bo("sym", A.isSymmetric()); bo("anti", A.isAntiSymmetric()); bo("dia", A.isDiagonal()); bo("idn", A.isIdentity()); bo("zero", A.isZero()); bo("sq", A.isSquare()); bo("emp", A.isEmpty());
    bo("dd", A.isSquare() && A.isDiagonallyDominant()); q("trace", val([&] { return sc(A.trace()); })); q("at", val([&] { return sc(A.at(i, j)); })); q("n1", jr(A.NormL1())); q("n2", jr(A.NormL2())); q("ninf", jr(A.NormLInf()));
    q("veq", val([&] { return Str(u == w ? "true" : "false"); })); q("viseq", val([&] { return Str(u.IsEqualTo(w) ? "true" : "false"); })); bo("vz", u.isZero()); bo("vnz", u.isNearZero()); q("vat", val([&] { return sc(u.at(i)); })); q("vn1", jr(u.NormL1())); q("vn2", jr(u.NormL2())); q("vninf", jr(u.NormLInf())); q("dot", val([&] { return dot(u, w); }));
    int cnt = 0; for (auto z : A) { (void)z; cnt++; } v.kv("cnt", cnt); out.ev(v); }
  Str dot(const Vector<double>& u, const Vector<double>& w) { return sc(Utils::ScalarProduct(u, w)); } Str dot(const Vector<Cd>& u, const Vector<Cd>& w) { return sc(Utils::ScalarProduct(u, w)); } Str dot(const Vector<float>&, const Vector<float>&) { return "\"none\""; }
  void start(const Str& id) { out.begin(id); out.ev(Ev("type").kv("cpx", (bool)Ty<T>::cpx).kv("flt", sizeof(T) == 4).kv("err", "")); }
  void random(const Str& id, Rng& R, int steps) { start(id); static const std::vector<Str> ops = {"new","newval","newptr","newptr","newptr","newlist","newvv","ident","diag","copy","copy","move","swap","set","atset","elset","resize","resize","sub","blockset","rowset","colset","rowfill","colfill","swaprows","swapcols","add","subt","addeq","subeq","mul","mul","scale","lscale","scaleeq","scaleeqel","scaleel","diveqel","div","diveq","neg","trans","transeq","unit","lower","upper","comm","acomm","rowm","colm","outer","vnew","vnewval","vfill","vfill","vfill","vunit","vcopy","vmove","vset","vatset","vpush","vpushel","vins","vinsel","verase","verase2","veraseval","veraseel","vclear","vresize","vadd","vsub","vaddeq","vsubeq","vneg","vscale","vlscale","vscaleeq","vscaleeqel","vdiveqel","vdiv","vdiveq","mv","vm","rowv","colv","diagv"};
    int hi = R.chance(1, 6) ? 6 : 3; for (int s = 0; s < steps; s++) { E e; e.op = R.pick(ops); e.t = R.range(1, 3); e.a = R.range(1, 3); e.b = R.range(1, 3); int lo = R.chance(1, 8) ? -1 : 0; e.i = R.range(lo, hi); e.j = R.chance(1, 2) ? e.i : R.range(lo, hi); e.k = R.range(0, 1); e.l = R.range(lo, hi); e.x = R.range(-3, 4);
      if (e.op.compare(0, 3, "new") == 0 || e.op == "resize") { if (R.chance(2, 3)) { e.i = R.range(1, hi); e.j = R.chance(1, 2) ? e.i : R.range(1, hi); } if (e.op == "newlist") { e.l = R.chance(2, 3) ? std::max(0, std::min(6, e.i * e.j)) : R.range(0, 6); } }
      if (e.op == "sub" || e.op == "blockset") { e.i = R.range(lo, 2); e.j = R.range(lo, 2); e.k = R.range(lo, hi); e.l = R.range(lo, hi); } if (e.op == "elset") e.k = R.range(0, hi);
      if (e.op == "diveqel" && M[e.t].rows() > e.i && e.i >= 0 && e.j >= 0 && M[e.t].cols() > e.j) { E g = e; g.op = "set"; g.x = Ty<T>::cpx ? 4 : 2; if (!Ty<T>::cpx) apply(g); }
      if (R.chance(3, 5)) { int r = R.range(1, hi), k = R.range(1, hi), n = R.chance(1, 4) ? r : R.range(1, hi); auto pm = [&](int t, int r, int c) { E g; g.op = "newptr"; g.t = t; g.i = r; g.j = c; g.k = R.range(0, 1); g.x = R.range(0, 9); apply(g); }; auto pv = [&](int t, int n, bool dup = false) { E g; g.op = "vfill"; g.t = t; g.l = n; g.x = R.range(0, 9); g.k = R.range(0, 1); g.j = dup; apply(g); }; const Str& o = e.op;
        if (o == "mul") { pm(e.a, r, e.a == e.b ? r : k); if (e.a != e.b) pm(e.b, k, n); } else if (o == "add" || o == "subt") { pm(e.a, r, k); if (e.b != e.a) pm(e.b, r, k); } else if (o == "addeq" || o == "subeq") { pm(e.a, r, k); if (e.t != e.a) pm(e.t, r, k); } else if (o == "comm" || o == "acomm") { pm(e.a, r, r); if (e.b != e.a) pm(e.b, r, r); }
        else if (o == "mv") { pm(e.a, r, k); pv(e.b, k); } else if (o == "vm") { pm(e.a, k, r); pv(e.b, k); } else if (o == "rowset") { pm(e.t, r, k); pv(e.a, k); } else if (o == "colset") { pm(e.t, r, k); pv(e.a, r); } else if (o == "transeq" || o == "scaleeqel" || o == "diveqel") pm(e.t, r, r); else if (o == "lower" || o == "upper" || o == "diagv") pm(e.a, r, r); else if (o == "sub" || o == "trans" || o == "rowv" || o == "colv" || o == "neg" || o == "div") pm(e.a, r, k);
        else if (o == "resize" || o == "blockset" || o == "swaprows" || o == "swapcols" || o == "rowfill" || o == "colfill" || o == "elset" || o == "atset") pm(e.t, r, k); else if (o == "vadd" || o == "vsub" || o == "outer") { pv(e.a, k); if (e.a != e.b) pv(e.b, k); } else if (o == "vaddeq" || o == "vsubeq") { pv(e.a, k); if (e.a != e.t) pv(e.t, k); } else if (o == "veraseel" || o == "veraseval") pv(e.t, R.range(2, 8), true); else if (o[0] == 'v' && o != "vfill") pv(e.t, R.range(1, 5)); }
      apply(e); if (R.chance(1, 3)) query(R.range(1, 3), R.range(1, 3), R.range(1, 3), R.range(1, 3), R.range(-1, hi), R.range(-1, hi));
    } out.ev(full()); out.end(); }
};
// fixed-size objects, square: the same calls where they exist
template <class T, int N> struct Fix {
  typedef MatrixNM<T, N, N> Mt; typedef VectorN<T, N> Vt; Mt M[4]; Vt V[4];
  double big(const Mt& m) { double b = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) b = std::max(b, Ty<T>::mag(m(i, j))); return b; }
  double big(const Vt& m) { double b = 0; for (int i = 0; i < N; i++) b = std::max(b, Ty<T>::mag(m[i])); return b; }
  bool apply(const E& e) { Mt &A = M[e.a], &B = M[e.b], &Q = M[e.t]; Vt &va = V[e.a], &vb = V[e.b], &vt = V[e.t]; T x = scal<T>(e.x); int i = e.i, j = e.j, k = e.k; const Str& o = e.op; double L = Ty<T>::lim(), mul = std::sqrt(L / 8);
    if (big(A) > L / 16 || big(B) > L / 16 || big(Q) > L / 16 || big(va) > L / 16 || big(vb) > L / 16 || big(vt) > L / 16) { if (o != "newptr" && o != "vfill") return false; }
    if ((o == "mul" || o == "scaleeqel" || o == "scaleel" || o == "mv" || o == "vm" || o == "vscaleeqel") && (big(A) > mul / 2 || big(B) > mul / 2 || big(Q) > mul / 2 || big(vb) > mul / 2 || big(vt) > mul / 2)) return false;
    bool ij = i >= 0 && i < N && j >= 0 && j < N; if (!ij && o != "atset" && o != "vatset") return false; if (o == "diveqel" || o == "vdiveqel") if (!Run<T>::pow2(vt[i])) return false;
    if ((o == "div" || o == "vdiv" || o == "vdiveq") && !(e.x == 2 || e.x == -2 || e.x == 4)) return false;
    std::vector<Str> pm, pv; for (int p = 1; p <= 3; p++) { pm.push_back(jm(M[p])); pv.push_back(jv(V[p])); }
    E g = e; bool miss = false;
    Str err = guarded([&] {
      if (o == "newptr") { std::vector<T> d; for (int z = 0; z < N * N; z++) d.push_back(fillv<T>(z, e.x)); Q = Mt(d.data(), d.size()); g.i = g.j = N; g.k = 1; }
      else if (o == "ident") { Q = Mt::Identity(); g.i = N; } else if (o == "copy") { if (k) { Mt c(A); Q = c; } else Q = A; } else if (o == "swap") std::swap(Q, A);
      else if (o == "set") { if (k) Q[i][j] = x; else Q(i, j) = x; } else if (o == "atset") Q.at(i, j) = x; else if (o == "add") Q = A + B; else if (o == "subt") Q = A - B; else if (o == "mul") Q = A * B; else if (o == "scale") Q = A * x; else if (o == "lscale") Q = x * A; else if (o == "scaleeq") Q *= x;
      else if (o == "scaleeqel") Q *= Q(i, j); else if (o == "scaleel") Q = Q * Q(i, j); else if (o == "div") Q = A / T(e.x); else if (o == "neg") Q = -A; else if (o == "trans") Q = A.transpose(); else if (o == "transeq") Q.Transpose(); else if (o == "unit") Q.MakeUnitMatrix(); else if (o == "lower") Q = A.GetLower(k == 1); else if (o == "upper") Q = A.GetUpper(k == 1);
      else if (o == "vfill") { std::vector<T> d; g.j = 0; for (int z = 0; z < N; z++) d.push_back(fillv<T>(z, e.x)); if (k) vt = Vt(d); else vt = Vt(d.data()); g.l = N; } else if (o == "vunit") { vt = Vt::UnitVector(i); g.l = N; } else if (o == "vnew") { vt.clear(); g.l = N; } else if (o == "vnewval") { vt = Vt(x); g.l = N; }
      else if (o == "vcopy") vt = va; else if (o == "vset") vt[i] = x; else if (o == "vatset") vt.at(i) = x; else if (o == "vadd") vt = va + vb; else if (o == "vsub") vt = va - vb; else if (o == "vaddeq") vt += va; else if (o == "vsubeq") vt -= va; else if (o == "vneg") vt = -va; else if (o == "vscale") vt = va * x; else if (o == "vlscale") vt = x * va; else if (o == "vscaleeq") vt *= x; else if (o == "vscaleeqel") vt *= vt[i]; else if (o == "vdiveqel") vt /= vt[i]; else if (o == "vdiv") vt = va / T(e.x); else if (o == "vdiveq") vt /= T(e.x);
      else if (o == "mv") vt = A * vb; else if (o == "vm") vt = vb * A; else if (o == "rowv") vt = A.VectorFromRow(i); else if (o == "colv") vt = A.VectorFromColumn(i); else if (o == "diagv") vt = A.VectorFromDiagonal(); else miss = true; });
    if (miss) return false;
    Ev v = base(g); v.kv("err", err); Str cm = "[", cv = "["; for (int p = 1; p <= 3; p++) { Str q = jm(M[p]); if (q != pm[p - 1]) cm += (cm.size() > 1 ? "," : "") + Str("[") + std::to_string(p) + "," + q + "]"; q = jv(V[p]); if (q != pv[p - 1]) cv += (cv.size() > 1 ? "," : "") + Str("[") + std::to_string(p) + "," + q + "]"; }
    v.kv("M", Raw{cm + "]"}).kv("V", Raw{cv + "]"}); out.ev(v); return true; }
  void random(const Str& id, Rng& R, int steps) { out.begin(id); out.ev(Ev("type").kv("cpx", (bool)Ty<T>::cpx).kv("flt", sizeof(T) == 4).kv("err", "")); 
    for (int p = 1; p <= 3; p++) { E e; e.op = "newptr"; e.t = p; e.i = e.j = 0; e.x = R.range(-3, 4); // from the empty objects of the specification
      std::vector<T> d; for (int z = 0; z < N * N; z++) d.push_back(fillv<T>(z, e.x)); M[p] = Mt(d.data(), d.size()); e.i = e.j = N; e.k = 1; Ev v = base(e); out.ev(v.kv("err", "").kv("M", Raw{"[[" + std::to_string(p) + "," + jm(M[p]) + "]]"}).kv("V", Raw{"[]"})); 
      e.op = "vfill"; e.l = N; V[p] = Vt(std::vector<T>(d.begin(), d.begin() + N)); Ev w = base(e); out.ev(w.kv("err", "").kv("M", Raw{"[]"}).kv("V", Raw{"[[" + std::to_string(p) + "," + jv(V[p]) + "]]"})); }
    static const std::vector<Str> ops = {"newptr","ident","copy","swap","set","atset","add","subt","mul","mul","scale","lscale","scaleeq","scaleeqel","scaleel","div","neg","trans","transeq","unit","lower","upper","vfill","vunit","vnew","vnewval","vcopy","vset","vatset","vadd","vsub","vaddeq","vsubeq","vneg","vscale","vlscale","vscaleeq","vscaleeqel","vdiveqel","vdiv","vdiveq","mv","vm","rowv","colv","diagv"};
    for (int s = 0; s < steps; s++) { E e; e.op = R.pick(ops); e.t = R.range(1, 3); e.a = R.range(1, 3); e.b = R.range(1, 3); int lo = R.chance(1, 8) ? -1 : 0; e.i = R.range(lo, N - 1 + (lo ? 1 : 0)); e.j = R.range(lo, N - 1); e.k = R.range(0, 1); e.x = R.range(-3, 4);
      if (e.op == "vdiveqel" && e.i >= 0 && e.i < N && !Ty<T>::cpx) { E g = e; g.op = "vset"; g.x = 2; g.j = 0; apply(g); } if (e.op == "diveqel") continue; apply(e);
      if (R.chance(1, 3)) { int a = R.range(1, 3), b = R.range(1, 3); Mt &A = M[a], &B = M[b]; Vt &u = V[a], &w = V[b]; Ev v("fq"); v.kv("a", a).kv("b", b).kv("eq", A == B).kv("ne", A != B).kv("iseq", A.IsEqualTo(B)).kv("trace", Raw{sc(A.Trace())}).kv("veq", u == w).kv("vne", u != w).kv("vz", u.isZero()).kv("vn1", Raw{num(u.NormL1())}).kv("vn2", Raw{num(u.NormL2())}).kv("vninf", Raw{num(u.NormLInf())}); out.ev(v); } }
    out.end(); }
};
template <class A, class B> void fun(const Str& n, const Str& a, const Str& b, A f, B err) { Str r; Str x = guarded([&] { r = f(); }); out.ev(Ev("fun").kv("f", n).kv("A", Raw{a}).kv("B", Raw{b}).kv("err", x).kv("R", Raw{x.empty() ? r : "0"})); (void)err; }
static void functions(Rng& R, int cases) {
  for (int c = 0; c < cases; c++) { out.begin("fun-" + std::to_string(c)); auto rm = [&](int r, int cc) { Matrix<double> m(r, cc); for (int i = 0; i < r; i++) for (int j = 0; j < cc; j++) m(i, j) = R.range(-9, 9); return m; }; auto cm = [&](int r, int cc) { Matrix<Cd> m(r, cc); for (int i = 0; i < r; i++) for (int j = 0; j < cc; j++) m(i, j) = Cd(R.range(-9, 9), R.range(-9, 9)); return m; };
    auto rv = [&](int n) { Vector<double> v(n); for (int i = 0; i < n; i++) v[i] = R.range(-9, 9); return v; }; auto cv = [&](int n) { Vector<Cd> v(n); for (int i = 0; i < n; i++) v[i] = Cd(R.range(-9, 9), R.range(-9, 9)); return v; };
    int r = R.range(1, 3), k = R.range(1, 3), n = R.range(1, 3), k2 = R.chance(1, 3) ? R.range(1, 3) : k, r2 = R.chance(1, 3) ? R.range(1, 3) : r; bool z = false;
    auto A = rm(r, k), B = rm(k2, n), D = rm(r2, k); auto CA = cm(r, k), CB = cm(k2, n), CD = cm(r2, k); auto v = rv(k2), w = rv(r2), v1 = rv(k); auto cvv = cv(k2), cw = cv(r2), cv1 = cv(k); Cd s(R.range(-3, 3), R.range(-3, 3));
    fun("madd", jm(CA), jm(D), [&] { return jm(Utils::AddMat(CA, D)); }, z); fun("madd", jm(A), jm(CD), [&] { return jm(Utils::AddMat(A, CD)); }, z); fun("msub", jm(CA), jm(D), [&] { return jm(Utils::SubMat(CA, D)); }, z); fun("msub", jm(A), jm(CD), [&] { return jm(Utils::SubMat(A, CD)); }, z);
    fun("mmul", jm(CA), jm(B), [&] { return jm(Utils::MulMat(CA, B)); }, z); fun("mmul", jm(A), jm(CB), [&] { return jm(Utils::MulMat(A, CB)); }, z); fun("smul", sc(s), jm(A), [&] { return jm(Utils::MulMat(s, A)); }, z); fun("smul", sc(s), jm(A), [&] { return jm(Utils::MulMat(A, s)); }, z);
    fun("mv", jm(A), jv(cvv), [&] { return jv(Utils::MulMatVec(A, cvv)); }, z); fun("mv", jm(CA), jv(v), [&] { return jv(Utils::MulMatVec(CA, v)); }, z); fun("vm", jv(cw), jm(A), [&] { return jv(Utils::MulVecMat(cw, A)); }, z); fun("vm", jv(w), jm(CA), [&] { return jv(Utils::MulVecMat(w, CA)); }, z);
    fun("vadd", jv(cv1), jv(v), [&] { return jv(Utils::AddVec(cv1, v)); }, z); fun("vadd", jv(v1), jv(cvv), [&] { return jv(Utils::AddVec(v1, cvv)); }, z); fun("vsub", jv(cv1), jv(v), [&] { return jv(Utils::SubVec(cv1, v)); }, z); fun("vsub", jv(v1), jv(cvv), [&] { return jv(Utils::SubVec(v1, cvv)); }, z); fun("vsmul", sc(s), jv(v), [&] { return jv(Utils::MulVec(s, v)); }, z); fun("vsmul", sc(s), jv(v), [&] { return jv(Utils::MulVec(v, s)); }, z);
    auto S = R.chance(1, 4) ? rm(r, k) : rm(r, r); Matrix<double> o1, o2; fun("decomp", jm(S), "0", [&] { Utils::MatrixDecomposeToSymAntisym(S, o1, o2); return "[" + jm(o1) + "," + jm(o2) + "]"; }, z);
    auto H = cm(r, R.chance(1, 5) ? k : r); int hk = R.range(0, 3); if (hk && H.rows() == H.cols()) { for (int i = 0; i < r; i++) for (int j = 0; j <= i; j++) H(j, i) = i == j ? Cd(H(i, i).real(), hk == 3 ? 2 : 0) : std::conj(H(i, j)); if (hk == 2) H(R.range(0, r - 1), R.range(0, r - 1)) += 1.0; }
    fun("herm", jm(H), "0", [&] { return js(Utils::IsHermitian(H)); }, z); fun("realp", jm(H), "0", [&] { return jm(Utils::GetRealPart(H)); }, z); fun("imagp", jm(H), "0", [&] { return jm(Utils::GetImagPart(H)); }, z); fun("ctrans", jm(H), "0", [&] { return jm(Utils::GetConjugateTranspose(H)); }, z); fun("isreal", jm(H), "0", [&] { return js(Utils::IsComplexMatReal(H)); }, z); fun("same", jm(S), "0", [&] { return jm(Utils::CmplxMatFromRealMat(S)); }, z);
    { Matrix<double> P(r, r); std::vector<int> p; for (int i = 0; i < r; i++) p.push_back(i); for (int i = r - 1; i > 0; i--) std::swap(p[i], p[R.range(0, i)]); for (int i = 0; i < r; i++) P(i, p[i]) = R.chance(1, 2) ? 1 : -1; if (R.chance(1, 3)) P(R.range(0, r - 1), R.range(0, r - 1)) = R.range(-1, 2); fun("orth", jm(P), "0", [&] { return js(Utils::IsOrthogonal(P)); }, z); }
    std::vector<Vector<double>> vs; for (int i = 0; i < r; i++) vs.push_back(rv(k)); Str jvs = "["; for (int i = 0; i < r; i++) jvs += (i ? "," : "") + jv(vs[i]); jvs += "]"; fun("rowsm", jvs, "0", [&] { return jm(Utils::MatrixFromVectorsInRows(vs)); }, z); fun("colsm", jvs, "0", [&] { return jm(Utils::MatrixFromVectorsInColumns(vs)); }, z);
    MatrixNM<double, 2, 3> P; MatrixNM<double, 3, 4> Q; VectorN<double, 3> q3; VectorN<double, 2> q2; for (int i = 0; i < 3; i++) { q3[i] = R.range(-9, 9); for (int j = 0; j < 4; j++) Q(i, j) = R.range(-9, 9); } for (int i = 0; i < 2; i++) { q2[i] = R.range(-9, 9); for (int j = 0; j < 3; j++) P(i, j) = R.range(-9, 9); }
    fun("mmul", jm(P), jm(Q), [&] { return jm(P * Q); }, z); fun("mv", jm(P), jv(q3), [&] { return jv(P * q3); }, z); fun("vm", jv(q2), jm(P), [&] { return jv(q2 * P); }, z); fun("trans", jm(P), "0", [&] { return jm(P.transpose()); }, z); fun("madd", jm(P), jm(P), [&] { return jm(P + P); }, z); fun("rowsel", jm(P), "1", [&] { return jv(P.VectorFromRow(1)); }, z); fun("colsel", jm(P), "2", [&] { return jv(P.VectorFromColumn(2)); }, z);
    // a scalar makes a multiple of the unit matrix; short lists are completed with zeros
    fun("sunit", sc(2.0), "3", [&] { return jm(MatrixNM<double, 3, 3>(2.0)); }, z); fun("listnm", jv(std::vector<double>{1, 2, 3, 4}), "0", [&] { return jm(MatrixNM<double, 2, 3>{1.0, 2.0, 3.0, 4.0}); }, z); fun("vlist", jv(std::vector<double>{1, 2}), "3", [&] { return jv(VectorN<double, 3>{1.0, 2.0}); }, z); fun("vlist", jv(std::vector<double>{1, 2, 3, 4}), "3", [&] { return jv(VectorN<double, 3>(std::vector<double>{1, 2, 3, 4})); }, z);
    fun("same", jm(Q), "0", [&] { return jm(MatrixNM<double, 3, 4>{{Q(0, 0), Q(0, 1), Q(0, 2), Q(0, 3)}, {Q(1, 0), Q(1, 1), Q(1, 2), Q(1, 3)}, {Q(2, 0), Q(2, 1), Q(2, 2), Q(2, 3)}}); }, z);
    // rounding: one division
    for (int q = 0; q < 4; q++) { Vector<double> d(3); for (int i = 0; i < 3; i++) d[i] = R.uni(-1, 1) * std::pow(10, R.range(-8, 8)); double y = R.uni(0.1, 9); Matrix<double> dm(1, 3); for (int i = 0; i < 3; i++) dm(0, i) = d[i]; Str ys = "[" + js(y) + ",0]"; fun("vdiv", jv(d), ys, [&] { return jv(d / y); }, z); fun("vdiv", jv(d), ys, [&] { auto c = d; c /= y; return jv(c); }, z); fun("mdiv", jm(dm), ys, [&] { return jm(dm / y); }, z); fun("mdiv", jm(dm), ys, [&] { auto c = dm; c /= y; return jm(c); }, z); fun("mscale", jm(dm), ys, [&] { return jm(dm * y); }, z); fun("vscale", jv(d), ys, [&] { return jv(d * y); }, z); }
    out.end(); }
}
template <class T> void script(const Str& id, const std::vector<E>& s) { Run<T> r; r.start(id); int n = 0; for (auto& e : s) { r.apply(e); if (++n % 4 == 0) r.query(1 + n % 3, 1 + (n / 4) % 3, 1 + (n / 2) % 3, 1 + n % 3, n % 3, n % 2); } out.ev(r.full()); out.end(); }
int main(int c, char** v) {
  Args a = args(c, v); Rng R(a.seed); out.open(a.out.c_str()); bool th = a.thorough(); int N = th ? 400 : 30, len = th ? 120 : 60;
  if (!a.script.empty()) { std::ifstream f(a.script); Str ln; int k = 0; while (std::getline(f, ln)) { std::vector<E> s; std::stringstream ss(ln); Str part; while (std::getline(ss, part, ';')) { std::stringstream p(part); E e; p >> e.op >> e.t >> e.a >> e.b >> e.i >> e.j >> e.k >> e.l >> e.x; s.push_back(e); } Str id = "s" + std::to_string(k); switch (k % 3) { case 0: script<double>(id + "d", s); break; case 1: script<Cd>(id + "c", s); break; default: script<float>(id + "f", s); } k++; } }
  for (int i = 0; i < N; i++) { Str s = std::to_string(i); { Run<double> r; r.random("d" + s, R, len); } { Run<Cd> r; r.random("c" + s, R, len); } if (i % 3 == 0) { Run<float> r; r.random("f" + s, R, len); }
    { Fix<double, 3> r; r.random("x3d" + s, R, len / 2); } { Fix<Cd, 2> r; r.random("x2c" + s, R, len / 2); } if (i % 3 == 0) { Fix<double, 1> r; r.random("x1d" + s, R, 20); Fix<float, 4> q; q.random("x4f" + s, R, len / 2); } }
  functions(R, th ? 400 : 40);
  out.close(); return 0;
}
