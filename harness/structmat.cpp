// C02: records call sequences on symmetric, tridiagonal, band-diagonal and three-index matrices
#include "vp.h"
#include "base/Vector/Vector.h"
#include "base/Matrix/Matrix.h"
#include "base/Matrix/MatrixSym.h"
#include "base/Matrix/MatrixTriDiag.h"
#include "base/Matrix/MatrixBandDiag.h"
#include "base/Matrix/Matrix3D.h"
#include <optional>
#include <sstream>
using namespace MML; using namespace vp;
typedef std::string Str; typedef MatrixSym<double> Sy; typedef TridiagonalMatrix<double> Td; typedef BandDiagonalMatrix Bd; typedef Matrix3D<double> Cu; typedef Matrix<double> Mt; typedef Vector<double> Vt;
static Out out;
static Str num(double x) { return std::fabs(x) < 1e9 && x == std::floor(x) ? std::to_string((long)x) : js(x); }
static Str sc(double x) { return "[" + num(x) + ",0]"; }
template <class V> Str jv(const V& v) { Str s = "["; for (int i = 0; i < (int)v.size(); i++) s += (i ? "," : "") + sc(v[i]); return s + "]"; }
template <class M> Str jm(const M& m) { Str s = "{\"r\":" + std::to_string(m.rows()) + ",\"c\":" + std::to_string(m.cols()) + ",\"d\":["; for (int i = 0; i < m.rows(); i++) { s += i ? ",[" : "["; for (int j = 0; j < m.cols(); j++) s += (j ? "," : "") + sc(m(i, j)); s += "]"; } return s + "]}"; }
static double fl(int k, int x) { return ((k * 7 + x * 3) % 11 + 11) % 11 - 5; }
static Vt fv(int n, int x) { Vt v(n); for (int i = 0; i < n; i++) v[i] = fl(i, x); return v; }
static Mt fm(int r, int c, int x) { Mt m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = fl(i * c + j, x); return m; }
struct E { Str op; int t = 1, a = 1, b = 1, i = 0, j = 0, k = 0, l = 0, x = 0; };
static bool okd(int x) { return x == 1 || x == 2 || x == -2 || x == 4; }
template <class F> struct Lists { };
struct RunBase {
  std::string ret; bool used = false;
  bool inn(int i, int n) { return i >= 0 && i < n; }
  Ev base(const E& e) { Ev v(e.op); v.kv("t", e.t).kv("a", e.a).kv("b", e.b).kv("i", e.i).kv("j", e.j).kv("k", e.k).kv("l", e.l).kv("x", e.x); return v; }
};
template <class T> Str slot(const T&);
template <> Str slot(const Sy& m) { return "{\"p\":[],\"L\":[" + jm(m) + "]}"; }
template <> Str slot(const std::optional<Td>& m) { const std::optional<Td>& c = m; Str d = "{\"r\":0,\"c\":0,\"d\":[]}"; if (c) { const Td& q = *c; d = jm(q); } return "{\"p\":[],\"L\":[" + d + "]}"; }
template <> Str slot(const std::optional<Bd>& m) { if (!m) return "{\"p\":[0,0],\"L\":[{\"r\":0,\"c\":0,\"d\":[]}]}"; const Bd& q = *m; return "{\"p\":[" + std::to_string(q.GetLowerBandwidth()) + "," + std::to_string(q.GetUpperBandwidth()) + "],\"L\":[" + jm(q) + "]}"; }
template <> Str slot(const Cu& m) { Str s = "{\"p\":[" + std::to_string(m.dim1()) + "," + std::to_string(m.dim2()) + "," + std::to_string(m.dim3()) + "],\"L\":["; for (int i = 0; i < m.dim1(); i++) { Str r = "["; for (int j = 0; j < m.dim2(); j++) { r += j ? ",[" : "["; for (int k = 0; k < m.dim3(); k++) r += (k ? "," : "") + sc(i % 2 ? m[i][j][k] : m(i, j, k)); r += "]"; } s += (i ? Str(",") : Str("")) + "{\"r\":" + std::to_string(m.dim2()) + ",\"c\":" + std::to_string(m.dim3()) + ",\"d\":" + r + "]}"; } return s + "]}"; }
static double big(const Sy& m) { double b = 0; for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.rows(); j++) b = std::max(b, std::fabs(m(i, j))); return b; }
template <class T> double bigo(const std::optional<T>& m) { double b = 0; if (m) { const T& q = *m; for (int i = 0; i < q.rows(); i++) for (int j = 0; j < q.rows(); j++) b = std::max(b, std::fabs(q(i, j))); } return b; }
static double big(const std::optional<Td>& m) { return bigo(m); } static double big(const std::optional<Bd>& m) { return bigo(m); }
static double big(const Cu& m) { double b = 0; for (int i = 0; i < m.size(); i++) b = std::max(b, std::fabs(m.data()[i])); return b; }
template <class T> struct Ops;
template <> struct Ops<Sy> { static const char* cls() { return "sym"; }
  static int apply(Sy* S, const E& e, Str& ret) { Sy &A = S[e.a], &B = S[e.b], &Q = S[e.t]; const Str& o = e.op; int i = e.i, j = e.j, n = e.l; double x = e.x; const Sy& cA = A; auto in = [&](const Sy& m) { return i >= 0 && j >= 0 && i < m.rows() && j < m.rows(); };
    double L = 1e8; bool two = o == "add" || o == "subt";
    if (two && (big(A) > L || big(B) > L)) return 0; if ((o == "addeq" || o == "subeq") && (big(A) > L || big(Q) > L)) return 0; if ((o == "scale" || o == "lscale") && big(A) > L / 8) return 0; if (o == "scaleeq" && big(Q) > L / 8) return 0; if (o == "scaleeqel" && (!in(Q) || big(Q) > 5000)) return 0; if ((o == "div" || o == "diveq") && !okd(e.x)) return 0;
    if (o == "set" && !in(Q)) return 0; if ((o == "mulsym") && (big(A) > 5000 || big(B) > 5000)) return 0; if ((o == "mulmat" || o == "mv" || o == "vm" || o == "figs") && big(A) > 5000) return 0; if ((o == "mulmat" || o == "lower" || o == "upper" || o == "fromfull") && (i <= 0 || j <= 0)) return 0; if ((o == "diag" || o == "mv" || o == "vm") && n < 0) return 0;
    if (o == "new") Q = Sy(n); else if (o == "newval") Q = Sy(n, x); else if (o == "newlist") { if (n < 0) return 0; auto f = [&](int k) { return fl(k, e.x); };
      switch (e.k) { case 0: Q = Sy(n, std::initializer_list<double>{}); break; case 1: Q = Sy(n, {f(0)}); break; case 2: Q = Sy(n, {f(0), f(1)}); break; case 3: Q = Sy(n, {f(0), f(1), f(2)}); break; case 5: Q = Sy(n, {f(0), f(1), f(2), f(3), f(4)}); break; case 6: Q = Sy(n, {f(0), f(1), f(2), f(3), f(4), f(5)}); break; case 7: Q = Sy(n, {f(0), f(1), f(2), f(3), f(4), f(5), f(6)}); break; case 10: Q = Sy(n, {f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9)}); break; default: return 0; } }
    else if (o == "ident") Q = Sy::Identity(n); else if (o == "diag") Q = Sy::GetDiagonalMatrix(fv(n, e.x)); else if (o == "lower") Q = Sy::FromLower(fm(i, j, e.x)); else if (o == "upper") Q = Sy::FromUpper(fm(i, j, e.x)); else if (o == "fromfull") Q = Sy::FromFullMatrix(fm(i, j, e.x));
    else if (o == "copy") { if (e.k) { Sy c(A); Q = c; } else Q = A; } else if (o == "move") { if (e.k && e.t != e.a) { Sy c(std::move(A)); Q = std::move(c); } else Q = std::move(A); } else if (o == "swap") std::swap(Q, A);
    else if (o == "set") Q(i, j) = x; else if (o == "atset") Q.at(i, j) = x; else if (o == "resize") { if (e.k) Q.Resize(n, true); else if (n % 2) Q.Resize(n); else Q.Resize(n, false); } else if (o == "setval") { if (x == 0) Q.SetToZero(); else Q.SetToValue(x); }
    else if (o == "add") Q = A + B; else if (o == "subt") Q = A - B; else if (o == "addeq") Q += A; else if (o == "subeq") Q -= A; else if (o == "neg") Q = -A; else if (o == "scale") Q = A * x; else if (o == "lscale") Q = x * A; else if (o == "scaleeq") Q *= x; else if (o == "scaleeqel") Q *= Q(i, j); else if (o == "div") Q = A / x; else if (o == "diveq") Q /= x;
    else if (o == "asmat") ret = jm(A.GetAsMatrix()); else if (o == "mulsym") ret = jm(A * B); else if (o == "mulmat") ret = jm(A * fm(i, j, e.x)); else if (o == "mv") ret = jv(A * fv(n, e.x)); else if (o == "vm") ret = jv(fv(n, e.x) * A); else if (o == "rowv") ret = jv(A.VectorFromRow(i)); else if (o == "colv") ret = jv(A.VectorFromColumn(i)); else if (o == "diagv") ret = jv(A.VectorFromDiagonal());
    else if (o == "figs") ret = "[" + sc(cA.Trace()) + "," + sc(cA.NormFrobenius()) + "," + sc(cA.NormInf()) + "," + sc(cA.Norm1()) + "," + sc(cA.Dim()) + "," + sc((double)cA.size()) + "]"; else if (o == "cmp") { bool q = A.IsEqualTo(B); if (q != Sy::AreEqual(A, B)) ret = "\"inconsistent\""; else ret = js(q); }
    else if (o == "inv") ret = jm(A.GetInverse()); else return 0; return 1; }
  static std::vector<Str> ops() { return {"new", "newval", "newlist", "ident", "diag", "lower", "upper", "fromfull", "copy", "move", "swap", "set", "set", "set", "atset", "atset", "resize", "resize", "setval", "add", "subt", "addeq", "subeq", "neg", "scale", "lscale", "scaleeq", "scaleeqel", "div", "diveq", "asmat", "mulsym", "mulmat", "mv", "vm", "rowv", "colv", "diagv", "figs", "cmp", "inv", "inv"}; } };
template <> struct Ops<std::optional<Td>> { typedef std::optional<Td> O; static const char* cls() { return "tri"; }
  static int apply(O* S, const E& e, Str& ret) { O &A = S[e.a], &B = S[e.b], &Q = S[e.t]; const Str& o = e.op; int i = e.i, j = e.j, n = e.l; double x = e.x; double L = 1e8;
    if (o == "new") { if (n < 0 || n > 8) return 0; Vt a(n), d(n), c(n); for (int k = 0; k < n; k++) { a[k] = fl(k + 1, e.x); d[k] = fl(k + 21, e.x); c[k] = fl(k + 41, e.x); } if (e.k == 1) { int w = i % 3; (w == 0 ? a : w == 1 ? d : c).push_back(1); } Q = Td(n, a, d, c); return 1; }
    if (o == "newlist") { auto f = [&](int k) { return fl(k, e.x); }; switch (e.k) { case 1: Q = Td(n, {f(0)}); break; case 4: Q = Td(n, {f(0), f(1), f(2), f(3)}); break; case 6: Q = Td(n, {f(0), f(1), f(2), f(3), f(4), f(5)}); break; case 7: Q = Td(n, {f(0), f(1), f(2), f(3), f(4), f(5), f(6)}); break; case 10: Q = Td(n, {f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9)}); break; default: return 0; } return 1; }
    if (o == "set") { if (!Q || i < 0 || j < 0 || i >= Q->rows() || j >= Q->cols()) return 0; (*Q)(i, j) = x; return 1; }
    if (!A) return 0; bool two = o == "add" || o == "subt" || o == "cmp"; if (two && !B) return 0; if (big(A) > L / 8 || (two && big(B) > L)) return 0; if (o == "div" && !okd(e.x)) return 0;
    if (o == "copy") { Td c(*A); Q = c; } else if (o == "add") Q = *A + *B; else if (o == "subt") Q = *A - *B; else if (o == "scale") Q = *A * x; else if (o == "lscale") Q = x * *A; else if (o == "div") Q = *A / x; else if (o == "trans") Q = A->GetTranspose(); else if (o == "inv") A->GetInverse();
    else if (o == "cmp") ret = js(A->IsEqualTo(*B)); else if (o == "solve") ret = jv(A->Solve(fv(A->rows(), e.x))); else if (o == "solvebad") { if (e.k == 0) A->Solve(fv(A->rows() - 1, e.x)); else { Vt s(A->rows() - (e.k == 1)); A->Solve(fv(A->rows() + (e.k == 2), e.x), s); } }
    else return 0; return 1; }
  static std::vector<Str> ops() { return {"new", "new", "newlist", "set", "set", "set", "set", "set", "copy", "add", "subt", "scale", "lscale", "div", "trans", "inv", "cmp", "cmp", "solve", "solve", "solve", "solvebad"}; } };
template <> struct Ops<std::optional<Bd>> { typedef std::optional<Bd> O; static const char* cls() { return "band"; }
  static int apply(O* S, const E& e, Str& ret) { O &A = S[e.a], &B = S[e.b], &Q = S[e.t]; const Str& o = e.op; int i = e.i, j = e.j, n = e.l; double x = e.x; double L = 1e8;
    if (o == "new") { if (n <= 0 || i < 0 || j < 0) return 0; Q = Bd(n, i, j, fm(n + (e.k == 1), i + j + 1 + (e.k == 2), e.x)); return 1; }
    if (o == "set") { if (!Q || i < 0 || j < 0 || i >= Q->rows() || j >= Q->cols()) return 0; (*Q)(i, j) = x; return 1; }
    if (!A) return 0; bool two = o == "add" || o == "subt" || o == "cmp", inpl = o == "addeq" || o == "subeq" || o == "scaleeq" || o == "diveq" || o == "divzero"; if (two && !B) return 0; if (inpl && !Q) return 0; if (big(A) > L / 8 || (two && big(B) > L) || (inpl && big(Q) > L / 8)) return 0; if ((o == "div" || o == "diveq") && !okd(e.x)) return 0; if ((o == "mv" || o == "figs") && big(A) > 5000) return 0; if (o == "mv" && n < 0) return 0;
    const Bd& cA = *A;
    if (o == "copy") { Bd c(*A); Q = c; } else if (o == "add") Q = *A + *B; else if (o == "subt") Q = *A - *B; else if (o == "addeq") *Q += *A; else if (o == "subeq") *Q -= *A; else if (o == "neg") Q = -*A; else if (o == "scale") Q = *A * x; else if (o == "lscale") Q = x * *A; else if (o == "scaleeq") *Q *= x; else if (o == "div") Q = *A / x; else if (o == "diveq") *Q /= x; else if (o == "divzero") { if (e.k) *Q /= 0.0; else Q = *A / 0.0; }
    else if (o == "trans") Q = A->Transpose(); else if (o == "mv") ret = jv(cA * fv(n, e.x)); else if (o == "full") ret = jm(cA.ToFullMatrix()); else if (o == "inband") ret = js(cA.IsInBand(i, j)); else if (o == "cmp") ret = js(A->IsEqualTo(*B)); else if (o == "issym") ret = js(cA.IsSymmetric()); else if (o == "diagv") ret = jv(cA.GetDiagonal()); else if (o == "diagk") ret = jv(cA.GetDiagonal(i));
    else if (o == "figs") ret = "[" + sc(cA.Trace()) + "," + sc(cA.NormFrobenius()) + "," + sc(cA.NormInf()) + "," + sc(cA.GetDimension()) + "," + sc(cA.GetLowerBandwidth()) + "," + sc(cA.GetUpperBandwidth()) + "]"; else return 0; return 1; }
  static std::vector<Str> ops() { return {"new", "new", "set", "set", "set", "set", "set", "copy", "copy", "add", "subt", "addeq", "subeq", "neg", "scale", "lscale", "scaleeq", "div", "diveq", "divzero", "trans", "trans", "mv", "mv", "full", "inband", "cmp", "issym", "diagv", "diagk", "diagk", "figs"}; } };
template <> struct Ops<Cu> { static const char* cls() { return "cube"; }
  static int apply(Cu* S, const E& e, Str& ret) { Cu &A = S[e.a], &B = S[e.b], &Q = S[e.t]; const Str& o = e.op; int i = e.i, j = e.j, n = e.l; double x = e.x; double L = 1e8; auto in = [&](const Cu& m) { return i >= 0 && j >= 0 && n >= 0 && i < m.dim1() && j < m.dim2() && n < m.dim3(); };
    bool el = o == "scaleeqel" || o == "addeqel" || o == "diveqel"; if ((o == "set" || el) && !in(Q)) return 0; if (big(A) > L / 8 || big(B) > L / 8 || big(Q) > L / 8) { if (o != "fill" && o != "new" && o != "fillall" && o != "resize") return 0; } if (o == "scaleeqel" && big(Q) > 5000) return 0; if ((o == "div" || o == "diveq") && !okd(e.x)) return 0; if (o == "diveqel") { double d = std::fabs(Q(i, j, n)); int q; if (!(d > 0 && std::frexp(d, &q) == 0.5)) return 0; }
    if (o == "new") Q = Cu(i, j, n); else if (o == "newval") Q = Cu(i, j, n, x); else if (o == "resize") Q.Resize(i, j, n); else if (o == "resizeval") Q.Resize(i, j, n, x); else if (o == "copy") { if (e.k) { Cu c(A); Q = c; } else Q = A; } else if (o == "move") { if (e.k && e.t != e.a) { Cu c(std::move(A)); Q = std::move(c); } else if (e.t != e.a) Q = std::move(A); } else if (o == "swap") std::swap(Q, A);
    else if (o == "set") { if (e.k) Q[i][j][n] = x; else Q(i, j, n) = x; } else if (o == "atset") Q.At(i, j, n) = x; else if (o == "fill") Q.Fill(x); else if (o == "fillall") { for (int p = 0; p < Q.dim1(); p++) for (int q = 0; q < Q.dim2(); q++) for (int r = 0; r < Q.dim3(); r++) Q[p][q][r] = fl(q * Q.dim3() + r, e.x + p + 1); } else if (o == "apply") Q.Apply([&](double y) { return 2 * y + x; });
    else if (o == "add") Q = A + B; else if (o == "subt") Q = A - B; else if (o == "addeq") Q += A; else if (o == "subeq") Q -= A; else if (o == "scale") Q = A * x; else if (o == "scaleeq") Q *= x; else if (o == "div") Q = A / x; else if (o == "diveq") Q /= x; else if (o == "addsc") Q = A + x; else if (o == "addsceq") Q += x; else if (o == "scaleeqel") Q *= Q(i, j, n); else if (o == "addeqel") Q += Q(i, j, n); else if (o == "diveqel") Q /= Q(i, j, n);
    else if (o == "cmp") { bool q = A == B; ret = q == (A != B) ? "\"inconsistent\"" : js(q); } else if (o == "figs") { const Cu& c = A; ret = "[" + sc(c.size()) + "," + sc(c.isEmpty() ? 1 : 0) + "]"; } else return 0; return 1; }
  static std::vector<Str> ops() { return {"new", "newval", "resize", "resizeval", "resizeval", "copy", "copy", "move", "swap", "set", "set", "set", "atset", "fill", "fillall", "fillall", "fillall", "apply", "add", "subt", "addeq", "subeq", "scale", "scaleeq", "div", "diveq", "addsc", "addsceq", "scaleeqel", "addeqel", "diveqel", "cmp", "figs"}; } };
template <class T> struct Run : RunBase { T S[4];
  void start(const Str& id) { out.begin(id); Ev v("cls"); v.kv("cls", Str(Ops<T>::cls())); out.ev(v); }
  bool apply(const E& e) { std::vector<Str> p; for (int t = 1; t <= 3; t++) p.push_back(slot<T>(S[t])); Str r = "[]"; int ok = 1; out.at(e.op); Str err = guarded([&] { ok = Ops<T>::apply(S, e, r); }); if (!ok) return false;
    Ev v = base(e); Str ch = "["; for (int t = 1; t <= 3; t++) { Str q = slot<T>(S[t]); if (q != p[t - 1]) ch += (ch.size() > 1 ? "," : "") + Str("[") + std::to_string(t) + "," + q + "]"; } v.kv("err", err).kv("ch", Raw{ch + "]"}).kv("ret", Raw{r}); out.ev(v); return true; }
  void all() { Ev v("all"); Str s = "["; for (int t = 1; t <= 3; t++) s += (t > 1 ? "," : "") + slot<T>(S[t]); v.kv("S", Raw{s + "]"}); out.ev(v); }
  void random(const Str& id, Rng& R, int len) { start(id); auto ops = Ops<T>::ops(); bool cube = Str(Ops<T>::cls()) == "cube", band = Str(Ops<T>::cls()) == "band"; int n0 = R.range(2, 5), m1 = R.range(0, 3), m2 = R.range(0, 3);
    for (int t = 1; t <= 3; t++) { E e; e.op = "new"; e.t = t; e.l = std::max(n0, 3); e.x = R.range(-9, 9); if (cube) { e.i = 2; e.j = n0 % 3 + 1; e.l = 3; } if (band) { e.i = m1; e.j = m2; } apply(e); if (cube) { e.op = "fillall"; apply(e); } if (Str(Ops<T>::cls()) == "sym") { e.op = "lower"; e.i = e.j = n0; apply(e); } }
    for (int q = 0, tries = 0; q < len && tries < 4 * len; tries++) { E e; e.op = R.pick(ops); e.t = R.range(1, 3); e.a = R.range(1, 3); e.b = R.range(1, 3); e.x = R.range(-4, 4); e.k = R.range(0, 2); if (e.op == "newval" && !cube) e.k = 0;
      e.i = R.range(R.chance(1, 12) ? -1 : 0, 4); e.j = R.range(R.chance(1, 12) ? -1 : 0, 4); e.l = R.range(R.chance(1, 12) ? -1 : 0, 5); if (e.op == "resize") e.k = R.range(0, 1);
      if (e.op == "lower" || e.op == "upper" || e.op == "fromfull" || e.op == "mulmat") { e.i = R.range(1, 4); e.j = R.chance(1, 4) ? R.range(1, 4) : e.i; if (e.op == "mulmat") { e.i = n0; } }
      if (e.op == "newlist") { e.l = R.range(Ops<T>::cls() == Str("tri") ? 1 : 0, 4); e.k = R.chance(1, 5) ? R.pick(std::vector<int>{1, 6, 7}) : Ops<T>::cls() == Str("tri") ? 3 * e.l - 2 : e.l * (e.l + 1) / 2; }
      if ((e.op == "mv" || e.op == "vm") && !R.chance(1, 6)) e.l = std::max(n0, band ? 3 : 0); if (Str(Ops<T>::cls()) == "tri" && e.op == "new") { e.l = R.range(2, 5); e.k = R.chance(1, 6); } if (band && e.op == "new") { e.l = R.range(1, 5); e.i = R.range(0, 5); e.j = R.range(0, 5); e.k = R.chance(1, 6) ? R.range(1, 2) : 0; } if (band && e.op == "set") { e.j = e.i + R.range(-3, 3); } if (Str(Ops<T>::cls()) == "tri" && e.op == "set") e.j = e.i + R.range(-2, 2);
      if (e.op == "diagk") e.i = R.range(-6, 6); if (cube && (e.op == "new" || e.op == "newval" || e.op == "resize" || e.op == "resizeval")) { e.i = R.range(R.chance(1, 8) ? 0 : 1, 3); e.j = R.range(1, 3); e.l = R.range(R.chance(1, 8) ? -1 : 1, 3); }
      if (e.op == "diveqel" || e.op == "div" || e.op == "diveq") e.x = R.pick(std::vector<int>{1, 2, -2, 4}); if (apply(e)) q++; }
    all(); out.end(); } };
template <class T> void script(const Str& id, const std::vector<E>& s) { Run<T> r; r.start(id); int n = 0; for (auto& e : s) { r.apply(e); if (++n % 5 == 0) for (const char* o : {"cmp", "figs", "issym", "diagv"}) { E q; q.op = o; q.a = 1 + n % 3; q.b = 1 + (n / 5) % 3; if ((Str(o) == "issym" || Str(o) == "diagv" || Str(o) == "figs") && Str(Ops<T>::cls()) == "tri") continue; r.apply(q); } } r.all(); out.end(); }
int main(int c, char** v) {
  Args a = args(c, v); Rng R(a.seed); out.open(a.out.c_str()); bool th = a.thorough(); int N = th ? 400 : 40, len = th ? 120 : 60;
  if (!a.script.empty()) { std::ifstream f(a.script); Str ln; int k = 0; while (std::getline(f, ln)) { std::vector<E> s; std::stringstream ss(ln); Str part, cls; while (std::getline(ss, part, ';')) { std::stringstream p(part); E e; p >> e.op; if (cls.empty()) { cls = e.op; continue; } p >> e.t >> e.a >> e.b >> e.i >> e.j >> e.k >> e.l >> e.x; s.push_back(e); } Str id = "s" + std::to_string(k++) + cls; if (cls == "sym") script<Sy>(id, s); else if (cls == "tri") script<std::optional<Td>>(id, s); else if (cls == "band") script<std::optional<Bd>>(id, s); else script<Cu>(id, s); } }
  for (int i = 0; i < N; i++) { Str s = std::to_string(i); { Run<Sy> r; r.random("sym" + s, R, len); } { Run<std::optional<Td>> r; r.random("tri" + s, R, len); } { Run<std::optional<Bd>> r; r.random("band" + s, R, len); } { Run<Cu> r; r.random("cube" + s, R, len); } }
  out.close(); return 0;
}
