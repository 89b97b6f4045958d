// C29: tables built, re-formatted, printed and exported in every format; the text is recorded byte by byte
#include "vp.h"
#include "tools/ConsolePrinter.h"
#include <sstream>
#include <filesystem>
#include <unistd.h>
using namespace MML; using namespace vp;
static Out out;
typedef std::string Str; typedef std::vector<int> Codes;
static Codes codes(const Str& s) { Codes v; for (unsigned char c : s) v.push_back(c); return v; }
static Str lst(const std::vector<Str>& v) { Str s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i]; return s + "]"; }
struct Fm { ColumnFormat f{""}; };
static const char* fname(FormatType f) { return f == FormatType::General ? "general" : f == FormatType::Fixed ? "fixed" : f == FormatType::Scientific ? "sci" : f == FormatType::Hexadecimal ? "hex" : "integer"; }
static const char* aname(Alignment a) { return a == Alignment::Left ? "left" : a == Alignment::Right ? "right" : "center"; }
static Str colj(const ColumnFormat& f) { return "{\"name\":" + js(codes(f.name())) + ",\"w\":" + js(f.rawWidth()) + ",\"p\":" + js(f.precision()) + ",\"f\":" + js(fname(f.formatType())) + ",\"al\":" + js(aname(f.alignment())) + "}"; }
static const char* SN[] = {"none", "simple", "markdown", "rounded", "double", "bold"};
static const BorderStyle SB[] = {BorderStyle::None, BorderStyle::Simple, BorderStyle::Markdown, BorderStyle::Rounded, BorderStyle::Double, BorderStyle::Bold};
static const char* FN[] = {"con", "csv", "tsv", "md", "tex", "html"};
static const ExportFormat FE[] = {ExportFormat::Console, ExportFormat::CSV, ExportFormat::TSV, ExportFormat::Markdown, ExportFormat::LaTeX, ExportFormat::HTML};
static Str cellj(const Str& s) { return "{\"k\":\"s\",\"t\":" + js(codes(s)) + "}"; }
static Str cellj(int v) { return "{\"k\":\"i\",\"v\":" + js(v) + "}"; }
static Str cellj(double v) { return "{\"k\":\"d\",\"v\":" + js(v) + "}"; }
static bool g_plain = false;   // console texts hold no line break
static Str text(Rng& R, int maxlen) {
  static const std::vector<Str> P = {"a", "b", "x1", " ", ",", "\"", "\"\"", "|", "\\", "\\|", "\\\\", "&", "<", ">", "&amp;", "<b>", "{", "}", "$", "%", "#", "_", "^", "~", "'", ";", "-", "\xc3\xa9", "\xe2\x94\x82", "\xf0\x9f\x98\x80", ":", "*", "`", "=", "td", "/"};
  static const std::vector<Str> W = {"\n", "\t", "\r\n", "\r", "\n\n"};
  Str s; int n = R.range(0, maxlen); for (int i = 0; i < n; i++) s += (!g_plain && R.chance(1, 6)) ? R.pick(W) : R.pick(P); return s; }
static Str value(Rng& R, Str*) { return R.chance(1, 8) ? Str("plain") : text(R, 6); }
static int value(Rng& R, int*) { return R.chance(1, 3) ? R.range(0, 20) : R.range(0, 2000000000); }
static double value(Rng& R, double*) { switch (R.range(0, 7)) { case 0: return R.range(-20, 20); case 1: return R.pick(std::vector<double>{0.0, -0.0, 1e6, 999999.5, 0.5, 2.5, 1e-4, 9.9999e-5, 123456, 1234567, INFINITY, -INFINITY, NAN, 99.95, 0.1}); case 2: return R.uni(-1, 1) * std::pow(10, R.range(-12, 12)); default: return R.uni(-100, 100); } }
static ColumnFormat fmt(Rng& R, bool ints, bool dbl) { g_plain = true; ColumnFormat f(R.chance(1, 2) ? R.pick(std::vector<Str>{"x", "value", "T[K]"}) : text(R, 4)); g_plain = false;
  if (R.chance(2, 3)) f.width(R.pick(std::vector<int>{0, 1, 3, 8, 12, 20})); if (R.chance(1, 3)) f.autoWidth(); if (R.chance(2, 3)) f.precision(R.range(0, 9)); f.align(R.pick(std::vector<Alignment>{Alignment::Left, Alignment::Right, Alignment::Center}));
  std::vector<FormatType> T = {FormatType::General, FormatType::Fixed, FormatType::Scientific}; if (ints) { T = {FormatType::General, FormatType::Integer, FormatType::Hexadecimal}; } f.format(R.pick(T)); (void)dbl; return f; }
template <class T> static bool nl(const T&) { return false; }
static bool nl(const Str& s) { return s.find_first_of("\n\r\t") != Str::npos || s.find("<br>") != Str::npos; }
template <class A, class B> struct Tab {
  TablePrinter<A, B> t; std::vector<ColumnFormat> cols; std::vector<A> tags; std::vector<std::vector<B>> rows; Rng& R; bool breaks = false;
  static constexpr bool AI = std::is_same<A, int>::value, BI = std::is_same<B, int>::value;
  static TablePrinter<A, B> mk(const std::vector<ColumnFormat>& c, bool names) { if (names) { std::vector<Str> n; for (size_t i = 1; i < c.size(); i++) n.push_back(c[i].name()); return TablePrinter<A, B>(c[0].name(), n); } return TablePrinter<A, B>(c[0], std::vector<ColumnFormat>(c.begin() + 1, c.end())); }
  Tab(Rng& r, std::vector<ColumnFormat> c, bool names) : t(mk(c, names)), cols(c), R(r) {
    Ev v("new"); std::vector<Str> cj; for (auto& x : cols) { if (names) x = ColumnFormat(x.name()); cj.push_back(colj(x)); } out.ev(v.kv("cols", Raw{lst(cj)})); }
  void add(int n) { A a = value(R, (A*)0); std::vector<B> b; std::vector<Str> cj = {cellj(a)}; for (int i = 0; i < n; i++) { b.push_back(value(R, (B*)0)); cj.push_back(cellj(b.back())); }
    Str e = guarded([&] { t.addRow(a, b); }); if (e.empty()) { tags.push_back(a); rows.push_back(b); breaks = breaks || nl(a); for (auto& x : b) breaks = breaks || nl(x); }
    out.ev(Ev("add").kv("cells", Raw{lst(cj)}).kv("err", e).kv("r", (int)t.rowCount()).kv("c", (int)t.columnCount())); }
  void clear() { t.clear(); tags.clear(); rows.clear(); breaks = false; out.ev(Ev("clear").kv("r", (int)t.rowCount())); }
  void format(int c, ColumnFormat f) { if (c == 0) t.tagFormat(f); else t.columnFormat(c - 1, f); if (c < (int)cols.size()) cols[c] = f; out.ev(Ev("fmt").kv("c", c).kv("col", Raw{colj(f)})); }
  void style(int b, bool head, bool sep) { TableStyle s; s.border(SB[b]).header(head).rowSeparators(sep).compact(R.chance(1, 4)); t.style(s); out.ev(Ev("style").kv("b", SN[b]).kv("head", head).kv("sep", sep)); }
  Str texts() { std::vector<Str> m; for (size_t r = 0; r < rows.size(); r++) { std::vector<Str> v = {js(codes(cols[0].formatValue(tags[r])))}; for (size_t c = 0; c < rows[r].size(); c++) v.push_back(js(codes(cols[c + 1].formatValue(rows[r][c])))); m.push_back(lst(v)); } return lst(m); }
  // numbers as a stream shows them by default
  template <class T> static Str deft(const T& x) { std::ostringstream o; o << x; return js(codes(o.str())); }
  Str plain() { std::vector<Str> m; for (size_t r = 0; r < rows.size(); r++) { std::vector<Str> v = {deft(tags[r])}; for (auto& x : rows[r]) v.push_back(deft(x)); m.push_back(lst(v)); } return lst(m); }
  void exp(int f, bool file) { if (f == 0 && breaks) f = 1; std::ostringstream o; if (R.chance(1, 2)) { o << std::hex << std::scientific << std::setprecision(R.range(1, 9)); if (R.chance(1, 2)) o << std::setw(R.range(5, 30)) << std::setfill('*') << std::left; if (R.chance(1, 3)) o << std::showpos << std::uppercase; }
    auto fl = o.flags(); auto pr = o.precision(); auto wd = o.width(); char fi = o.fill(); Str e = guarded([&] { if (f == 0 && R.chance(1, 2)) t.print(o); else t.exportTo(o, FE[f]); });
    out.ev(Ev("exp").kv("f", FN[f]).kv("out", codes(o.str())).kv("err", e).kv("kept", o.flags() == fl && o.precision() == pr && o.width() == wd && o.fill() == fi).kv("T", Raw{f == 0 ? texts() : plain()}).kv("str", f != 0 || t.toString() == o.str()));
    if (file) { Str d = "vp_tbl_" + std::to_string(getpid()); std::filesystem::path p = std::filesystem::temp_directory_path() / d; Str got; Str e1 = guarded([&] { if (f == 0) t.printToFile(p.string()); else t.exportToFile(p.string(), FE[f]); }); { std::ifstream i(p); std::stringstream b; b << i.rdbuf(); got = b.str(); } std::filesystem::remove(p);
      std::ostringstream q; t.exportTo(q, FE[f]); Str e2 = guarded([&] { if (f == 0) t.printToFile("/dev/full"); else t.exportToFile("/dev/full", FE[f]); }), e3 = guarded([&] { t.exportToFile("/nonexistent_dir/x.txt", FE[f]); });
      out.ev(Ev("file").kv("err", e1).kv("same", got == q.str()).kv("full", e2).kv("nodir", e3).kv("empty", q.str().empty())); } }
};
template <class A, class B> static void history(Rng& R, const Str& id, const std::vector<std::array<int, 3>>* script) {
  out.begin(id); int n = script ? 2 : R.range(1, 4); std::vector<ColumnFormat> c; for (int i = 0; i <= n; i++) { c.push_back(fmt(R, i == 0 ? std::is_same<A, int>::value : std::is_same<B, int>::value, true)); }
  Tab<A, B> t(R, c, R.chance(1, 3));
  auto one = [&](int op, int x, int y) { bool ints = x == 0 ? std::is_same<A, int>::value : std::is_same<B, int>::value;
    switch (op) { case 0: t.add(x); break; case 1: t.clear(); break; case 2: { g_plain = true; ColumnFormat f = fmt(R, ints, true); if (y == 1) f.autoWidth(); if (y == 2) f.width(0); t.format(x, f); break; } case 3: t.style((x - 1) % 6, x != 7 && !R.chance(1, 5), x >= 5 || R.chance(1, 3)); break; case 4: t.exp(x - 1, R.chance(1, 6)); break; } };
  g_plain = R.chance(1, 3);
  if (script) for (auto& s : *script) { g_plain = false; if (s[0] == 0) g_plain = R.chance(1, 2); one(s[0], s[1], s[2]); }
  else { bool pl = R.chance(1, 2); int k = R.range(4, 14); for (int i = 0; i < k; i++) { g_plain = pl; int d = R.range(0, 19); if (d < 8) one(0, n, 0); else if (d == 8) one(0, n + R.pick(std::vector<int>{-1, 1}), 0); else if (d == 9) one(1, 0, 0); else if (d < 12) one(2, R.range(0, n + 1), R.range(1, 4)); else if (d < 14) one(3, R.range(1, 8), 0); else one(4, R.range(1, 6), 0); }
    for (int f = 0; f < 6; f++) t.exp(f, false); }
  out.end(); }
int main(int c, char** v) {
  Args a = args(c, v); Rng R(a.seed); out.open(a.out.c_str()); int N = a.thorough() ? 600 : 60;
  if (!a.script.empty()) { std::ifstream fs(a.script); Str line; int k = 0;
    while (std::getline(fs, line)) { if (line.empty()) continue; std::vector<std::array<int, 3>> s; std::stringstream ls(line); Str ev;
      while (std::getline(ls, ev, ';')) { std::stringstream q(ev); Str op; int x = 0, y = 0; q >> op >> x >> y; s.push_back({op == "add" ? 0 : op == "clear" ? 1 : op == "fmt" ? 2 : op == "style" ? 3 : 4, x, y}); }
      Str id = "spec" + std::to_string(k++); if (k % 3) history<Str, Str>(R, id, &s); else history<Str, double>(R, id, &s); } }
  for (int i = 0; i < N; i++) { Str id = "t" + std::to_string(i); switch (i % 4) { case 0: history<Str, Str>(R, id, nullptr); break; case 1: history<Str, double>(R, id, nullptr); break; case 2: history<int, double>(R, id, nullptr); break; default: history<Str, int>(R, id, nullptr); } }
  for (int i = 0; i < N; i++) {   // columns that are vectors
    out.begin("v" + std::to_string(i)); int n = R.range(1, 4); std::vector<Vector<Real>> vs(n); std::vector<ColumnFormat> cs; TableStyle ts; int b = R.range(0, 5); bool head = !R.chance(1, 4), sep = R.chance(1, 4); ts.border(SB[b]).header(head).rowSeparators(sep); VectorTablePrinter p; p.style(ts);
    for (int k = 0; k < n; k++) { vs[k] = Vector<Real>(R.range(0, 5)); for (int j = 0; j < (int)vs[k].size(); j++) vs[k][j] = value(R, (double*)0); cs.push_back(fmt(R, false, true)); }
    if (R.chance(1, 3)) { std::vector<Vector<Real>*> q; for (auto& x : vs) q.push_back(&x); std::vector<ColumnFormat> f = cs; if (R.chance(1, 2)) { f.pop_back(); cs.back() = ColumnFormat("Column" + std::to_string(n - 1)); } p = VectorTablePrinter(f, q); p.style(ts); }
    else for (int k = 0; k < n; k++) { if (R.chance(1, 4)) { cs[k] = ColumnFormat(cs[k].name()); p.addVector(cs[k].name(), vs[k]); } else p.addVector(cs[k], vs[k]); }
    for (int rep = 0; rep < 2; rep++) { size_t m = 0; for (auto& x : vs) m = std::max(m, (size_t)x.size()); std::vector<Str> T, V, cj; for (auto& x : cs) cj.push_back(colj(x));
      for (size_t r = 0; r < m; r++) { std::vector<Str> t, u; for (int k = 0; k < n; k++) { bool in = r < (size_t)vs[k].size(); t.push_back(in ? js(codes(cs[k].formatValue(vs[k][r]))) : Str("[]")); u.push_back(in ? cellj((double)vs[k][r]) : cellj(Str(""))); } T.push_back(lst(t)); V.push_back(lst(u)); }
      std::ostringstream o; if (R.chance(1, 2)) o << std::setw(9) << std::scientific << std::setprecision(2); auto fl = o.flags(); auto pr = o.precision(); auto wd = o.width(); Str e = guarded([&] { p.print(o); });
      out.ev(Ev("vec").kv("cols", Raw{lst(cj)}).kv("V", Raw{lst(V)}).kv("T", Raw{lst(T)}).kv("b", SN[b]).kv("head", head).kv("sep", sep).kv("out", codes(o.str())).kv("err", e).kv("kept", o.flags() == fl && o.precision() == pr && o.width() == wd).kv("str", p.toString() == o.str()));
      int k = R.range(0, n - 1); vs[k] = Vector<Real>(R.range(0, 6)); for (int j = 0; j < (int)vs[k].size(); j++) vs[k][j] = value(R, (double*)0); }   // the printer refers to the vectors
    out.end(); }
  for (int i = 0; i < N * 2; i++) { out.begin("e" + std::to_string(i)); for (int k = 0; k < 5; k++) { Str s = text(R, 5); out.ev(Ev("esc").kv("t", codes(s)).kv("need", Csv::needsQuoting(s)).kv("csv", codes(Csv::escape(s))).kv("back", codes(Csv::unescape(Csv::escape(s)))).kv("html", codes(Html::escape(s))).kv("tex", codes(Latex::escape(s)))); 
      int n = R.range(0, 4); out.ev(Ev("utf").kv("t", codes(s)).kv("n", n).kv("rep", codes(Utf8::repeatString(s, n))).kv("one", Utf8::isSingleDisplayChar(s))); } out.end(); }
  out.close(); return 0;
}
